B=dict(property="P25", cli=False, pbf=False,
needs="a viewer reading version and list between the version change and the list change of a registration",
breaks="the version changes before the list does, so a viewer can keep showing a list that lacks the worker",
edits=[("internal/tracker/worker_tracker.go","""	wt.mu.Lock()
	wt.workers = append(wt.workers, sw)
	wt.mu.Unlock()
	atomic.AddUint64(&wt.version, 1)
""","""	atomic.AddUint64(&wt.version, 1)
	wt.mu.Lock()
	wt.workers = append(wt.workers, sw)
	wt.mu.Unlock()
""")],
demo='''
package zzdemo

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/tracker"
)

// Viewers refresh whenever the version changes; once registration is over they must show the final list.
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	end := time.Now().Add(60 * time.Second)
	for round := 0; round < 60000 && time.Now().Before(end); round++ {
		var wt tracker.WorkerTracker
		var stop uint32
		var wg sync.WaitGroup
		shown := make([]int, 5)
		for v := range shown {
			wg.Add(1)
			go func(v int) {
				defer wg.Done()
				last := uint64(0)
				for {
					ending := atomic.LoadUint32(&stop) != 0
					if ver := wt.Version(); ver != last {
						last = ver
						shown[v] = len(wt.WorkerStates())
					}
					if ending {
						return
					}
				}
			}(v)
		}
		var reg sync.WaitGroup
		for g := 0; g < 3; g++ {
			reg.Add(1)
			go func() {
				defer reg.Done()
				wt.TrackWorker(new(int))
			}()
		}
		reg.Wait()
		atomic.StoreUint32(&stop, 1)
		wg.Wait()
		for _, n := range shown {
			if n != 3 {
				t.Fatalf("round %d: a viewer shows %d of 3 workers", round, n)
			}
		}
	}
}
''')
