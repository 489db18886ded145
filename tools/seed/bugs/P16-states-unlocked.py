B=dict(property="P16", cli=False, pbf=False, race=True,
needs="the display listing workers while one of them registers or leaves",
breaks="the list of workers is copied without holding the lock",
edits=[("internal/tracker/worker_tracker.go","""	wt.mu.RLock()
	states := make([]interface{}, 0, len(wt.workers))
	for _, worker := range wt.workers {
		states = append(states, worker)
	}
	wt.mu.RUnlock()
	return states
""","""	wt.mu.RLock()
	workers := wt.workers
	wt.mu.RUnlock()
	states := make([]interface{}, 0, len(workers))
	for _, worker := range workers {
		states = append(states, worker)
	}
	return states
""")],
demo='''
package zzdemo

import (
	"sync"
	"testing"

	"github.com/squizzling/osmindex/internal/tracker"
)

func TestDemo(t *testing.T) {
	var wt tracker.WorkerTracker
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				x := new(int)
				wt.TrackWorker(x)
				for _, s := range wt.WorkerStates() {
					if s == nil {
						t.Error("an empty place in the list")
					}
				}
				wt.UntrackWorker(x)
			}
		}()
	}
	wg.Wait()
}
''')
