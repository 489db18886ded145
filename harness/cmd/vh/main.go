// vh is the orchestrator: "vh P13" decides property P13 against the tree in
// $VERIF_REPO (default /repo) and writes its evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	. "verif/lib"
)

type check struct {
	level string
	fn    func(c *Ctx)
}

var checks = map[string]check{}

func register(id, level string, fn func(c *Ctx)) { checks[id] = check{level, fn} }

type Ctx struct {
	Prop     string
	Tier     string
	Thorough bool
	Seed     uint64
	Repo     string
	Verif    string
	Scratch  string
	R        *Result
	Par      int // parallel cases
	Max      int // stop after this many violating cases
	Extra    map[string]any

	mu     sync.Mutex
	built  map[string]error
	Only   int // replay: run only this case
	Replay bool
}

func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "__exec" {
		ExecHelper(os.Args[2:])
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROPERTY [case]")
		os.Exit(2)
	}
	if os.Args[1] == "setup" {
		os.Exit(setup())
	}
	id := os.Args[1]
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	c := newCtx(id)
	if len(os.Args) > 2 {
		c.Only, _ = strconv.Atoi(os.Args[2])
		c.Replay = true
	}
	start := time.Now()
	code := c.run(ck)
	_ = os.RemoveAll(c.Scratch)
	fmt.Fprintf(os.Stderr, "%s: done in %.1fs\n", id, time.Since(start).Seconds())
	os.Exit(code)
}

func newCtx(id string) *Ctx {
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = StrStream(os.Getenv("VERIF_SEED"))
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	s, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &Ctx{Prop: id, Tier: tier, Thorough: tier == "thorough", Seed: seed, Repo: env("VERIF_REPO", "/repo"),
		Verif: env("VERIF_DIR", "/verif"), Scratch: s, R: NewResult(id), Par: 6, Max: 6, Only: -1,
		built: map[string]error{}, Extra: map[string]any{}}
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// known reads the listed findings: lines "finding: {json}" in known-findings.txt.
func (c *Ctx) known() []finding {
	b, err := os.ReadFile(filepath.Join(c.Verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l[9:]), &f) == nil && f.Property == c.Prop {
			out = append(out, f)
		}
	}
	return out
}

type inconclusive struct{ msg string }

func (c *Ctx) Fail(format string, a ...any) { panic(inconclusive{fmt.Sprintf(format, a...)}) }

func (c *Ctx) run(ck check) (code int) {
	start := time.Now()
	c.R.Listed = map[string]bool{}
	for _, f := range c.known() {
		c.R.Listed[f.Key] = true
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if in, ok := e.(inconclusive); ok {
					c.R.Unclear("%s", in.msg)
					return
				}
				panic(e)
			}
		}()
		ck.fn(c)
	}()
	r := c.R
	// Writing evidence.
	tmp := filepath.Join(c.Scratch, "own.json")
	if err := r.Dump(tmp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	known := c.known()
	var fresh []Violation
	hit := map[string]bool{}
	for _, v := range r.Violations {
		k := false
		for _, f := range known {
			if f.Key == v.Key {
				k = true
				if !hit[f.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, f.What)
				}
				hit[f.Key] = true
			}
		}
		if !k {
			fresh = append(fresh, v)
		}
	}
	cov := map[string]any{
		"evaluations":         r.Evaluations,
		"distinct_nontrivial": r.DistinctN,
		"rule":                r.Rule,
		"samples":             r.Samples,
	}
	if len(r.Samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	obs := map[string]int64{}
	for k, v := range r.Counters {
		obs[k] = v
	}
	cov["observed"] = obs
	if sv := r.SetValues(); len(sv) > 0 {
		cov["observed_values"] = sv
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": int64(c.Seed & (1<<62 - 1)), "level": ck.level, "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	edir := env("VERIF_EVIDENCE", filepath.Join(c.Verif, "evidence"))
	_ = os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) > 0 {
		rdir := env("VERIF_REPLAYS", filepath.Join(c.Verif, "replays"))
		for i, v := range fresh {
			if i >= 5 {
				fmt.Printf("(%d more violating cases)\n", len(fresh)-i)
				break
			}
			d := filepath.Join(rdir, fmt.Sprintf("%s-%d", c.Prop, i+1))
			_ = os.RemoveAll(d)
			_ = os.MkdirAll(d, 0o755)
			for n, data := range v.Files {
				_ = os.WriteFile(filepath.Join(d, filepath.Base(n)), data, 0o644)
			}
			m := map[string]any{"property": c.Prop, "key": v.Key, "what": v.What, "detail": v.Detail, "seed": c.Seed, "tier": c.Tier,
				"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s", c.Seed, c.Tier, c.Prop)}
			jb, _ := json.MarshalIndent(m, "", " ")
			_ = os.WriteFile(filepath.Join(d, "replay.json"), append(jb, '\n'), 0o644)
			fmt.Printf("%s\n", Trunc(v.What, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, d)
		}
		return 1
	}
	for _, m := range r.Inconclusive {
		fmt.Printf("INCONCLUSIVE %s\n", m)
	}
	if len(r.Inconclusive) > 0 {
		return 2
	}
	if r.Evaluations == 0 || r.DistinctN == 0 {
		fmt.Println("INCONCLUSIVE nothing was observed")
		return 2
	}
	fmt.Printf("held: %s evaluations=%d distinct=%d\n", c.Prop, r.Evaluations, r.DistinctN)
	var ks []string
	for k := range r.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s=%d\n", k, r.Counters[k])
	}
	return 0
}

// ---- building ----

var commands = []string{"blockcount", "decompress", "dumpnodeindex", "dumpwayindex", "entitycount", "entityfind",
	"nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off")
}

func (c *Ctx) variantFlags(v string) []string {
	switch v {
	case "race":
		return []string{"-race"}
	case "verif":
		return []string{"-tags", "verif"}
	case "verifrace":
		return []string{"-tags", "verif", "-race"}
	}
	return nil
}

func (c *Ctx) goBuild(args ...string) error {
	x := exec.Command("go", append([]string{"build", "-buildvcs=false"}, args...)...)
	x.Dir = c.Repo
	x.Env = goEnv()
	out, err := x.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build %v: %v\n%s", args, err, Trunc(string(out), 3000))
	}
	return nil
}

// CLI builds the commands once per variant and gives their directory.
func (c *Ctx) CLI(variant string) string {
	dir := filepath.Join(c.Scratch, "bin-"+variant)
	c.once("cli-"+variant, func() error {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		mf, err := c.modFile(false)
		if err != nil {
			return err
		}
		a := append([]string{"-modfile=" + mf}, c.variantFlags(variant)...)
		if variant == "jitter" {
			rep, err := c.jitter()
			if err != nil {
				return err
			}
			ov, err := c.overlay("cli-jitter", rep)
			if err != nil {
				return err
			}
			if err = c.goBuild(append(a, "-overlay="+ov, "-o", dir+"/", "./cmd/...")...); err == nil {
				return nil
			}
			c.R.Count("builds_without_delays", 1) // plain, as below
			fmt.Printf("note: no build with delays: %v\n", err)
		}
		return c.goBuild(append(a, "-o", dir+"/", "./cmd/...")...)
	})
	return dir
}

func (c *Ctx) overlay(name string, rep map[string]string) (string, error) {
	ov := filepath.Join(c.Scratch, "overlay-"+name+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	return ov, os.WriteFile(ov, b, 0o644)
}

// fastTSC copies the third-party timestamp package with its start-up
// calibration loop (100000 rdtsc pairs, 0.25 s per process here) cut to 200
// rounds; the value it yields, the smallest cost of a pair, only offsets the
// lookup timing histogram.  Gives "" when the package does not look as
// expected: the commands are then only slower.
func (c *Ctx) fastTSC() string {
	const mod = "github.com/dterei/gotsc"
	dst := filepath.Join(c.Scratch, "gotsc")
	x := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mod)
	x.Dir = c.Repo
	x.Env = goEnv()
	d, err := x.Output()
	if err != nil {
		return ""
	}
	src := strings.TrimSpace(string(d))
	es, err := os.ReadDir(src)
	if err != nil || os.MkdirAll(dst, 0o755) != nil {
		return ""
	}
	ok := false
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), ".s") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return ""
		}
		t := string(b)
		if strings.Count(t, "i < 100000;") == 1 {
			t = strings.Replace(t, "i < 100000;", "i < 200;", 1)
			ok = true
		}
		if os.WriteFile(filepath.Join(dst, e.Name()), []byte(t), 0o644) != nil {
			return ""
		}
	}
	if !ok || os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+mod+"\n"), 0o644) != nil {
		return ""
	}
	return fmt.Sprintf("\nreplace %s => %s\n", mod, dst)
}

func (c *Ctx) once(key string, f func() error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	err, ok := c.built[key]
	if !ok {
		err = f()
		c.built[key] = err
	}
	if err != nil {
		panic(inconclusive{err.Error()})
	}
}

// modFile makes a copy of the module files (so that the tree's own stay
// untouched), optionally with our library added.
func (c *Ctx) modFile(withLib bool) (string, error) {
	name := "plain"
	if withLib {
		name = "lib"
	}
	p := filepath.Join(c.Scratch, name+".mod")
	if _, err := os.Stat(p); err == nil {
		return p, nil
	}
	b, err := os.ReadFile(filepath.Join(c.Repo, "go.mod"))
	if err != nil {
		return "", err
	}
	b = append(b, []byte(c.fastTSC())...)
	if withLib {
		b = append(b, []byte(fmt.Sprintf("\nrequire verif v0.0.0\n\nreplace verif => %s\n", filepath.Join(c.Verif, "harness")))...)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return "", err
	}
	s, err := os.ReadFile(filepath.Join(c.Repo, "go.sum"))
	if err == nil {
		err = os.WriteFile(strings.TrimSuffix(p, ".mod")+".sum", s, 0o644)
	}
	return p, err
}

// Driver builds /verif/inmod/<name> inside the module under test.
func (c *Ctx) Driver(name, variant string) string {
	out := filepath.Join(c.Scratch, "drv-"+name+"-"+variant)
	c.once(out, func() error {
		mf, err := c.modFile(true)
		if err != nil {
			return err
		}
		src := filepath.Join(c.Verif, "inmod", name)
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		rep := map[string]string{}
		if variant == "jitter" {
			if rep, err = c.jitter(); err != nil {
				return err
			}
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				rep[filepath.Join(c.Repo, "internal", "zzverif", name, e.Name())] = filepath.Join(src, e.Name())
			}
		}
		ov, err := c.overlay(name+"-"+variant, rep)
		if err != nil {
			return err
		}
		a := append([]string{"-modfile=" + mf, "-overlay=" + ov}, c.variantFlags(variant)...)
		err = c.goBuild(append(a, "-o", out, "./internal/zzverif/"+name)...)
		if err != nil && variant == "jitter" {
			c.R.Count("builds_without_delays", 1)
			fmt.Printf("note: no build with delays: %v\n", err)
			for f := range rep {
				if filepath.Base(filepath.Dir(filepath.Dir(f))) != "zzverif" {
					delete(rep, f)
				}
			}
			if _, err = c.overlay(name+"-"+variant, rep); err == nil {
				err = c.goBuild(append(a, "-o", out, "./internal/zzverif/"+name)...)
			}
		}
		return err
	})
	return out
}

// RunDriver runs a driver and merges its result.  A crash or hang of the
// driver is a violation: the driver only makes calls the property covers, and
// notes the current case in the "case" file.
func (c *Ctx) RunDriver(name, variant string, envs []string, args ...string) *Out {
	return c.runDriver(name, variant, "", nil, nil, func(cmd *Cmd) {
		cmd.Env = append(cmd.Env, envs...)
		cmd.Args = args
	})
}

func (c *Ctx) runDriver(name, variant, prefix string, detail map[string]string, files func() map[string][]byte, prep func(*Cmd)) *Out {
	bin := c.Driver(name, variant)
	dir, err := os.MkdirTemp(c.Scratch, "run-"+name+"-")
	if err != nil {
		c.Fail("%v", err)
	}
	res := filepath.Join(dir, "result.json")
	cmd := &Cmd{Path: bin, Dir: dir, Env: []string{"DRV_RESULT=" + res, "DRV_DIR=" + dir, "DRV_PROP=" + c.Prop, "DRV_TIER=" + c.Tier,
		fmt.Sprintf("DRV_SEED=%d", c.Seed), "VH_BIN=" + VHPath()}, CPU: c.N(1500, 6000), Timeout: time.Duration(c.N(500, 3000)) * time.Second}
	prep(cmd)
	o := cmd.Run()
	tmp := NewResult("")
	lerr := tmp.LoadInto(res)
	var fs map[string][]byte
	if files != nil && (lerr != nil || o.Exit != 0 || len(tmp.Violations) > 0) {
		fs = files()
	}
	if lerr == nil {
		_ = c.R.LoadTagged(res, prefix, detail, fs)
	}
	if lerr != nil || o.Exit != 0 {
		cs, _ := os.ReadFile(filepath.Join(dir, "case"))
		switch {
		case o.Helper || o.TimedOut:
			c.R.Unclear("driver %s: %s (case %s)", name, o.Brief(), Trunc(string(cs), 200))
		case o.Exit == 77:
			c.R.Unclear("driver %s gave up: %s", name, Trunc(string(o.Stderr), 800))
		default:
			d := map[string]string{"last_call": string(cs)}
			for k, v := range detail {
				d[k] = v
			}
			if fs == nil {
				fs = map[string][]byte{}
			}
			fs["stderr.txt"] = o.Stderr
			c.R.Violate("driver-crash:"+name+":"+string(cs), fmt.Sprintf("%s%s driver ended with %s while making the call: %s", prefix, name, Trunc(o.Brief(), 1200), Trunc(string(cs), 300)), d, fs)
		}
	}
	_ = os.RemoveAll(dir)
	return o
}

func setup() int {
	c := newCtx("setup")
	defer os.RemoveAll(c.Scratch)
	code := 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println(e)
				code = 1
			}
		}()
		c.CLI("plain")
		c.CLI("race")
		c.CLI("verif")
		es, _ := os.ReadDir(filepath.Join(c.Verif, "inmod"))
		for _, e := range es {
			c.Driver(e.Name(), "plain")
		}
	}()
	return code
}
