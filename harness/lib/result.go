package lib

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// Violation is one refuted case with everything needed to replay it.
type Violation struct {
	Key    string            `json:"key"` // identifies the failing input, call site or history
	What   string            `json:"what"`
	Detail map[string]string `json:"detail,omitempty"`
	Files  map[string][]byte `json:"-"`
}

// Result collects what one check observed.  Safe for concurrent use.
type Result struct {
	mu           sync.Mutex
	Property     string                     `json:"property"`
	Evaluations  int64                      `json:"evaluations"`
	Distinct     map[string]bool            `json:"-"`
	DistinctN    int64                      `json:"distinct_nontrivial"`
	Rule         string                     `json:"rule"`
	Samples      []any                      `json:"samples"`
	Counters     map[string]int64           `json:"counters"`
	Sets         map[string]map[string]bool `json:"-"`
	Violations   []Violation                `json:"violations"`
	Inconclusive []string                   `json:"inconclusive"`
	// Listed are the keys of recorded findings: seeing them again must not
	// end the exploration the way fresh violations do.
	Listed      map[string]bool `json:"-"`
	Assumptions []string        `json:"assumptions"`
}

func NewResult(prop string) *Result {
	return &Result{Property: prop, Distinct: map[string]bool{}, Counters: map[string]int64{}, Sets: map[string]map[string]bool{}}
}

func Hash(parts ...any) string {
	h := sha256.New()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0})
	}
	return hex.EncodeToString(h.Sum(nil)[:10])
}

// Eval counts one evaluated case; sig identifies it, "" when it is trivial.
func (r *Result) Eval(sig string) {
	r.mu.Lock()
	r.Evaluations++
	if sig != "" {
		r.Distinct[sig] = true
	}
	r.mu.Unlock()
}

// EvalN counts n evaluations at once without distinctness.
func (r *Result) EvalN(n int64) {
	r.mu.Lock()
	r.Evaluations += n
	r.mu.Unlock()
}

// DistinctAdd counts cases whose distinctness is established by construction
// or by the caller's own set.
func (r *Result) DistinctAdd(n int64) {
	r.mu.Lock()
	r.DistinctN += n
	r.mu.Unlock()
}

func (r *Result) Count(name string, n int64) {
	r.mu.Lock()
	r.Counters[name] += n
	r.mu.Unlock()
}

func (r *Result) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.Counters[name] {
		r.Counters[name] = n
	}
	r.mu.Unlock()
}

// Seen adds v to a named set whose size is reported.
func (r *Result) Seen(set, v string) {
	r.mu.Lock()
	m := r.Sets[set]
	if m == nil {
		m = map[string]bool{}
		r.Sets[set] = m
	}
	m[v] = true
	r.mu.Unlock()
}

func (r *Result) Sample(s any) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func (r *Result) Violate(key, what string, detail map[string]string, files map[string][]byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Listed[key] {
		if r.Counters["known_finding_cases"]++; r.Counters["known_finding_cases"] <= 3 {
			r.Violations = append(r.Violations, Violation{Key: key, What: what, Detail: detail, Files: files})
		}
		return
	}
	if len(r.Violations) < 40 {
		r.Violations = append(r.Violations, Violation{Key: key, What: what, Detail: detail, Files: files})
	}
	r.Counters["violating_cases"]++
}

// NViol is the number of violating cases so far.
func (r *Result) NViol() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.Counters["violating_cases"]
}

func (r *Result) Unclear(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Inconclusive) < 20 {
		r.Inconclusive = append(r.Inconclusive, fmt.Sprintf(format, a...))
	}
}

func (r *Result) finish() {
	r.DistinctN += int64(len(r.Distinct))
	r.Distinct = map[string]bool{}
	for k, m := range r.Sets {
		if n := int64(len(m)); n > r.Counters["distinct_"+k] {
			r.Counters["distinct_"+k] = n
		}
	}
}

// SetValues lists a small set for the evidence.
func (r *Result) SetValues() map[string][]string { return r.setValues(40) }

func (r *Result) setValues(max int) map[string][]string {
	out := map[string][]string{}
	for k, m := range r.Sets {
		if len(m) <= max {
			var l []string
			for v := range m {
				l = append(l, v)
			}
			sort.Strings(l)
			out[k] = l
		}
	}
	return out
}

type wireResult struct {
	*Result
	SetVals map[string][]string `json:"set_values"`
	VFiles  []map[string][]byte `json:"vfiles"`
}

// Dump writes the result for the orchestrator (drivers).
func (r *Result) Dump(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.finish()
	w := wireResult{Result: r, SetVals: r.setValues(50000)}
	for _, v := range r.Violations {
		w.VFiles = append(w.VFiles, v.Files)
	}
	b, err := json.Marshal(&w)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// LoadInto merges a dumped result.
func (r *Result) LoadInto(path string) error { return r.LoadTagged(path, "", nil, nil) }

// LoadTagged merges a dumped result, marking its violations as those of one
// case.
func (r *Result) LoadTagged(path, prefix string, detail map[string]string, files map[string][]byte) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	w := wireResult{Result: NewResult("")}
	if err := json.Unmarshal(b, &w); err != nil {
		return err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations += w.Evaluations
	r.DistinctN += w.DistinctN
	if r.Rule == "" {
		r.Rule = w.Rule
	}
	for _, s := range w.Samples {
		if len(r.Samples) < 8 {
			r.Samples = append(r.Samples, s)
		}
	}
	for k, v := range w.Counters {
		switch {
		case k == "violating_cases":
		case strings.HasPrefix(k, "max_"), strings.HasPrefix(k, "most_"), strings.HasPrefix(k, "largest_"):
			if v > r.Counters[k] {
				r.Counters[k] = v
			}
		case strings.HasPrefix(k, "distinct_") && len(w.SetVals[k[len("distinct_"):]]) > 0:
		default:
			r.Counters[k] += v
		}
	}
	for k, vs := range w.SetVals {
		m := r.Sets[k]
		if m == nil {
			m = map[string]bool{}
			r.Sets[k] = m
		}
		for _, v := range vs {
			m[v] = true
		}
	}
	for i, v := range w.Violations {
		if i < len(w.VFiles) {
			v.Files = w.VFiles[i]
		}
		v.What = prefix + v.What
		if v.Detail == nil {
			v.Detail = map[string]string{}
		}
		for k, x := range detail {
			v.Detail[k] = x
		}
		if v.Files == nil {
			v.Files = map[string][]byte{}
		}
		for k, x := range files {
			v.Files[k] = x
		}
		r.Violations = append(r.Violations, v)
		r.Counters["violating_cases"]++
	}
	r.Inconclusive = append(r.Inconclusive, w.Inconclusive...)
	for _, a := range w.Assumptions {
		dup := false
		for _, b := range r.Assumptions {
			dup = dup || a == b
		}
		if !dup {
			r.Assumptions = append(r.Assumptions, a)
		}
	}
	return nil
}

func Trunc(s string, n int) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
