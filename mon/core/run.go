// Package core is the frame shared by the monitors: deterministic cases, violation
// reports with replay files, counters of what was observed, and the evidence file.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of the check of one property.
type Run struct {
	Prop  string
	Tier  string
	Seed  uint64
	Rule  string   // how cases are made and what makes one non-trivial
	Level string   // evidence level
	Assum []string // assumptions

	dir   string // /verif
	only  string // run only this case
	scale int    // multiplies repetition counts of --replay

	start      time.Time
	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	maxes      map[string]float64
	samples    []interface{}
	sampleKeys map[string]int
	violations []string
	notes      []string
	known      []string
	failed     int32
	progress   uint64
}

// Thorough reports whether the thorough tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N selects a size for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Dir is the directory of the verification framework.
func (r *Run) Dir() string { return r.dir }

// Failed reports whether a violation has been found already.
func (r *Run) Failed() bool { return atomic.LoadInt32(&r.failed) != 0 }

// Tick reports progress to the watchdog.
func (r *Run) Tick() { atomic.AddUint64(&r.progress, 1) }

// Count adds n to a named counter of observed events.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
	r.Tick()
}

// Counter returns the value of a counter.
func (r *Run) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Max records the largest value seen under a name.
func (r *Run) Max(name string, v float64) {
	r.mu.Lock()
	if o, ok := r.maxes[name]; !ok || v > o {
		r.maxes[name] = v
	}
	r.mu.Unlock()
}

// Eval counts one more evaluation; digest identifies the case if it was non-trivial,
// zero if it was trivial.
func (r *Run) Eval(digest uint64) {
	r.mu.Lock()
	r.evals++
	if digest != 0 && len(r.distinct) < 5000000 {
		r.distinct[digest] = struct{}{}
	}
	r.mu.Unlock()
	r.Tick()
}

// Sample keeps up to three samples per kind.
func (r *Run) Sample(kind string, v interface{}) {
	r.mu.Lock()
	if r.sampleKeys[kind] < 3 && len(r.samples) < 40 {
		r.sampleKeys[kind]++
		r.samples = append(r.samples, map[string]interface{}{"kind": kind, "case": v})
	}
	r.mu.Unlock()
}

// Note records a remark in the evidence, e.g. that something was inconclusive.
func (r *Run) Note(format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.notes) < 50 {
		r.notes = append(r.notes, fmt.Sprintf(format, args...))
	}
	r.mu.Unlock()
}

// Known reports a listed finding. It returns false if the finding is not listed, in
// which case the caller must report a violation.
func (r *Run) Known(id, what string) bool {
	data, err := os.ReadFile(filepath.Join(r.dir, "known_findings.txt"))
	if err != nil {
		return false
	}
	want := "known: property=" + r.Prop + " id=" + id + " "
	for _, l := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(l, want) {
			r.mu.Lock()
			r.known = append(r.known, id)
			r.mu.Unlock()
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
			return true
		}
	}
	return false
}

// Case is one deterministic unit of work.
type Case struct {
	*Run
	Name string
	Rng  *Rand

	wg     sync.WaitGroup
	cmu    sync.Mutex
	gofail interface{}
	gost   []byte
	logmu  sync.Mutex
	logs   []string
}

type failure struct{ msg string }

// Failf ends the case with a violation.
func (c *Case) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Check fails the case unless ok.
func (c *Case) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Logf adds a line to the witness of the case.
func (c *Case) Logf(format string, args ...interface{}) {
	c.logmu.Lock()
	if len(c.logs) < 4000 {
		c.logs = append(c.logs, fmt.Sprintf(format, args...))
	}
	c.logmu.Unlock()
}

// Go starts a goroutine whose failures are failures of the case.
func (c *Case) Go(fn func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				c.cmu.Lock()
				if c.gofail == nil {
					c.gofail = e
					c.gost = debug.Stack()
				}
				c.cmu.Unlock()
			}
		}()
		fn()
	}()
}

// Stop reports whether a goroutine of the case has failed.
func (c *Case) Stop() bool {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	return c.gofail != nil
}

// Wait waits for the goroutines started with Go.
func (c *Case) Wait() {
	c.wg.Wait()
	c.cmu.Lock()
	e, st := c.gofail, c.gost
	c.cmu.Unlock()
	if e != nil {
		if f, ok := e.(failure); ok {
			panic(f)
		}
		panic(failure{fmt.Sprintf("panic: %v\n%s", e, st)})
	}
}

// Do runs one case.
func (r *Run) Do(name string, fn func(c *Case)) {
	times := 1
	if r.only != "" {
		if r.only != name {
			return
		}
		times = r.scale
	}
	for i := 0; i < times && !r.Failed(); i++ {
		r.do(name, fn)
	}
}

func (r *Run) do(name string, fn func(c *Case)) {
	if os.Getenv("VERIF_TIMING") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 200*time.Millisecond {
				fmt.Fprintf(os.Stderr, "%-40s %v\n", name, d)
			}
		}()
	}
	c := &Case{Run: r, Name: name, Rng: NewRand(r.Seed, r.Prop, name)}
	defer r.Tick()
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if f, ok := e.(failure); ok {
			r.violate(c, f.msg)
			return
		}
		r.violate(c, fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
	}()
	fn(c)
}

// Each runs n cases, several at a time.
func (r *Run) Each(n int, name string, fn func(c *Case, i int)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > 8 {
		workers = 8
	}
	r.each(workers, n, name, fn)
}

// Seq runs n cases one after another.
func (r *Run) Seq(n int, name string, fn func(c *Case, i int)) { r.each(1, n, name, fn) }

func (r *Run) each(workers, n int, name string, fn func(c *Case, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.Failed() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				r.Do(fmt.Sprintf("%s/%d", name, i), func(c *Case) { fn(c, i) })
			}
		}()
	}
	wg.Wait()
}

type replayFile struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Case     string   `json:"case"`
	What     string   `json:"what"`
	Log      []string `json:"log,omitempty"`
	How      string   `json:"how"`
}

func (r *Run) violate(c *Case, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	atomic.StoreInt32(&r.failed, 1)
	if len(r.violations) >= 5 {
		return
	}
	n := len(r.violations)
	path := WriteReplay(r.dir, r.Prop, n, replayFile{Property: r.Prop, Seed: r.Seed, Tier: r.Tier, Case: c.Name, What: msg, Log: c.logs})
	r.violations = append(r.violations, msg)
	short := msg
	if i := strings.IndexByte(short, '\n'); i >= 0 {
		short = short[:i]
	}
	fmt.Printf("case %s: %s\n", c.Name, clip(short, 600))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// WriteReplay stores a witness and returns its path.
func WriteReplay(dir, prop string, n int, f replayFile) string {
	d := filepath.Join(dir, "replay")
	os.MkdirAll(d, 0755)
	path := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, n))
	f.How = "./run.sh " + prop + " --replay " + path
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	return path
}

func (r *Run) writeEvidence() {
	r.mu.Lock()
	defer r.mu.Unlock()
	obs := map[string]interface{}{}
	for k, v := range r.counters {
		obs[k] = v
	}
	for k, v := range r.maxes {
		obs["max "+k] = v
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "none")
	}
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
		"observed":            obs,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if len(r.known) > 0 {
		cov["known_findings_seen"] = r.known
	}
	level := r.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": level,
		"coverage": cov, "wall_s": float64(int(time.Since(r.start).Seconds()*100)) / 100,
		"violations": len(r.violations),
	}
	if len(r.Assum) > 0 {
		ev["assumptions"] = r.Assum
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(r.dir, "evidence"), 0755)
	os.WriteFile(filepath.Join(r.dir, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
}

// SortedKeys returns the keys of m in order.
func SortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
