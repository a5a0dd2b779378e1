package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one counterexample.
type Violation struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Case     string `json:"case"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
	Note     string `json:"note,omitempty"`
	Repro    string `json:"reproduced"`
	goTest   string
	artefact *artefact
	order    int64
}

// artefact is what replay.sh plays again, where that is not a Go test.
type artefact struct {
	name string
	data interface{}
}

// Worker is one exploring goroutine.
type Worker struct {
	e        *Eng
	id       int
	ticks    atomic.Int64
	busy     atomic.Bool
	desc     atomic.Pointer[func() string]
	evals    int64
	nontriv  int64
	repeat   bool // cases recur, do not count them as distinct
	artefact *artefact
	before   func() (what, src string) // the calls before this one, where they matter
	trans    int64
	traces   int64
	states   map[uint64]struct{}
	outs     map[uint64]struct{}
	_        [64]byte
}

// HarnessStat is what one harness covered.
type HarnessStat struct {
	Name       string  `json:"name"`
	Space      string  `json:"space"`
	Evals      int64   `json:"evaluations"`
	Nontrivial int64   `json:"distinct_nontrivial"`
	States     int     `json:"states,omitempty"`
	Trans      int64   `json:"transitions,omitempty"`
	Traces     int64   `json:"traces,omitempty"`
	Outcomes   int     `json:"distinct_outcomes,omitempty"`
	Complete   bool    `json:"complete"`
	Wall       float64 `json:"wall_s"`
}

// Eng runs the harnesses of one check.
type Eng struct {
	prop     string
	tier     string
	seed     int
	level    string
	rule     string
	assume   []string
	extra    map[string]interface{}
	start    time.Time
	deadline time.Time
	evDir    string

	mu      sync.Mutex
	viol    []Violation
	stop    atomic.Bool
	capped  atomic.Bool
	samples []string
	stats   []HarnessStat
	states  map[uint64]struct{}
	hname   string

	childStates int64
	harnNo      int64
	nw          int
}

func (e *Eng) thorough() bool { return e.tier == "thorough" }

// pick returns q in the quick tier and t in the thorough tier.
func (e *Eng) pick(q, t int) int {
	if e.thorough() {
		return t
	}
	return q
}

// Sample records an actual case (a few per harness).
func (e *Eng) Sample(s string) {
	e.mu.Lock()
	if len(e.samples) < 40 {
		e.samples = append(e.samples, e.hname+": "+s)
	}
	e.mu.Unlock()
}

// Par explores the items 0..n-1 of one harness on all cores.
func (e *Eng) Par(name, space string, n int, body func(w *Worker, i int)) {
	if e.stop.Load() {
		return
	}
	t0 := time.Now()
	e.mu.Lock()
	e.hname = name
	e.harnNo++
	e.mu.Unlock()
	var next atomic.Int64
	ws := make([]*Worker, e.nw)
	var wg sync.WaitGroup
	cut := atomic.Bool{}
	for k := range ws {
		w := &Worker{e: e, id: k}
		ws[k] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				if e.stop.Load() {
					return
				}
				if time.Now().After(e.deadline) {
					cut.Store(true)
					return
				}
				i := next.Add(1) - 1
				if i >= int64(n) {
					return
				}
				w.item(int(i), body)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	e.watch(ws, done)
	st := HarnessStat{Name: name, Space: space, Complete: !cut.Load() && !e.stop.Load(), Wall: time.Since(t0).Seconds()}
	hs := map[uint64]struct{}{}
	ho := map[uint64]struct{}{}
	for _, w := range ws {
		st.Evals += w.evals
		st.Nontrivial += w.nontriv
		st.Trans += w.trans
		st.Traces += w.traces
		for s := range w.states {
			hs[s] = struct{}{}
		}
		for s := range w.outs {
			ho[s] = struct{}{}
		}
	}
	st.States = len(hs)
	st.Outcomes = len(ho)
	if cut.Load() {
		e.capped.Store(true)
	}
	e.mu.Lock()
	for s := range hs {
		e.states[s^uint64(e.harnNo)*0x9E3779B97F4A7C15] = struct{}{}
	}
	e.stats = append(e.stats, st)
	e.mu.Unlock()
}

// Seq explores on one goroutine.
func (e *Eng) Seq(name, space string, body func(w *Worker)) {
	nw := e.nw
	e.nw = 1
	e.Par(name, space, 1, func(w *Worker, _ int) { body(w) })
	e.nw = nw
}

const hangLimit = 120 * time.Second

// watch waits for the workers; a worker that makes no progress at all for
// hangLimit (a single case takes microseconds) is reported as a hang.
func (e *Eng) watch(ws []*Worker, done chan struct{}) {
	type seen struct {
		t  int64
		at time.Time
	}
	last := make([]seen, len(ws))
	for i := range last {
		last[i] = seen{-1, time.Now()}
	}
	tk := time.NewTicker(500 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-done:
			return
		case now := <-tk.C:
			for i, w := range ws {
				t := w.ticks.Load()
				if t != last[i].t || !w.busy.Load() {
					last[i] = seen{t, now}
					continue
				}
				if now.Sub(last[i].at) > hangLimit {
					d := "?"
					if p := w.desc.Load(); p != nil {
						d = (*p)()
					}
					e.add(Violation{Harness: e.hname, Case: d, Expected: "the call returns",
						Got: fmt.Sprintf("no progress for %v", hangLimit), Repro: "hang, not repeated"})
					e.finish() // does not return
				}
			}
		}
	}
}

func (w *Worker) item(i int, body func(w *Worker, i int)) {
	w.busy.Store(true)
	defer w.busy.Store(false)
	defer func() {
		if r := recover(); r != nil {
			if r == errStop {
				return
			}
			d := "?"
			if p := w.desc.Load(); p != nil {
				d = (*p)()
			}
			w.e.add(Violation{Harness: w.e.hname, Case: d, Expected: "no panic",
				Got: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))), order: int64(i)})
		}
	}()
	w.ticks.Add(1)
	body(w, i)
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

var errStop = fmt.Errorf("stop")

// Desc sets how to describe the case at hand, for panics and hangs.
func (w *Worker) Desc(f func() string) { w.desc.Store(&f) }

// Tick counts one evaluated case.
func (w *Worker) Tick(nontrivial bool) {
	w.evals++
	if nontrivial && !w.repeat {
		w.nontriv++
	}
	if w.evals&1023 == 0 {
		w.ticks.Add(1)
		if w.e.stop.Load() {
			panic(errStop)
		}
	}
}

// Poll is for loops that do not count cases.
func (w *Worker) Poll() {
	w.ticks.Add(1)
	if w.e.stop.Load() {
		panic(errStop)
	}
}

func (w *Worker) State(h uint64) {
	if w.states == nil {
		w.states = map[uint64]struct{}{}
	}
	w.states[h] = struct{}{}
}

func (w *Worker) Outcome(h uint64) {
	if w.outs == nil {
		w.outs = map[uint64]struct{}{}
	}
	w.outs[h] = struct{}{}
}

// Fail records a violation and ends the exploration. again re-runs the case
// and says whether it still fails; body is Go source of a test replaying it.
func (w *Worker) Fail(order int64, cas, want, got string, again func() bool, body string) {
	rep := "not repeated"
	if again != nil {
		k := 0
		for i := 0; i < 5; i++ {
			func() {
				defer func() {
					if recover() != nil {
						k++
					}
				}()
				if again() {
					k++
				}
			}()
		}
		rep = fmt.Sprintf("%d/5", k)
	}
	if w.before != nil {
		what, src := w.before()
		cas += what
		body = strings.Replace(body, "TestReplay(t *testing.T) {\n", "TestReplay(t *testing.T) {\n"+src, 1)
	}
	w.e.add(Violation{Harness: w.e.hname, Case: cas, Expected: want, Got: got, Repro: rep, goTest: body, artefact: w.artefact, order: order})
	panic(errStop)
}

// addStates counts states found by a child process, where they were told apart.
func (e *Eng) addStates(n int64) { e.childStates += n }

func (e *Eng) add(v Violation) {
	v.Property = e.prop
	e.mu.Lock()
	e.viol = append(e.viol, v)
	e.mu.Unlock()
	e.stop.Store(true)
}

// finish writes the evidence, prints the verdict and exits.
func (e *Eng) finish() {
	e.mu.Lock()
	defer e.mu.Unlock()
	var ev, nt, tr, traces int64
	complete := !e.capped.Load()
	for _, s := range e.stats {
		ev += s.Evals
		nt += s.Nontrivial
		tr += s.Trans
		traces += s.Traces
		complete = complete && s.Complete
	}
	cov := map[string]interface{}{
		"samples":    e.samples,
		"harnesses":  e.stats,
		"exhaustive": complete && len(e.viol) == 0,
		"workers":    e.nw,
	}
	if e.level == "model_checking" {
		cov["states"] = int64(len(e.states)) + e.childStates
		cov["transitions"] = tr
		cov["traces_validated_against_impl"] = traces
	} else {
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = nt
		cov["rule"] = e.rule
	}
	for k, v := range e.extra {
		cov[k] = v
	}
	out := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": e.level,
		"coverage": cov, "assumptions": append([]string{}, e.assume...),
		"wall_s": time.Since(e.start).Seconds(), "violations": len(e.viol),
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err == nil {
		err = os.MkdirAll(e.evDir, 0o755)
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(e.evDir, e.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	for _, s := range e.stats {
		fmt.Printf("%-4s %-28s evals=%d nontrivial=%d states=%d transitions=%d traces=%d outcomes=%d complete=%v %.1fs\n", e.prop, s.Name,
			s.Evals, s.Nontrivial, s.States, s.Trans, s.Traces, s.Outcomes, s.Complete, s.Wall)
	}
	if len(e.viol) == 0 {
		fmt.Printf("OK property=%s exhaustive=%v wall=%.1fs\n", e.prop, complete, time.Since(e.start).Seconds())
		os.Exit(0)
	}
	sort.SliceStable(e.viol, func(i, j int) bool { return e.viol[i].order < e.viol[j].order })
	v := e.viol[0]
	dir := filepath.Join(e.evDir, "replay")
	for _, k := range []string{".json", "_replay_test.go", "_plan.json", "_hist.json", "_open.json", "_schedule.json", "_input.json"} {
		os.Remove(filepath.Join(dir, e.prop+k))
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, e.prop+".json")
	vb, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(vb, '\n'), 0o644)
	if v.goTest != "" {
		tp := filepath.Join(dir, e.prop+"_replay_test.go")
		os.WriteFile(tp, []byte(v.goTest), 0o644)
		path = tp
	}
	if v.artefact != nil {
		b, _ := json.MarshalIndent(v.artefact.data, "", " ")
		path = filepath.Join(dir, v.artefact.name)
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
	fmt.Printf("harness:  %s\ncase:     %s\nexpected: %s\ngot:      %s\nreproduced: %s\n", v.Harness, v.Case, v.Expected, v.Got, v.Repro)
	fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, path)
	os.Exit(1)
}

func newEng(prop string) *Eng {
	e := &Eng{prop: prop, tier: "quick", seed: 1, level: "exploration", start: time.Now(),
		states: map[uint64]struct{}{}, extra: map[string]interface{}{}, nw: runtime.GOMAXPROCS(0)}
	if os.Getenv("VERIF_TIER") == "thorough" {
		e.tier = "thorough"
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &e.seed)
	limit := 600 * time.Second
	if e.thorough() {
		limit = 6 * time.Hour
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		limit = time.Duration(n) * time.Second
	}
	e.deadline = e.start.Add(limit)
	e.evDir = evidenceDir()
	return e
}

// bigSizes are sizes around the powers of two, where buffers and blocks end.
func bigSizes(top int) (l []int) {
	for k := uint(10); k <= uint(top); k++ {
		for _, d := range []int{-3, -2, -1, 0, 1, 2, 3, 1 << k / 2, 1 << k / 4} {
			l = append(l, 1<<k+d)
		}
	}
	return
}
