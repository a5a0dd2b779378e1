//go:build inst

package main

// The part of X02 and X04 that runs against the instrumented copy.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/zzsched"
)

// explorer explores the schedules of one scenario.
type explorer struct {
	sc     scenario
	bound  int
	res    *concResult
	ctx    []*Ctx
	all    bool // restore big variables, too
	states map[uint64]struct{}
	execs  int64
	steps  int64
	limit  int64
	capped bool
	badRun string
	badCh  []int
	badPts []zzsched.Point
	sample string // a schedule that was run
}

var lastReport = time.Now()

// run makes one execution and says what was wrong with it.
func (x *explorer) run(prefix []int) (r zzsched.Result, bad string) {
	x.steps += int64(zzsched.Restore(x.all)) / 4
	theEnc = cp949.NewCP949Encoding()
	n := len(x.sc.Threads)
	bads := make([]string, n)
	bodies := make([]func(), n)
	for i := range bodies {
		i := i
		bodies[i] = func() {
			defer func() {
				if p := recover(); p != nil {
					bads[i] = fmt.Sprintf("thread %d: panic: %v", i, p)
				}
			}()
			c := x.ctx[i]
			c.kept, c.args = c.kept[:0], c.args[:0]
			for k, op := range x.sc.Threads[i] {
				zzsched.NewOp()
				if m := menu[op].run(c); m != "" {
					bads[i] = fmt.Sprintf("thread %d, call #%d: %s", i, k+1, m)
					return
				}
				if m := c.recheck(); m != "" {
					bads[i] = fmt.Sprintf("thread %d, after call #%d: %s", i, k+1, m)
					return
				}
			}
		}
	}
	r = zzsched.Run(prefix, bodies)
	x.execs++
	x.steps += r.Steps
	if r.Diverge {
		return r, ""
	}
	if r.Bad != "" {
		return r, r.Bad
	}
	for _, b := range bads {
		if b != "" {
			return r, b
		}
	}
	// every thread has finished: nobody's result may have changed since
	for i, c := range x.ctx {
		if m := c.recheck(); m != "" {
			return r, fmt.Sprintf("at the end, thread %d: %s", i, m)
		}
	}
	// and what one owns is nobody else's
	for i, c := range x.ctx {
		if len(c.kept) == 0 {
			continue
		}
		c.spoil()
		for j := i + 1; j < n; j++ {
			if m := x.ctx[j].recheck(); m != "" {
				return r, fmt.Sprintf("thread %d writes into its results, thread %d: %s", i, j, m)
			}
		}
	}
	return r, ""
}

func (x *explorer) explore(prefix []int) bool {
	if x.limit > 0 && x.steps >= x.limit {
		x.capped = true
		return true
	}
	if x.execs&15 == 0 && time.Since(lastReport) > 2*time.Second {
		lastReport = time.Now()
		outConc(concResult{}) // still alive
	}
	r, bad := x.run(prefix)
	if r.Diverge {
		x.res.Diverged++
		return true
	}
	ch := make([]int, len(r.Points))
	var pos [8]int32
	h := uint64(14695981039346656037)
	for i, p := range r.Points {
		ch[i] = p.Choice
		if p.Running >= 0 {
			pos[p.Running] = p.ID
			h = (h ^ uint64(uint32(p.ID))<<3 ^ uint64(p.Running)) * 1099511628211
		}
		if i >= len(prefix) {
			s := uint64(x.sc.ID)
			for _, q := range pos[:len(x.sc.Threads)] {
				s = (s ^ uint64(uint32(q))) * 1099511628211
			}
			x.states[s] = struct{}{}
			x.res.Trans++
		}
	}
	if bad != "" {
		x.badRun, x.badCh, x.badPts = bad, ch, r.Points
		return false
	}
	if x.sample == "" && x.execs > 20 {
		x.sample = x.sc.String() + ": " + strings.Join(readable(r.Points), "; ")
	}
	for i := len(prefix); i < len(r.Points); i++ {
		p := r.Points[i]
		cost := p.Preempts
		if p.CanGoOn {
			cost++
		}
		if cost > x.bound || x.sc.First && p.Running > 0 {
			continue
		}
		for alt := 1; alt < len(p.Enabled); alt++ {
			if !x.explore(append(append(make([]int, 0, i+1), ch[:i]...), alt)) {
				return false
			}
		}
	}
	return true
}

// readable says where the schedule changes threads.
func readable(pts []zzsched.Point) (l []string) {
	last := -1
	for _, p := range pts {
		next := p.Enabled[p.Choice]
		if next == last && p.Running == next {
			continue
		}
		where := "at the start"
		switch {
		case p.ID >= 0 && int(p.ID) < len(zzsched.Pos):
			where = "before " + zzsched.Pos[p.ID]
		case p.ID == -1:
			where = "waiting"
		case p.ID == -2:
			where = "between calls"
		case p.ID == -3:
			where = "having finished"
		}
		if p.Running < 0 {
			l = append(l, fmt.Sprintf("thread %d starts", next))
		} else if next != p.Running {
			l = append(l, fmt.Sprintf("thread %d stops %s, thread %d goes on", p.Running, where, next))
		}
		last = next
	}
	return
}

func newExplorer(sc scenario, all bool) *explorer {
	x := &explorer{sc: sc, states: map[uint64]struct{}{}, res: &concResult{}, all: all}
	for range sc.Threads {
		x.ctx = append(x.ctx, &Ctx{})
	}
	return x
}

func init() {
	// -conc FILE explores the scenarios in FILE one after the other.
	modes["-conc"] = func(a []string) {
		runtime.GOMAXPROCS(1)
		var job concJob
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &job)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		zzsched.Snapshot()
		zzsched.Visits = job.Visits
		all := false
		for pass := 0; pass < 2; pass++ {
			res := concResult{Vars: zzsched.Vars()}
			for _, sc := range job.Scenarios {
				// bounds one after the other: the first schedule found has the
				// fewest preemptions
				for bound := 0; bound <= sc.Bound; bound++ {
					x := newExplorer(sc, all)
					x.bound, x.limit = bound, job.Limit
					ok := x.explore(nil)
					res.Diverged += x.res.Diverged
					if !ok {
						res.Bad = x.badRun
						res.Scenario = &sc
						res.Choices = x.badCh
						res.Schedule = readable(x.badPts)
						for i := 0; i < 5; i++ {
							if _, b := x.run(x.badCh); b == x.badRun {
								res.Again++
							}
						}
						outConc(res)
						return
					}
					if bound == sc.Bound {
						res.Execs += x.execs
						res.Steps += x.steps
						res.Trans += x.res.Trans
						res.States += int64(len(x.states))
						if x.capped {
							res.Capped++
						}
						res.Scenarios++
						if res.Sample == "" {
							res.Sample = x.sample
						}
					}
				}
				if res.Scenarios%64 == 0 {
					outConc(concResult{})
				}
			}
			if !all && zzsched.BigChanged() != "" {
				// a table is written: start over, and put it back every time
				all = true
				continue
			}
			res.Done = true
			outConc(res)
			return
		}
		zzsched.Restore(true)
	}
	// -concreplay SCENARIO CHOICES runs one schedule.
	modes["-concreplay"] = func(a []string) {
		runtime.GOMAXPROCS(1)
		var sc scenario
		var ch []int
		if json.Unmarshal([]byte(a[0]), &sc) != nil || json.Unmarshal([]byte(a[1]), &ch) != nil {
			fmt.Println("bad arguments")
			os.Exit(2)
		}
		zzsched.Snapshot()
		x := newExplorer(sc, true)
		r, bad := x.run(ch)
		fmt.Println(strings.Join(readable(r.Points), "\n"))
		if bad == "" {
			fmt.Println("held")
			return
		}
		fmt.Println("broken:", bad)
		os.Exit(1)
	}
}

func outConc(r concResult) {
	b, _ := json.Marshal(r)
	os.Stdout.Write(append(b, '\n'))
}

func init() {
	// -growth ENTRY FROM TO measures how the work grows with the input, for
	// the patterns FROM to TO.
	modes["-growth"] = func(a []string) {
		runtime.GOMAXPROCS(1)
		k := atoi(a[0])
		ps := growthPatterns()
		var g growth
		measure := func(in []byte) (steps, alloc int64) {
			defer func() {
				zzsched.Counting = false
				if r := recover(); r != nil {
					g.Bad = fmt.Sprintf("%d bytes: panic: %v", len(in), r)
				}
			}()
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			zzsched.Steps, zzsched.Limit, zzsched.Counting = 0, 100000000, true
			if _, bad := entries[k].f(in); bad != "" {
				g.Bad = bad
			}
			zzsched.Counting = false
			runtime.ReadMemStats(&m1)
			return zzsched.Steps, int64(m1.TotalAlloc - m0.TotalAlloc)
		}
		put := func() {
			b, _ := json.Marshal(g)
			os.Stdout.Write(append(b, '\n'))
		}
		for p := atoi(a[1]); p < atoi(a[2]); p++ {
			g = growth{Entry: entries[k].name, Pattern: p, Unit: ps[p].name, Sizes: [3]int{1 << 12, 1 << 14, 1 << 16}, Count: g.Count}
			measure(ps[p].f(g.Sizes[0])) // once for what is built on first use
			for i := range g.Sizes {
				if g.Bad == "" {
					g.Steps[i], g.Alloc[i] = measure(ps[p].f(g.Sizes[i]))
					g.Count++
				}
			}
			if g.bad() == "" && p < len(growthUnits) {
				// nothing special at any smaller size
				for n := 0; n <= 1<<13 && g.Bad == ""; n++ {
					if n > 300 && (n+2)&(n-3) > 5 && n%97 != 0 {
						continue
					}
					s, a := measure(ps[p].f(n))
					g.Count++
					if s > 8*(g.Steps[2]*int64(n)>>16)+20000 || a > 8*(g.Alloc[2]*int64(n)>>16)+1<<20 {
						g.Bad = fmt.Sprintf("%d steps and %d bytes allocated for %d bytes", s, a, n)
					}
				}
			}
			if g.bad() != "" {
				put()
				return
			}
			if p&15 == 0 {
				put()
			}
		}
		g.Done = true
		put()
	}
}
