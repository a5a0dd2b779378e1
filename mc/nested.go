package main

// X03: a source or sink is the caller's own code, and may itself use the
// package while a stream waits for it, or panic. What is used inside, and what
// is used afterwards, must not notice.

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
)

// inCall, when set, is called by the sources and sinks of the streams below:
// before they look at the slice they are given, and after they filled it.
var inCall func(after bool)

func called(after bool) {
	if f := inCall; f != nil {
		f(after)
	}
}

type errCallback struct{}

func (errCallback) Error() string { return "the source or sink panicked" }

// inner is what is used inside: a stream, or one call again and again.
func innerKinds(ks []xkind) []xkind {
	l := append([]xkind(nil), ks...)
	for _, o := range menu {
		l = append(l, kindCalls(o))
	}
	return l
}

// outerKinds are the streams that call a source or sink.
func outerKinds(ks []xkind) (l []int) {
	for i, k := range ks {
		if strings.HasPrefix(k.name, "NewReader") || strings.HasPrefix(k.name, "NewWriter") || strings.HasPrefix(k.name, "Decoder.Reader") || strings.HasPrefix(k.name, "Encoder.Writer") {
			l = append(l, i)
		}
	}
	return
}

// nest uses a with b inside: at the k-th call of the source or sink of a, b
// makes plan[k] steps (the plan repeats), before or after the slice is used.
func nest(a, b xkind, plan []int, after bool, deep *xkind) (bad string) {
	where := "outer stream"
	defer func() {
		inCall = nil
		if r := recover(); r != nil {
			bad = fmt.Sprintf("%s: panic: %v", where, r)
		}
	}()
	x, y := a.make(), b.make()
	var z xstream
	if deep != nil {
		z = deep.make()
	}
	at, n, zat := 0, 0, 0
	var hook func(bool)
	hook = func(now bool) {
		if now != after {
			return
		}
		inCall = nil
		if z != nil { // inside the inner one a third one is used
			inCall = func(bool) {
				inCall = nil
				where = "innermost"
				if m := z.step(zat); m != "" && bad == "" {
					bad = "used inside the inner one: " + m
				}
				zat++
				where = "inner"
			}
		}
		where = "inner"
		for i := 0; i < plan[n%len(plan)]; i++ {
			if m := y.step(at); m != "" && bad == "" {
				bad = "used inside: " + m
			}
			at++
		}
		where = "outer stream"
		n++
		inCall = hook
	}
	inCall = hook
	for k := 0; k < 4; k++ {
		if m := x.step(k); m != "" {
			return "the stream itself: " + m
		}
		if bad != "" {
			return bad
		}
	}
	if m := x.finish(); m != "" {
		return "the stream itself: " + m
	}
	inCall = nil
	if bad != "" {
		return bad
	}
	if at > 0 {
		if m := y.finish(); m != "" {
			return "used up afterwards: " + m
		}
	}
	if zat > 0 {
		if m := z.finish(); m != "" {
			return "used up afterwards, the innermost: " + m
		}
	}
	return ""
}

// upset uses a until its source or sink panics at its k-th call, and then b.
func upset(a, b xkind, k int, after bool) (bad string, hit bool) {
	x := a.make()
	y := b.make()
	if m := y.step(0); m != "" {
		return "before the panic: " + m, false
	}
	func() {
		defer func() {
			inCall = nil
			switch r := recover().(type) {
			case nil:
			case errCallback:
				hit = true
			default:
				bad = fmt.Sprintf("panic: %v", r)
			}
		}()
		n := 0
		inCall = func(now bool) {
			if now == after {
				if n++; n > k {
					panic(errCallback{})
				}
			}
		}
		for i := 0; i < 6; i++ {
			if m := x.step(i); m != "" {
				bad = "before the panic: " + m
				return
			}
		}
	}()
	if bad != "" {
		return
	}
	for i := 1; i < 4; i++ {
		if m := y.step(i); m != "" {
			return "after the panic: " + m, hit
		}
	}
	if m := y.finish(); m != "" {
		return "after the panic, used up: " + m, hit
	}
	return "", hit
}

func init() {
	// -nested WHAT OUTER
	modes["-nested"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		ks := xkinds()
		in := innerKinds(ks)
		outers := outerKinds(ks)
		o := outers[atoi(a[1])]
		var res histResult
		try := func(what func() string, f func() (string, int64)) bool {
			bad, n := f()
			res.Evals++
			res.Calls += n
			if bad != "" {
				res.Bad = what() + ": " + bad
				out(res)
				return false
			}
			if res.Evals&1023 == 0 {
				out(histResult{})
			}
			return true
		}
		switch a[0] {
		case "in":
			for _, b := range in {
				for v := 0; v < 81; v++ {
					plan := []int{v % 3, v / 3 % 3, v / 9 % 3, v / 27}
					for _, after := range []bool{false, true} {
						if !try(func() string {
							return fmt.Sprintf("%s; in it at each call of its source or sink %v steps (opening included; after the data: %v) of %s", ks[o].name, plan, after, b.name)
						}, func() (string, int64) { return nest(ks[o], b, plan, after, nil), 8 }) {
							return
						}
					}
				}
			}
		case "deep":
			for _, m := range outers {
				for _, b := range in {
					for _, p := range [][]int{{2}, {1}, {0, 3}} {
						for _, after := range []bool{false, true} {
							bb := b
							if !try(func() string {
								return fmt.Sprintf("%s; in it %v steps (after the data: %v) of %s; in that one step of %s", ks[o].name, p, after, ks[m].name, b.name)
							}, func() (string, int64) { return nest(ks[o], ks[m], p, after, &bb), 12 }) {
								return
							}
						}
					}
				}
			}
		case "panic":
			for _, b := range in {
				for k := 0; k < 5; k++ {
					for _, after := range []bool{false, true} {
						if !try(func() string {
							return fmt.Sprintf("%s, whose source or sink panics at call %d (after the data: %v); around it %s", ks[o].name, k+1, after, b.name)
						}, func() (string, int64) { bad, _ := upset(ks[o], b, k, after); return bad, 8 }) {
							return
						}
					}
				}
			}
		}
		res.Done = true
		out(res)
	}
}

func nestedHarnesses(e *Eng) {
	ks := xkinds()
	outers := outerKinds(ks)
	in := len(ks) + len(menu)
	run := func(what string) func(w *Worker, i int) {
		return func(w *Worker, i int) {
			args := []string{"-nested", what, strconv.Itoa(i)}
			w.Desc(func() string { return ks[outers[i]].name + " and what is used in it" })
			res, bad := child(w, args...)
			w.evals += res.Evals
			w.nontriv += res.Evals
			w.traces += res.Evals
			w.trans += res.Calls
			if bad != "" {
				if strings.HasPrefix(bad, "crash") {
					bad = ks[outers[i]].name + ": " + bad
				}
				a := histArt(nil, args, bad)
				h := a.data.(artHist)
				h.Property = "X03"
				w.artefact = &artefact{"X03_nested_hist.json", h}
				w.Fail(int64(i), "mc "+strings.Join(args, " "), "each stream delivers what it delivers alone", bad, func() bool { _, b := child(nil, args...); return b != "" }, "")
			}
		}
	}
	e.Par("used inside a source or sink", fmt.Sprintf("each of %d streams, whose source or sink at each of its calls makes 0 to 2 steps (81 plans of four, repeated; before or after it touches the slice) of each of %d other streams and calls", len(outers), in), len(outers), run("in"))
	e.Par("three deep", fmt.Sprintf("the same with a third of the %d inside the second, which is each of the %d streams; three plans", in, len(outers)), len(outers), run("deep"))
	e.Par("panicking sources and sinks", fmt.Sprintf("each of %d streams, whose source or sink panics at its first to fifth call (before or after the data) and is given up, around each of %d other streams and calls, opened before and used after", len(outers), in), len(outers), run("panic"))
}
