package main

// What the garbage collector sets off - finalizers, cleanups, pools that are
// emptied, weak references - is part of the history of a program as calls are.

import (
	"runtime"
	"time"
)

// collect runs the garbage collector and what it sets off, twice, so that
// pools lose what they only keep for a while.
func collect() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		p := &struct{ a [2]*int }{}
		runtime.SetFinalizer(p, func(interface{}) { close(done) })
		p = nil
		runtime.GC()
		select {
		case <-done:
		case <-time.After(200 * time.Millisecond):
		}
	}
}

// In the order of steps of open streams, collectNow stands for a garbage
// collection, and lose(i) for the program losing sight of stream i.
const collectNow = -1

func lose(i int) int { return -2 - i }

// collectOrders are sets of three streams, of which one is lost after each
// number of steps and collected, and sets collected after every step.
func collectOrders(sub []int) (l []openCase) {
	for _, c := range openCases(3, 0, sub) {
		for gone := 0; gone < 3; gone++ {
			if gone > 0 && c.Kinds[gone] == c.Kinds[gone-1] {
				continue
			}
			x, y := (gone+1)%3, (gone+2)%3
			for steps := 2; steps <= 5; steps++ {
				var o []int
				if steps&1 == 0 { // the others are there before, or come after
					o = append(o, x, x)
				}
				for i := 0; i < steps; i++ {
					o = append(o, gone)
				}
				o = append(o, lose(gone), collectNow)
				for i := 0; i < 3; i++ {
					o = append(o, x, y)
				}
				if steps > 3 {
					o = append(o, collectNow)
				}
				o = append(o, y, x, x, y)
				c.Orders = append(c.Orders, o)
			}
		}
		var each []int
		for i := 0; i < 15; i++ {
			each = append(each, i%3, collectNow)
		}
		c.Orders = append(c.Orders, each)
		l = append(l, c)
	}
	return
}
