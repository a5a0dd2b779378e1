package main

// Time as part of a history: what was kept for a while may be gone, stale or
// half replaced later. The history is played inside a bubble of
// testing/synctest, where the clock stands still until everybody sleeps, and
// then jumps: hours cost nothing.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

const day = 24 * time.Hour

// clockStarts are counted from the year 2000, where the clock of a bubble
// stands at first; the last are at the ends of 31 bits, 32 bits of seconds
// and 33.
var clockStarts = func() (l []time.Duration) {
	l = append(l, 0)
	y26 := 26*365*day + 7*day // 2026-01-01
	for m := 0; m < 12; m++ {
		// another hour and day of the week in each month, and a leap day
		l = append(l, y26+time.Duration(m)*(30*day+10*time.Hour+1801*time.Second))
	}
	for h := 0; h < 24; h++ {
		l = append(l, y26+time.Duration(h)*(25*time.Hour)+59*time.Minute+59*time.Second)
	}
	return append(l, 24*365*day+6*day+59*day, 38*365*day+27*day, 106*365*day+63*day, 157*365*day+113*day)
}()

var clockSteps = []time.Duration{0, 1, time.Millisecond, time.Second, 59 * time.Second, 5*time.Minute + 1, time.Hour, 25 * time.Hour, 31 * day, 92 * day}

func init() {
	// -histclock START STEP: every op of the menu twice in turn, upwards and
	// downwards, and some time between
	modes["-histclock"] = func(a []string) {
		start, _ := strconv.ParseInt(a[0], 10, 64)
		step, _ := strconv.ParseInt(a[1], 10, 64)
		run := func() (bad string) {
			defer func() {
				if r := recover(); r != nil {
					bad = fmt.Sprintf("panic: %v", r)
				}
			}()
			time.Sleep(time.Duration(start))
			c := &Ctx{}
			one := func(k int) bool {
				for n := 0; n < 2; n++ {
					at := time.Now()
					if m := menu[k].run(c); m != "" {
						bad = fmt.Sprintf("%s (the clock showing %s, %v between the calls)", m, at.UTC().Format(time.RFC3339Nano), time.Duration(step))
						return false
					}
					time.Sleep(time.Duration(step))
				}
				return true
			}
			for k := range menu {
				if !one(k) {
					return
				}
			}
			for k := len(menu) - 1; k >= 0; k-- {
				if !one(k) {
					return
				}
			}
			return c.recheck()
		}
		os.Args = os.Args[:1]
		testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "clock", F: func(t *testing.T) {
			synctest.Test(t, func(t *testing.T) {
				bad := run()
				if strings.Contains(bad, "bubble") || strings.Contains(bad, "synctest") {
					bad = "" // something that lives outside of it
				}
				out(histResult{Evals: 1, Bad: bad, Done: true})
				os.Exit(0)
			})
		}}}, nil, nil)
		os.Exit(2)
	}
}

// clockChild plays one history. A program with goroutines or channels that
// live outside of the bubble cannot be played in one, which is nobody's fault.
func clockChild(w *Worker, args []string) string {
	_, bad := child(w, args...)
	if strings.Contains(bad, "synctest") || strings.Contains(bad, "bubble") {
		return ""
	}
	return bad
}

// clock plays the menu at many times, at many speeds.
func clock(e *Eng) {
	n := len(clockStarts) * len(clockSteps)
	e.Par("clock", fmt.Sprintf("every op of the menu twice in turn, upwards and downwards, starting at %d times of day, week, month and year from 2000 to 2157, with each of %v between calls", len(clockStarts), clockSteps), n, func(w *Worker, i int) {
		start, step := clockStarts[i%len(clockStarts)], clockSteps[i/len(clockStarts)]
		args := []string{"-histclock", fmt.Sprint(int64(start)), fmt.Sprint(int64(step))}
		w.Desc(func() string { return fmt.Sprintf("the menu at %v after 2000, every %v", start, step) })
		bad := clockChild(w, args)
		w.Tick(true)
		w.trans += int64(4 * len(menu))
		if bad != "" {
			w.artefact = histArt(nil, args, bad)
			w.Fail(int64(i), fmt.Sprintf("every op of the menu twice, upwards and downwards, from %v after 2000 on, and %v between the calls", start, step), "every call gives its result", bad,
				func() bool { return clockChild(nil, args) != "" }, "")
		}
	})
}
