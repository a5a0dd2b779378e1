package main

// X02: concurrent use. The schedules are explored on an instrumented copy of
// the working tree (see instrument.go); data races are looked for separately
// on the code as it is, run free under the race detector.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// scenario is a few threads with the ops they call in turn.
type scenario struct {
	ID      int     `json:"id"`
	Threads [][]int `json:"threads"`
	Bound   int     `json:"bound"`
	First   bool    `json:"first,omitempty"` // only the first thread is stopped
}

func (s scenario) String() string {
	var l []string
	for i, t := range s.Threads {
		var o []string
		for i := 0; i < len(t); {
			n := i
			for n < len(t) && t[n] == t[i] {
				n++
			}
			if n-i > 3 {
				o = append(o, fmt.Sprintf("%d times %s", n-i, menu[t[i]].name))
			} else {
				for k := i; k < n; k++ {
					o = append(o, menu[t[i]].name)
				}
			}
			i = n
		}
		l = append(l, fmt.Sprintf("thread %d: %s", i, strings.Join(o, "; ")))
	}
	return strings.Join(l, " | ")
}

type concJob struct {
	Scenarios []scenario `json:"scenarios"`
	Visits    int64      `json:"visits"`
	Limit     int64      `json:"limit"`
}

type concResult struct {
	Scenarios int       `json:"scenarios"`
	Execs     int64     `json:"execs"`
	Steps     int64     `json:"steps"`
	Trans     int64     `json:"trans"`
	States    int64     `json:"states"`
	Capped    int       `json:"capped"`
	Diverged  int       `json:"diverged"`
	Vars      []string  `json:"vars,omitempty"`
	Bad       string    `json:"bad,omitempty"`
	Scenario  *scenario `json:"scenario,omitempty"`
	Choices   []int     `json:"choices,omitempty"`
	Schedule  []string  `json:"schedule,omitempty"`
	Again     int       `json:"again"`
	Sample    string    `json:"sample,omitempty"`
	Done      bool      `json:"done"`
}

// pairScenarios: every two ops, once each.
func pairScenarios(ops []int, bound int) (l []scenario) {
	for i, a := range ops {
		for _, b := range ops[i:] {
			l = append(l, scenario{Threads: [][]int{{a}, {b}}, Bound: bound})
		}
	}
	return
}

func allOps() (l []int) {
	for i := range menu {
		l = append(l, i)
	}
	return
}

// few is a small part of the menu: one op per function and per way it goes.
var few = []string{
	"hangul.Split(0xd55c)", "hangul.SplitCompat(0xb2ed)", "hangul.Join(0x314e, 0x314f, 0x3134)", "hangul.SplitMultiElement(0x3133)", "hangul.SplitMultiElement(0x3159)",
	"hangul.Stroke(0xbdc1)", "hangul.LastConsonant(\"한국말\")", "hangul.AppendPostposition(\"서울\", \"으로\", \"로\")",
	"hanja.Convert(\"大韓民國\")", "hanja.IsHanja(0x5927)",
	"cp949.From([]byte(\"\\xb0\\xa1\\xb3\\xaa\"))", "cp949.From([]byte(\"plain\"))", "cp949.To([]byte(\"가나\"))", "cp949.To([]byte(\"😀\"))",
	"readStream([]byte(\"\\xb0\\xa1\\xb3\\xaa\"), 1, 2, io.EOF)", "writeStream([]byte(\"가나\"), 1, 0)",
	"theEnc.NewDecoder().Bytes([]byte(\"\\xb0\\xa1\\xb3\\xaa\"))", "theEnc.NewEncoder().Bytes([]byte(\"가나\"))",
}

func fewOps() (l []int) {
	for _, n := range few {
		found := false
		for i, o := range menu {
			if o.name == n {
				l = append(l, i)
				found = true
				break
			}
		}
		if !found {
			panic("no such op: " + n)
		}
	}
	return
}

// twiceScenarios: two threads with two ops each.
func twiceScenarios(bound int) (l []scenario) {
	f := fewOps()
	for _, a := range f {
		for _, b := range f {
			for _, c := range f {
				l = append(l, scenario{Threads: [][]int{{a, b}, {c, a}}, Bound: bound})
			}
		}
	}
	return
}

// manyScenarios: one call stopped while another thread makes many.
func manyScenarios(bound int) (l []scenario) {
	f := fewOps()
	for _, a := range f {
		for _, b := range f {
			s := scenario{Threads: [][]int{{a}, nil}, Bound: bound}
			n := 20
			if a == b {
				n = 40
			}
			for i := 0; i < n; i++ {
				s.Threads[1] = append(s.Threads[1], b)
			}
			l = append(l, s)
		}
	}
	return
}

// veryManyScenarios: one call stopped at each place while another thread makes
// more calls than there may be slots, buffers or versions.
func veryManyScenarios(same, other int) (l []scenario) {
	f := fewOps()
	for _, a := range f {
		for _, b := range f {
			n := other
			if a == b {
				n = same
			}
			if n == 0 {
				continue
			}
			s := scenario{Threads: [][]int{{a}, nil}, Bound: 1, First: true}
			for i := 0; i < n; i++ {
				s.Threads[1] = append(s.Threads[1], b)
			}
			l = append(l, s)
		}
	}
	return
}

// threeScenarios: three threads with one op each.
func threeScenarios(bound int) (l []scenario) {
	f := fewOps()
	for i, a := range f {
		for j := i; j < len(f); j++ {
			for k := j; k < len(f); k++ {
				l = append(l, scenario{Threads: [][]int{{a}, {f[j]}, {f[k]}}, Bound: bound})
			}
		}
	}
	return
}

func X02(e *Eng) {
	e.level = "model_checking"
	e.assume = []string{
		"interleavings are of whole statements of the three packages, sequentially consistent; what one statement reads and writes is not interleaved, which the race detector covers",
		"a thread is not stopped more than the stated number of times at the same statement within one call",
		"x/text and the standard library are not interleaved",
	}
	in := buildInst()
	tmp := os.Getenv("VERIF_TMP")
	e.extra["instrumented_files"] = in.Files
	e.extra["scheduling_points"] = in.Points
	e.extra["package_variables_reset"] = in.Vars
	if in.Coarse != "" {
		e.extra["granularity"] = "whole calls, as " + in.Coarse
	} else {
		e.extra["granularity"] = "statements"
	}
	if !e.thorough() {
		// slow to explore is code that builds its tables anew every time
		e.deadline = e.start.Add(400 * time.Second)
	}
	visits := int64(e.pick(3, 6))
	small, large := int64(10000000), int64(60000000)
	if e.thorough() {
		small, large = 300000000, 3000000000
	}
	var mu sync.Mutex
	capped, diverged := 0, 0
	cappedIn := map[string]bool{}
	explore := func(name, space string, scs []scenario, per int, limit int64) {
		for i := range scs {
			scs[i].ID = i
		}
		n := (len(scs) + per - 1) / per
		e.Par(name, fmt.Sprintf("%s: %d scenarios, every schedule with at most %d preemptions, at most %d stops at one statement per call, up to %d steps per scenario", space, len(scs), scs[0].Bound, visits, limit), n, func(w *Worker, i int) {
			hi := (i + 1) * per
			if hi > len(scs) {
				hi = len(scs)
			}
			job := concJob{Scenarios: scs[i*per : hi], Visits: visits, Limit: limit}
			w.Desc(func() string { return fmt.Sprintf("schedules of %v and the following", job.Scenarios[0]) })
			r := concChild(w, in.Bin, filepath.Join(tmp, fmt.Sprintf("job-%d-%d", w.e.harnNo, i)), job)
			w.evals += r.Execs
			w.nontriv += r.Execs
			w.traces += r.Execs
			w.trans += r.Trans
			if r.Sample != "" && i%(n/2+1) == 0 {
				e.Sample(r.Sample)
			}
			mu.Lock()
			e.addStates(r.States)
			capped += r.Capped
			diverged += r.Diverged
			if len(r.Vars) > 0 {
				e.extra["variables"] = r.Vars
			}
			if r.Capped > 0 || r.Diverged > 0 {
				cappedIn[name] = true
				e.capped.Store(true)
			}
			mu.Unlock()
			if r.Bad != "" {
				concFail(w, r)
			}
		})
	}
	explore("any two calls", "two threads with one call each, every two ops of the menu", pairScenarios(allOps(), 1), e.pick(64, 8), small)
	// the code as it is, run free under the race detector
	raceBin := filepath.Join(tmp, "mcrace")
	if err := goBuild(os.Getenv("VERIF_MC"), tmp, "race.mod", repoDir(), raceBin, "-race"); err != nil {
		e.extra["race_detector"] = "not available: " + clip(err.Error())
	} else {
		e.Par("race detector", fmt.Sprintf("every two of %d ops, each on two goroutines of a process of its own; the code as it is", len(menu)), len(menu)*(len(menu)+1)/2, func(w *Worker, i int) {
			a, b := unpair(i)
			w.Desc(func() string { return "race: " + menu[a].name + " with " + menu[b].name })
			w.Tick(true)
			w.ticks.Add(1)
			if bad, log := raceChild(raceBin, a, b); bad != "" {
				dir := filepath.Join(evidenceDir(), "replay")
				os.MkdirAll(dir, 0o755)
				os.WriteFile(filepath.Join(dir, "X02_race.txt"), []byte(log), 0o644)
				w.Fail(int64(i), "at once: "+menu[a].name+" and "+menu[b].name, "no data race, and every call gives its result", bad,
					func() bool { b, _ := raceChild(raceBin, a, b); return b != "" }, raceTest(a, b))
			}
		})
	}
	explore("two calls, more preemptions", fmt.Sprintf("two threads with one call each, every two of %d ops", len(few)), pairScenarios(fewOps(), 2), e.pick(8, 1), large)
	explore("three calls", fmt.Sprintf("three threads with one call each, every three of %d ops", len(few)), threeScenarios(e.pick(1, 2)), e.pick(16, 8), small)
	explore("two calls twice", fmt.Sprintf("two threads, a; b against c; a, of %d ops", len(few)), twiceScenarios(e.pick(1, 2)), e.pick(32, 16), small)
	explore("one call against many", fmt.Sprintf("one thread with one call and one with 20 of another, every two of %d ops; and 40 of the same", len(few)), manyScenarios(1), e.pick(2, 1), large)
	same, other := e.pick(1030, 4200), e.pick(0, 1030)
	explore("one call against very many", fmt.Sprintf("one thread with one call, the only one to be stopped, and one with %d of the same (%d of another), of %d ops", same, other, len(few)), veryManyScenarios(same, other), 1, 100*large)
	most := allOps()
	if !e.thorough() {
		most = most[:len(most)-longOps]
	}
	explore("any two calls, more preemptions", fmt.Sprintf("two threads with one call each, every two of the first %d ops of the menu", len(most)), pairScenarios(most, e.pick(2, 3)), e.pick(4, 1), 4*large)
	if e.thorough() {
		explore("few, even more", fmt.Sprintf("two threads with one call each, every two of %d ops", len(few)), pairScenarios(fewOps(), 4), 1, large)
	}
	var where []string
	for k := range cappedIn {
		where = append(where, k)
	}
	e.extra["capped_in"] = where
	e.extra["scenarios_capped"] = capped
	e.extra["schedules_diverged"] = diverged
}

func unpair(i int) (a, b int) {
	n := len(menu)
	for a = 0; i >= n-a; a++ {
		i -= n - a
	}
	return a, a + i
}

func concChild(w *Worker, bin, file string, job concJob) (r concResult) {
	b, _ := json.Marshal(job)
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.Remove(file)
	c := exec.Command(bin, "-conc", file)
	var errb tail
	c.Stderr = &errb
	p, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		fmt.Println("cannot run a child:", err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(p)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		w.ticks.Add(1)
		if w.e.stop.Load() {
			c.Process.Kill()
		}
		r = concResult{}
		json.Unmarshal(sc.Bytes(), &r)
	}
	err = c.Wait()
	if w.e.stop.Load() {
		panic(errStop)
	}
	if err != nil || !r.Done && r.Bad == "" {
		what, ours := crashed(errb.b.String())
		if !ours {
			fmt.Println("child failed:", err, clip(errb.b.String()))
			os.Exit(2)
		}
		r.Bad = "crash: " + what
		r.Scenario = &job.Scenarios[0]
	}
	return r
}

func concFail(w *Worker, r concResult) {
	art := &artefact{"X02_schedule.json", map[string]interface{}{
		"property": "X02", "scenario": r.Scenario, "ops": r.Scenario.String(), "choices": r.Choices, "schedule": r.Schedule, "got": r.Bad,
		"replay": "./replay.sh evidence/replay/X02_schedule.json",
	}}
	w.e.add(Violation{Harness: w.e.hname, Case: r.Scenario.String() + "; schedule: " + strings.Join(r.Schedule, "; "),
		Expected: "every call gives the result it gives alone", Got: r.Bad, Repro: fmt.Sprintf("%d/5 replays of the schedule agree", r.Again), order: int64(len(r.Choices)), artefact: art})
	panic(errStop)
}

// raceChild runs two ops at once in a fresh process.
func raceChild(bin string, a, b int) (bad, log string) {
	c := exec.Command(bin, "-race", strconv.Itoa(a), strconv.Itoa(b))
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	out, err := c.CombinedOutput()
	s := string(out)
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		if strings.Contains(s, modPath) {
			return "data race: " + raceWhere(s), s
		}
		// what a goroutine owns belongs to it alone
		if strings.Contains(s, "main.(*Ctx)") {
			return "data race: two goroutines were given the same memory", s
		}
	case err != nil:
		if what, ours := crashed(s); ours {
			return "crash: " + what, s
		}
	case strings.Contains(s, "BAD "):
		return strings.TrimSpace(s), s
	default:
		return "", s
	}
	fmt.Println("race child failed:", a, b, err, clip(s))
	os.Exit(2)
	return
}

func raceWhere(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if strings.HasPrefix(x, modPath) {
			l = append(l, x)
		}
		if len(l) == 4 {
			break
		}
	}
	return strings.Join(l, ", ")
}

func raceTest(a, b int) string {
	return strings.Replace(opTestHead, "\t\"testing\"", "\t\"sync\"\n\t\"testing\"", 1) + fmt.Sprintf(`
// To be run with -race.
func TestReplay(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			%s
		}()
		go func() {
			defer wg.Done()
			%s
		}()
	}
	wg.Wait()
}
`, menu[a].src, menu[b].src)
}

func init() {
	// -replaysched FILE plays the schedule of an artefact
	modes["-replaysched"] = func(a []string) {
		var art struct {
			Scenario json.RawMessage `json:"scenario"`
			Choices  json.RawMessage `json:"choices"`
		}
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		in := buildInst()
		c := exec.Command(in.Bin, "-concreplay", string(art.Scenario), string(art.Choices))
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if c.Run() != nil {
			os.Exit(1)
		}
	}
	modes["-race"] = func(a []string) {
		x, y := atoi(a[0]), atoi(a[1])
		var wg, ready sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			op := menu[x]
			if g&1 == 1 {
				op = menu[y]
			}
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				c := &Ctx{}
				ready.Done()
				<-start
				for i := 0; i < 4; i++ {
					if m := op.run(c); m != "" {
						fmt.Println("BAD", m)
						return
					}
					if m := c.recheck(); m != "" {
						fmt.Println("BAD", m)
						return
					}
					if i&1 == 1 {
						c.spoil()
					}
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
	}
}
