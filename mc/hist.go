package main

// X01: calls have no memory. Histories run in child processes, each with one
// goroutine, so that what the package keeps between calls is exactly what the
// history made it keep.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// A symbol is an op and whether the caller spoils everything it owns after.
func symOp(s int) (op, spoil int) { return s / 3, s % 3 }

const (
	keepAll = iota
	spoilAll
	spoilLast // only what this call took and gave
)

var spoilText = []string{"", " and spoil everything", " and spoil its slices"}

// oneBuffer, as the first symbol, stands for a caller that puts every argument
// into the same buffer.
const oneBuffer = -1

// garbage, as a symbol, stands for a garbage collection.
const garbage = -2

func symName(s int) string {
	switch s {
	case oneBuffer:
		return "with one buffer for all arguments"
	case garbage:
		return "a garbage collection"
	}
	op, spoil := symOp(s)
	return menu[op].name + spoilText[spoil]
}

// histResult is what a child reports.
type histResult struct {
	Evals int64  `json:"evals"`
	Calls int64  `json:"calls"`
	Seq   []int  `json:"seq,omitempty"`
	At    int64  `json:"at"`
	Bad   string `json:"bad,omitempty"`
	Done  bool   `json:"done"`
}

var theOne = make([]byte, 1<<12)

// play runs one history from a caller that owns nothing.
func play(c *Ctx, seq []int) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	c.kept, c.args, c.one = c.kept[:0], c.args[:0], nil
	for i, s := range seq {
		if s == oneBuffer {
			c.one = theOne
			continue
		}
		if s == garbage {
			collect()
			if m := c.recheck(); m != "" {
				return fmt.Sprintf("after the garbage collection #%d: %s", i+1, m)
			}
			continue
		}
		op, spoil := symOp(s)
		c.mark()
		if m := menu[op].run(c); m != "" {
			return fmt.Sprintf("call #%d: %s", i+1, m)
		}
		if m := c.recheck(); m != "" {
			return fmt.Sprintf("after call #%d: %s", i+1, m)
		}
		switch spoil {
		case spoilAll:
			c.spoil()
		case spoilLast:
			if m := c.spoilLast(); m != "" {
				return fmt.Sprintf("after the caller overwrote the slices of call #%d: %s", i+1, m)
			}
		}
	}
	if m := c.spoilFirst(); m != "" {
		return "after the calls, " + m
	}
	return ""
}

func init() {
	// -hist 1,2,3 plays one history
	modes["-hist"] = func(a []string) {
		var seq []int
		for _, s := range strings.Split(a[0], ",") {
			n, err := strconv.Atoi(s)
			if err != nil || n < garbage || n >= 3*len(menu) {
				fmt.Println("bad history")
				os.Exit(2)
			}
			seq = append(seq, n)
		}
		if len(a) > 1 {
			for _, s := range seq {
				fmt.Println(symName(s))
			}
		}
		b := play(&Ctx{}, seq)
		out(histResult{Evals: 1, Calls: int64(len(seq)), Seq: seq, Bad: b, Done: true})
	}
	// -replayhist FILE plays an artefact
	modes["-replayhist"] = func(a []string) {
		var art artHist
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, c := range art.Calls {
			fmt.Println(c)
		}
		args := art.Args
		if args == nil {
			args = []string{"-hist", seqString(art.Seq)}
		}
		if _, bad := child(nil, args...); bad != "" {
			fmt.Println("broken:", bad)
			os.Exit(1)
		}
		fmt.Println("held")
	}
	// -histall DEPTH LO HI LIMIT [one] plays every history whose first symbol is in
	// [LO,HI), one after the other in this process, the first LIMIT of them
	modes["-histall"] = func(a []string) {
		depth, lo, hi := atoi(a[0]), atoi(a[1]), atoi(a[2])
		limit := int64(atoi(a[3]))
		runtime.GOMAXPROCS(2)
		n := 3 * len(menu)
		whole := make([]int, depth)
		seq := whole
		if len(a) > 4 {
			whole = append([]int{oneBuffer}, seq...)
			seq = whole[1:]
		}
		c := &Ctx{}
		var res histResult
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == depth {
				if limit > 0 && res.Evals >= limit {
					return false
				}
				res.Evals++
				res.Calls += int64(depth)
				if b := play(c, whole); b != "" {
					res.Bad, res.Seq, res.At = b, append([]int(nil), whole...), res.Evals
					return false
				}
				if res.Evals&0xFFFFF == 0 {
					out(histResult{})
				}
				return true
			}
			l, h := 0, n
			if k == 0 {
				l, h = lo, hi
			}
			for s := l; s < h; s++ {
				seq[k] = s
				if !rec(k + 1) {
					return false
				}
			}
			return true
		}
		res.Done = rec(0) || limit > 0 && res.Bad == ""
		out(res)
	}
	// -histsome DEPTH LO HI SPOIL: every history over some ops only
	modes["-histsome"] = func(a []string) {
		depth, lo, hi := atoi(a[0]), atoi(a[1]), atoi(a[2])
		runtime.GOMAXPROCS(2)
		var syms []int
		for _, op := range fewOps() {
			for s := 0; s < atoi(a[3]); s++ {
				syms = append(syms, 3*op+s)
			}
		}
		seq := make([]int, depth)
		c := &Ctx{}
		var res histResult
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == depth {
				res.Evals++
				res.Calls += int64(depth)
				if b := play(c, seq); b != "" {
					res.Bad, res.Seq, res.At = b, append([]int(nil), seq...), res.Evals
					return false
				}
				if res.Evals&0xFFFFF == 0 {
					out(histResult{})
				}
				return true
			}
			l, h := 0, len(syms)
			if k == 0 {
				l, h = lo, hi
			}
			for _, s := range syms[l:h] {
				seq[k] = s
				if !rec(k + 1) {
					return false
				}
			}
			return true
		}
		res.Done = rec(0)
		out(res)
	}
	// -histlong A: op A, kept while every other op is called many times, and
	// A itself many times
	modes["-histlong"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		op, reps := atoi(a[0]), atoi(a[1])
		var res histResult
		c := &Ctx{}
		try := func(seq []int) bool {
			res.Evals++
			res.Calls += int64(len(seq))
			if b := play(c, seq); b != "" {
				res.Bad, res.Seq, res.At = b, append([]int(nil), seq...), res.Evals
			}
			if res.Evals&63 == 0 {
				out(histResult{})
			}
			return res.Bad == ""
		}
		few := map[int]bool{}
		for _, o := range fewOps() {
			few[o] = true
		}
		for b := range menu {
			n := 70
			if few[op] && few[b] {
				n = 1100
			}
			kept, spoilt, both := []int{3 * op}, []int{3 * op}, []int(nil)
			for k := 0; k < n; k++ {
				kept = append(kept, 3*b)
				spoilt = append(spoilt, 3*b+spoilLast)
			}
			for k := 0; k < 40; k++ {
				both = append(both, 3*op, 3*b)
			}
			if !try(append(kept, 3*op)) || !try(append(spoilt, 3*op)) || !try(both) {
				out(res)
				return
			}
		}
		// a counter that runs over
		for k := 0; k < reps; k++ {
			if c.kept, c.args = c.kept[:0], c.args[:0]; k&1023 == 0 {
				out(histResult{})
			}
			bad := func() (bad string) {
				defer func() {
					if r := recover(); r != nil {
						bad = fmt.Sprintf("panic: %v", r)
					}
				}()
				return menu[op].run(c)
			}()
			res.Calls++
			if bad != "" {
				res.Bad = fmt.Sprintf("%s, made for the time #%d: %s", menu[op].name, k+1, bad)
				out(res)
				return
			}
		}
		res.Evals++
		res.Done = true
		out(res)
	}
	// -histgc A: op A, others and garbage collections in turn
	modes["-histgc"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		x := 3 * atoi(a[0])
		var res histResult
		c := &Ctx{}
		for op := range menu {
			y := 3 * op
			for _, seq := range [][]int{
				{x, y, garbage, x, y},
				{x + spoilLast, garbage, y + spoilLast, x, y, x},
			} {
				res.Evals++
				res.Calls += int64(len(seq))
				if b := play(c, seq); b != "" {
					res.Bad, res.Seq, res.At = b, seq, res.Evals
					out(res)
					return
				}
				*c = Ctx{}
			}
			out(histResult{})
		}
		res.Done = true
		out(res)
	}
	// -histchain K N plays the chains of the K-th of N parts
	modes["-histchain"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		out(chains(atoi(a[0]), atoi(a[1]), len(a) > 2))
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func out(r histResult) {
	b, _ := json.Marshal(r)
	os.Stdout.Write(append(b, '\n'))
}

// jsonChild runs a mode of this program and reads its reports, one per line,
// the last of which stays in v.
func jsonChild(w *Worker, v interface{}, reset func(), args ...string) (crash string) {
	self := os.Args[0]
	if !filepath.IsAbs(self) {
		if x, err := os.Executable(); err == nil {
			self = x
		}
	}
	c := exec.Command(self)
	for len(args) > 0 && strings.HasPrefix(args[0], "env:") {
		// the surroundings of the child: variables, and DIR, the directory
		kv := strings.TrimPrefix(args[0], "env:")
		if strings.HasPrefix(kv, "DIR=") {
			c.Dir = kv[4:]
		} else if kv == "" {
			c.Env = []string{}
		} else {
			if c.Env == nil {
				c.Env = os.Environ()
			}
			c.Env = append(c.Env, kv)
		}
		args = args[1:]
	}
	c.Args = append(c.Args, args...)
	var errb tail
	c.Stderr = &errb
	p, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		fmt.Println("cannot run a child:", err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(p)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		if w != nil {
			w.ticks.Add(1)
			if w.e.stop.Load() {
				c.Process.Kill()
			}
		}
		reset()
		json.Unmarshal(sc.Bytes(), v)
	}
	err = c.Wait()
	if w != nil && w.e.stop.Load() {
		panic(errStop)
	}
	if err != nil {
		if len(args) > 0 && args[0] == "-histclock" && strings.Contains(errb.b.String(), "synctest") {
			return "synctest"
		}
		what, ours := crashed(errb.b.String())
		if ours {
			return "crash: " + what
		}
		if code := c.ProcessState.ExitCode(); code > 0 && code != 2 && !strings.Contains(errb.b.String(), "goroutine ") {
			return fmt.Sprintf("a call ended the process, with status %d", code)
		}
		fmt.Println("child failed:", args, err, clip(errb.b.String()))
		os.Exit(2)
	}
	return ""
}

// child runs a mode of this program and gives its last report.
func child(w *Worker, args ...string) (histResult, string) {
	var last histResult
	crash := jsonChild(w, &last, func() { last = histResult{} }, args...)
	if crash != "" {
		return last, crash
	}
	if !last.Done && last.Bad == "" {
		fmt.Println("child did not finish:", args)
		os.Exit(2)
	}
	return last, last.Bad
}

func seqString(seq []int) string {
	var b []string
	for _, s := range seq {
		b = append(b, strconv.Itoa(s))
	}
	return strings.Join(b, ",")
}

func describe(seq []int) string {
	var b []string
	for _, s := range seq {
		b = append(b, symName(s))
	}
	return strings.Join(b, "; ")
}

// histFail finds the shortest history it can that still fails in a fresh
// process, and reports it.
func histFail(w *Worker, seq []int, bad string, args []string) {
	fails := func(s []int) string {
		_, b := child(nil, "-hist", seqString(s))
		return b
	}
	if b := fails(seq); b != "" {
		// leave out what is not needed
		for i := 0; i < len(seq) && len(seq) > 1; {
			t := append(append([]int(nil), seq[:i]...), seq[i+1:]...)
			if m := fails(t); m != "" {
				seq, b = t, m
			} else {
				i++
			}
		}
		w.artefact = histArt(seq, nil, b)
		w.Fail(0, "history in a fresh process: "+describe(seq), "every call gives its result, and no result changes later", b,
			func() bool { return fails(seq) != "" }, "")
	}
	w.artefact = histArt(seq, args, bad)
	w.Fail(0, fmt.Sprintf("history %s, after all histories before it in 'mc %s' (alone it does not fail)", describe(seq), strings.Join(args, " ")),
		"every call gives its result, and no result changes later", bad,
		func() bool { _, b := child(nil, args...); return b != "" }, "")
}

// artHist is the artefact of X01: a history, or all that a process played.
type artHist struct {
	Property string   `json:"property"`
	Seq      []int    `json:"seq,omitempty"`
	Calls    []string `json:"calls,omitempty"`
	Args     []string `json:"args,omitempty"`
	Got      string   `json:"got"`
}

func histArt(seq []int, args []string, got string) *artefact {
	a := artHist{Property: "X01", Seq: seq, Args: args, Got: got}
	for _, s := range seq {
		a.Calls = append(a.Calls, symName(s))
	}
	return &artefact{"X01_hist.json", a}
}

const opTestHead = `package replay

import (
	"errors"
	"fmt"
	"io"
	"testing"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

var (
	_         = fmt.Sprint
	_         = io.EOF
	_         = hangul.Split
	_         = hanja.Convert
	theEnc    = cp949.NewCP949Encoding()
	errSource = errors.New("source failed")
)
`

// chains calls every function on related arguments in turn: x, x', x for
// every x of its domain and every x' that differs from x in one bit, and the
// whole domain upwards and downwards. A result kept under a key that is too
// short, or in a slot chosen by some bits, meets an argument it is not for.
func chains(part, parts int, all bool) (res histResult) {
	var cur rune
	what := ""
	defer func() {
		if r := recover(); r != nil {
			res.Bad = fmt.Sprintf("%s of %#x: panic: %v", what, cur, r)
		}
	}()
	bad := func(fn string, r rune, got, want interface{}) {
		if res.Bad == "" {
			res.Bad = fmt.Sprintf("%s of %#x gave %s, expected %s", fn, r, show(got), show(want))
		}
	}
	var buf [8]byte
	var ob []byte
	fns := []struct {
		name string
		wide bool // beyond the BMP, and negative runes
		f    func(r rune)
	}{
		{"Split", true, func(r rune) {
			x := ref(r)
			if l, m, t := hangul.Split(r); l != x.l || m != x.m || t != x.t {
				bad("Split", r, []rune{l, m, t}, []rune{x.l, x.m, x.t})
			}
		}},
		{"SplitCompat", true, func(r rune) {
			x := ref(r)
			if l, m, t := hangul.SplitCompat(r); l != ref(x.l).compat || m != ref(x.m).compat || t != ref(x.t).compat {
				bad("SplitCompat", r, []rune{l, m, t}, []rune{ref(x.l).compat, ref(x.m).compat, ref(x.t).compat})
			}
		}},
		{"Join", true, func(r rune) {
			if got, want := hangul.Join(r, 'ㅏ', 0), refJoin(r, 'ㅏ', 0); got != want {
				bad("Join as lead", r, got, want)
			}
			if got, want := hangul.Join('ㅎ', r, 'ㄴ'), refJoin('ㅎ', r, 'ㄴ'); got != want {
				bad("Join as medial", r, got, want)
			}
			if got, want := hangul.Join('ㅎ', 'ㅏ', r), refJoin('ㅎ', 'ㅏ', r); got != want {
				bad("Join as tail", r, got, want)
			}
		}},
		{"predicates", true, func(r rune) {
			f := ref(r).flags
			l, m, t, j, o, h := hangul.IsLead(r), hangul.IsMedial(r), hangul.IsTail(r), hangul.IsJaeum(r), hangul.IsMoeum(r), hangul.IsHangul(r)
			if l != (f&fLead != 0) || m != (f&fMedial != 0) || t != (f&fTail != 0) || j != (f&(fLead|fTail|fCompCons) != 0) || o != (f&(fMedial|fCompVow) != 0) || h != (f != 0) {
				bad("predicates", r, []bool{l, m, t, j, o, h}, fmt.Sprintf("those of class %#x", f))
			}
		}},
		{"conversions", true, func(r rune) {
			x := ref(r)
			c, l, m, t := hangul.CompatJamo(r), hangul.Lead(r), hangul.Medial(r), hangul.Tail(r)
			if c != x.compat || l != x.lead || m != x.medial || t != x.tail {
				bad("conversions", r, []rune{c, l, m, t}, []rune{x.compat, x.lead, x.medial, x.tail})
			}
		}},
		{"SplitMultiElement", true, func(r rune) {
			e, ok := hangul.SplitMultiElement(r)
			if !eqRunes(e, ref(r).elems) || ok != (ref(r).elems != nil) {
				bad("SplitMultiElement", r, e, ref(r).elems)
			}
			for i := range e {
				e[i] = 'x'
			}
		}},
		{"Stroke", true, func(r rune) {
			if got := hangul.Stroke(r); got != ref(r).stroke {
				bad("Stroke", r, got, ref(r).stroke)
			}
		}},
		{"words", false, func(r rune) {
			s := string(r)
			want, free := refLast(s)
			if free {
				return
			}
			if got := hangul.LastConsonant(s); got != want {
				bad("LastConsonant", r, got, want)
			}
			if got := hangul.EndsWithConsonant(s); got != (want != 0) {
				bad("EndsWithConsonant", r, got, want != 0)
			}
			p := "가"
			if want != 0 {
				p = "이"
			}
			if got := hangul.AppendPostposition(s, "이", "가"); got != s+p {
				bad("AppendPostposition", r, got, s+p)
			}
		}},
		{"IsHanja", true, func(r rune) {
			if got := hanja.IsHanja(r); got != refIsHanja(r) {
				bad("IsHanja", r, got, refIsHanja(r))
			}
		}},
		{"Convert", false, func(r rune) {
			s := string(r)
			ob = refConvert(ob[:0], s)
			if got := hanja.Convert(s); got != string(ob) {
				bad("Convert", r, got, string(ob))
			}
		}},
		{"To", false, func(r rune) {
			n := copy(buf[:], string(r))
			ob, _ = refTo(ob[:0], buf[:n], false)
			if got, err := cp949.To(buf[:n]); err != nil || !bytes.Equal(got, ob) {
				bad("To", r, got, ob)
			}
		}},
		{"From", false, func(r rune) { // of the pair r
			if r > 0xFFFF {
				return
			}
			buf[0], buf[1] = byte(r>>8), byte(r)
			want, ok := refFrom(ob[:0], buf[:2])
			got, err := cp949.From(buf[:2])
			if ok && (err != nil || !bytes.Equal(got, want)) || !ok && err != cp949.ErrCP949UnexpectedStream {
				bad("From", r, got, want)
			}
		}},
	}
	for k, fn := range fns {
		if k%parts != part {
			continue
		}
		what = fn.name
		call := func(r rune) {
			cur = r
			res.Calls++
			fn.f(r)
		}
		top := rune(0x10FFFF)
		for r := rune(0); r <= top && res.Bad == ""; r++ {
			call(r)
		}
		for r := top; r >= 0 && res.Bad == ""; r-- {
			call(r)
		}
		step := rune(1)
		bits := uint(21)
		if fn.wide {
			bits = 32
		}
		for r := rune(0); r <= 0xFFFF && res.Bad == ""; r += step {
			if !all && !interesting(r) {
				continue
			}
			for b := uint(0); b < bits; b++ {
				o := rune(uint32(r) ^ 1<<b)
				if !fn.wide && o > 0x10FFFF {
					continue
				}
				res.Evals++
				call(r)
				call(o)
				call(r)
			}
			if r&0xFFF == 0 {
				out(histResult{})
			}
		}
	}
	res.Done = true
	return res
}

// interesting runes for the quick tier: letters, their surroundings, every
// fifth syllable and ideograph, and what is in CP949 below.
func interesting(r rune) bool {
	switch {
	case r < 0x500, r >= 0x1100 && r < 0x1200, r >= 0x3000 && r < 0x3400, r >= 0xD700 && r < 0xD800, r >= 0xF900:
		return true
	}
	return r%5 == 0
}

func X01(e *Eng) {
	e.rule = "one case per history, enumerated without repetition; all are non-trivial, as each has calls whose results are kept while others are made"
	e.assume = []string{"the results expected of each call are those of the reference model", "a fresh child process stands for a fresh program"}
	n := 3 * len(menu)
	run := func(w *Worker, args []string) {
		w.Desc(func() string { return "mc " + strings.Join(args, " ") })
		res, bad := child(w, args...)
		w.evals += res.Evals
		w.nontriv += res.Evals
		w.trans += res.Calls
		if bad != "" {
			if res.Seq == nil {
				w.artefact = histArt(nil, args, bad)
				w.Fail(0, "mc "+strings.Join(args, " "), "each call gives its result", bad, func() bool { _, b := child(nil, args...); return b != "" }, "")
			}
			histFail(w, res.Seq, bad, args)
		}
	}
	e.Par("fresh pairs", fmt.Sprintf("the history a, b, a, b, ... over %d ops, with the caller keeping everything, spoiling its newest slices, spoiling everything, and again, each pair of ops in a process of its own", len(menu)), len(menu)*len(menu), func(w *Worker, i int) {
		a, b := i/len(menu), i%len(menu)
		w.Desc(func() string { return menu[a].name + "; " + menu[b].name })
		seqs := [][]int{{3 * a, 3 * b, 3*a + spoilLast, 3*b + spoilLast, 3*a + spoilAll, 3*b + spoilAll, 3 * a, 3 * b}}
		for _, s := range seqs {
			_, bad := child(w, "-hist", seqString(s))
			w.trans += int64(len(s))
			w.Tick(true)
			w.ticks.Add(1)
			if bad != "" {
				histFail(w, s, bad, nil)
			}
		}
	})
	depth := e.pick(3, 4)
	e.Par("histories", fmt.Sprintf("every history of %d of %d symbols (%d ops, each keeping everything, spoiling its own slices or spoiling everything); one process per first symbol", depth, n, len(menu)), n, func(w *Worker, i int) {
		run(w, []string{"-histall", strconv.Itoa(depth), strconv.Itoa(i), strconv.Itoa(i + 1), "0"})
	})
	d2 := e.pick(2, 3)
	e.Par("one buffer", fmt.Sprintf("every history of %d of the %d symbols by a caller that puts every argument into the same buffer; one process per first symbol", d2, n), n, func(w *Worker, i int) {
		run(w, []string{"-histall", strconv.Itoa(d2), strconv.Itoa(i), strconv.Itoa(i + 1), "0", "one"})
	})
	sameBuffer(e, run)
	keptResults(e, run)
	few := len(fewOps())
	e.Par("longer histories", fmt.Sprintf("every history of %d of %d symbols (%d ops, with the three manners of keeping), and of %d of those ops with everything kept; one process per first symbol", e.pick(4, 5), 3*few, few, e.pick(6, 7)), 4*few, func(w *Worker, i int) {
		if i < few {
			run(w, []string{"-histsome", strconv.Itoa(e.pick(6, 7)), strconv.Itoa(i), strconv.Itoa(i + 1), "1"})
		} else {
			run(w, []string{"-histsome", strconv.Itoa(e.pick(4, 5)), strconv.Itoa(i - few), strconv.Itoa(i - few + 1), "3"})
		}
	})
	e.Par("garbage collected", fmt.Sprintf("a, b, a garbage collection, a, b, and a, a collection, b, a, b, a with all slices spoilt, for every ordered pair of the %d ops; one process per first op", len(menu)), len(menu), func(w *Worker, i int) {
		run(w, []string{"-histgc", strconv.Itoa(i)})
	})
	reps := e.pick(70000, 300000)
	e.Par("long rows", fmt.Sprintf("each op, its result kept while each other op is made 70 times (%d ops: 1100 times), with everything kept and with the newest spoilt, and 40 times in turn with each; then the op %d times; one process per op", few, reps), len(menu), func(w *Worker, i int) {
		run(w, []string{"-histlong", strconv.Itoa(i), strconv.Itoa(reps)})
	})
	surroundings(e)
	clock(e)
	farCalls(e)
	e.Par("chains", "each of 12 groups of functions: all of Unicode upwards and downwards, then x, x', x for the runes x of the BMP (thorough: all) and each x' one bit away; one process per group", 12, func(w *Worker, i int) {
		a := []string{"-histchain", strconv.Itoa(i), "12"}
		if e.thorough() {
			a = append(a, "all")
		}
		run(w, a)
	})
	e.Sample(describe([]int{0, 7, 3 * (len(menu) - 1)}))
	e.Sample(describe([]int{3*len(menu) - 1, 152, 121}))
}

// surroundings are what a program may find around it: environment variables
// and the working directory.
func surroundings(e *Eng) {
	var l [][]string
	locales := []string{"", "C", "POSIX", "C.UTF-8", "en_US.UTF-8", "ko_KR", "ko_KR.UTF-8", "ko_KR.eucKR", "ko_KR.EUC-KR", "ko_KR.CP949", "ko_KP.UTF-8", "ja_JP.UTF-8", "ja_JP.SJIS", "zh_CN.GB18030", "tr_TR.UTF-8", "de_DE.ISO-8859-1"}
	for _, v := range []string{"LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE"} {
		for _, x := range locales {
			l = append(l, []string{v + "=" + x})
		}
	}
	for _, kv := range []string{"TZ=UTC", "TZ=Asia/Seoul", "TZ=Asia/Pyongyang", "GOMAXPROCS=1", "GOMAXPROCS=2", "GOMAXPROCS=3", "GOMAXPROCS=64", "GOGC=1", "GOGC=off", "GOMEMLIMIT=20MiB", "GODEBUG=gcstoptheworld=1",
		"DEBUG=1", "DEBUG=true", "TERM=dumb", "NO_COLOR=1", "CI=true", "HOME=", "USER=", "PATH=", "TMPDIR=/nonexistent", "GOOS=windows", "GOARCH=386", "PYTHONIOENCODING=cp949", "VERBOSE=1", "TEST=1", "GO_ENV=production", "ENV=production"} {
		l = append(l, []string{kv})
	}
	l = append(l, []string{""}, []string{"", "LANG=ko_KR.CP949"}, []string{"DIR=/"}, []string{"DIR=/tmp"}, []string{"DIR=/dev"})
	n := len(menu)
	e.Par("surroundings", fmt.Sprintf("%d settings of an environment variable (16 locales in each of 5, and others), no environment, other directories; in each every op of the menu in turn, upwards and downwards", len(l)), len(l), func(w *Worker, i int) {
		args := []string{}
		for _, kv := range l[i] {
			args = append(args, "env:"+kv)
		}
		var seq []int
		for k := 0; k < n; k++ {
			seq = append(seq, 3*k)
		}
		for k := n - 1; k >= 0; k-- {
			seq = append(seq, 3*k+spoilAll)
		}
		args = append(args, "-hist", seqString(seq))
		w.Desc(func() string { return fmt.Sprintf("with %q", l[i]) })
		_, bad := child(w, args...)
		w.Tick(true)
		w.trans += int64(len(seq))
		if bad != "" {
			w.artefact = histArt(nil, args, bad)
			w.Fail(int64(i), fmt.Sprintf("with %q in the environment, every op of the menu in turn", l[i]), "every call gives its result", bad,
				func() bool { _, b := child(nil, args...); return b != "" }, "")
		}
	})
}
