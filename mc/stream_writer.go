package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

var errSink = errors.New("sink failed")

// wplan is everything the environment of one streaming writer does.
type wplan struct {
	data   []byte
	parts  []int  // sizes of the writes; 0 is an empty write
	fail   []int  // sink calls (counted from 0) that fail
	giveUp uint64 // bit k: after the k-th failed Write the caller goes on without that part
	err    error
}

func (p *wplan) String() string {
	s := fmt.Sprintf("text %q written in parts %v", clip(string(p.data)), clipInts(p.parts))
	if len(p.fail) > 0 {
		s += fmt.Sprintf(", sink calls %v fail (%v)", p.fail, p.err)
		for k := range p.fail {
			if p.giveUp>>uint(k)&1 != 0 {
				s += fmt.Sprintf(", the part of failure #%d is dropped", k)
			} else {
				s += fmt.Sprintf(", the write of failure #%d is repeated", k)
			}
		}
	}
	return s
}

type wrun struct {
	p      *wplan
	sink   []byte
	calls  int
	failed bool   // during the current Write
	text   []byte // accepted
	conv   int    // bytes of text that are complete characters
	want   []byte // what they become
	same   int    // bytes of the sink already compared
	trans  int64
	nfail  int
	arg    []byte
}

func (x *wrun) Write(b []byte) (int, error) {
	k := x.calls
	x.calls++
	x.trans++
	for _, f := range x.p.fail {
		if f == k {
			x.failed = true
			return 0, x.p.err
		}
	}
	x.sink = append(x.sink, b...)
	return len(b), nil
}

func (x *wrun) exec(p *wplan, w *Worker) (bad string) {
	*x = wrun{p: p, sink: x.sink[:0], text: x.text[:0], want: x.want[:0], arg: x.arg[:0]}
	step := 0
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("write #%d: panic: %v", step, r)
		}
	}()
	wr, err := cp949.NewWriter(x)
	if err != nil {
		return "NewWriter: " + err.Error()
	}
	pos := 0
	for i := 0; i < len(p.parts); {
		if step > 4*len(p.parts)+4*len(p.fail)+16 {
			return "no progress"
		}
		part := p.data[pos : pos+p.parts[i]]
		// a fresh argument each time, overwritten afterwards
		x.arg = append(append(x.arg[:0], part...), 0x5A, 0x5A)
		a := x.arg[:len(part)]
		x.failed = false
		n, err := wr.Write(a)
		x.trans++
		step++
		if !bytes.Equal(a, part) || x.arg[len(part)] != 0x5A {
			bad = fmt.Sprintf("write #%d changed its argument", step)
		}
		for j := range x.arg {
			x.arg[j] = 0xEE
		}
		drop := false
		if x.failed {
			if !sameErr(err, p.err) || n != 0 {
				bad = fmt.Sprintf("write #%d returned %d, %v although the sink failed with %v", step, n, err, p.err)
			}
			drop = p.giveUp>>uint(x.nfail)&1 != 0
			x.nfail++
		} else if err != nil || n != len(part) {
			x.text = append(x.text, part...)
			bad = fmt.Sprintf("write #%d of %d bytes returned %d, %v", step, len(part), n, err)
		} else {
			x.text = append(x.text, part...)
		}
		var more int
		x.want, more = refTo(x.want, x.text[x.conv:], true)
		x.conv += more
		if bad == "" && (len(x.sink) != len(x.want) || !bytes.Equal(x.sink[x.same:], x.want[x.same:])) {
			bad = fmt.Sprintf("after write #%d the sink has %q, expected %q", step, clipEnd(x.sink), clipEnd(x.want))
		}
		if bad != "" {
			return bad
		}
		x.same = len(x.want)
		if !x.failed || drop {
			pos += p.parts[i]
			i++
		}
		if w != nil && len(p.data) <= 16 {
			w.State(hash64(p.data) ^ uint64(pos)<<3 ^ uint64(len(x.sink))<<10 ^ uint64(len(x.text))<<18 ^ uint64(x.nfail)<<26)
		}
	}
	return ""
}

func (x *wrun) check(w *Worker, p *wplan) int {
	bad := x.exec(p, w)
	w.traces++
	w.trans += x.trans
	w.Tick(len(p.parts) > 1)
	if bad != "" {
		q := *p
		q.data = append([]byte(nil), p.data...)
		q.parts = append([]int(nil), p.parts...)
		q.fail = append([]int(nil), p.fail...)
		w.artefact = savePlan(w.e, artPlan{Kind: "writer", Case: q.String(), Got: bad, Data: q.data, Chunks: q.parts, Fail: q.fail, GiveUp: q.giveUp, End: streamErrName(q.err)})
		w.Fail(int64(len(p.data)*100+len(p.parts)*10+len(p.fail)), q.String(), fmt.Sprintf("the sink holds %q so far", clip(string(x.want))), bad, func() bool {
			var y wrun
			return y.exec(&q, nil) != ""
		}, "")
	}
	if w.traces&63 == 0 {
		w.Outcome(hash64(x.want) ^ uint64(x.calls)<<40)
	}
	return x.calls
}

var encStreamTokens = []string{"A", "§", "가", "\U0002AC00", "\ufffd", "\xff", "\xea", "\xea\xb0", "\xf0\x9f\x98", "\xe0\x80"}

// exploreWriter enumerates splits, empty writes and failing sink calls.
func exploreWriter(w *Worker, x *wrun, data []byte, maxZero, maxFail int) {
	p := &wplan{data: data, err: errSink}
	w.Desc(func() string { return p.String() })
	run := func() {
		p.fail, p.giveUp = nil, 0
		n := x.check(w, p)
		var fb [4]int
		var rec func(k, from int)
		rec = func(k, from int) {
			for i := from; i < n+k; i++ { // every failure may add one call
				fb[k] = i
				p.fail = fb[:k+1]
				for g := uint64(0); g < 1<<uint(k+1); g++ {
					p.giveUp = g
					x.check(w, p)
				}
				if k+1 < maxFail {
					rec(k+1, i+1)
					p.fail = fb[:k+1]
				}
			}
		}
		if maxFail > 0 {
			rec(0, 0)
		}
		p.fail, p.giveUp = nil, 0
	}
	compositions(len(data), func(parts []int) {
		p.parts = parts
		run()
		if maxZero == 0 {
			return
		}
		var zb [64]int
		for z := 0; z <= len(parts); z++ {
			c := append(zb[:0], parts[:z]...)
			p.parts = append(append(c, 0), parts[z:]...)
			run()
		}
	})
}

func writerHarness(e *Eng, name, space string, data [][]byte, maxZero, maxFail int) {
	e.Par(name, fmt.Sprintf("%s: %d texts; every split into writes; up to %d empty writes at every place; every choice of up to %d failing sink calls, each followed by a repeated or an abandoned write", space, len(data), maxZero, maxFail), len(data), func(w *Worker, i int) {
		var x wrun
		exploreWriter(w, &x, data[len(data)-1-i], maxZero, maxFail)
	})
}

var writerAssume = []string{"a failing sink call accepts nothing; a succeeding one accepts everything (io.Writer)",
	"model: encoding state machine over (text accepted, unfinished character, bytes in the sink)"}

func dedup(in [][]byte) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	for _, b := range in {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	return out
}

func C06(e *Eng) {
	e.level = "model_checking"
	e.assume = writerAssume
	if strconv.IntSize == 32 {
		farWriter(e) // first, as there is less time
	} else {
		defer farWriter(e)
	}
	writerHarness(e, "short", "all texts over {A, §, 가, U+2AC00, U+FFFD, FF, EA, EAB0, F09F98, E080}", dedup(inputs(encStreamTokens, e.pick(8, 9), false)), 1, 0)
	writerHarness(e, "longer", "all texts over {A, 가, U+2AC00, EAB0}", dedup(inputs([]string{"A", "가", "\U0002AC00", "\xea\xb0"}, e.pick(13, 15), false)), 0, 0)
	writerHarness(e, "bytes", "all byte strings of up to 4 class bytes", classBytes(e.pick(4, 5)), 1, 0)
	e.Par("every rune", "every Unicode scalar value, split at every byte, between Hangul", 0x1100, func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		for j := 0; j < 256; j++ {
			r := rune(i*256 + j)
			if r >= 0xD800 && r < 0xE000 || !e.thorough() && r >= 0x12000 && j > 2 {
				continue
			}
			u := string(r)
			p.data = []byte("가" + u + "a")
			for k := 1; k < len(u); k++ {
				p.parts = []int{3 + k, len(u) - k + 1}
				x.check(w, p)
			}
			var ones [16]int
			for k := range ones {
				ones[k] = 1
			}
			p.parts = ones[:len(p.data)]
			x.check(w, p)
		}
	})
	units := []string{"가", "A", "A가", "§\U0001F600\ufffdB", "\xff\xea"}
	max := e.pick(300, 900)
	e.Par("every size", fmt.Sprintf("texts of every length 0..%d of %d periods, in writes of every size 1..40", max, len(units)), max+1, func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		for _, u := range units {
			p.data = []byte(strings.Repeat(u, i/len(u)+1))[:i]
			for s := 1; s <= 40; s++ {
				p.parts = fixed(i, s)
				// the oracle runs per write; thin it out for long texts of tiny writes
				if i/s > 150 && i%17 != 0 {
					continue
				}
				x.check(w, p)
			}
		}
	})
	largeWriter(e)
	moreWriter(e)
	foreignWriter(e)
	writerKinds(e)
	e.Sample((&wplan{data: []byte("가A"), parts: []int{1, 0, 2, 1}}).String())
}

func classBytes(n int) [][]byte {
	var out [][]byte
	var rec func(b []byte)
	rec = func(b []byte) {
		if len(b) == n {
			return
		}
		for _, t := range encBytes {
			c := append(b[:len(b):len(b)], t...)
			out = append(out, c)
			rec(c)
		}
	}
	rec(nil)
	return out
}

// largeWriter: long texts in large writes and through io.Copy.
func largeWriter(e *Eng) {
	var lens []int
	for _, b := range []int{512, 1024, 4096, 8192, 32768, 65536} {
		for d := -4; d <= 4; d++ {
			lens = append(lens, b+d, b*3/2+d)
		}
	}
	e.Par("large", "texts of 108 lengths around 1 and 3/2 of 512..65536 of 5 periods, in writes of 511,512,513,1000,4095,4096,4097,32768,all and through io.Copy", len(lens), func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		for _, u := range []string{"가", "A", "A가", "§\U0001F600\ufffdB", "\xff\xea"} {
			n := lens[i]
			p.data = []byte(strings.Repeat(u, n/len(u)+1))[:n]
			for _, s := range []int{511, 512, 513, 1000, 4095, 4096, 4097, 32768, 1 << 20} {
				p.parts = fixed(n, s)
				if len(p.parts) > 70 && !e.thorough() {
					continue
				}
				x.check(w, p)
			}
			var b bytes.Buffer
			wr, _ := cp949.NewWriter(&b)
			m, err := io.Copy(struct{ io.Writer }{wr}, struct{ io.Reader }{bytes.NewReader(p.data)})
			want, _ := refTo(nil, p.data, true)
			if err != nil || m != int64(n) || !bytes.Equal(b.Bytes(), want) {
				w.Fail(int64(n), fmt.Sprintf("io.Copy of %d bytes of period %q", n, u), fmt.Sprintf("%q", clip(string(want))), fmt.Sprintf("%d %v %q", m, err, clip(b.String())), nil, "")
			}
			w.traces++
			w.Poll()
		}
	})
}

func C07(e *Eng) {
	e.level = "model_checking"
	e.assume = writerAssume
	writerHarness(e, "short", "all texts over {A, §, 가, U+2AC00, U+FFFD, FF, EA, EAB0, F09F98, E080}", dedup(inputs(encStreamTokens, e.pick(6, 7), false)), 1, 2)
	writerHarness(e, "longer", "all texts over {A, 가, U+2AC00, EAB0}", dedup(inputs([]string{"A", "가", "\U0002AC00", "\xea\xb0"}, e.pick(9, 11), false)), 0, 2)
	writerHarness(e, "three failures", "all texts over {A, 가, EAB0}", dedup(inputs([]string{"A", "가", "\xea\xb0"}, e.pick(8, 9), false)), 0, 3)
	writerErrors(e)
	writerFailKinds(e)
	e.Par("large", "texts of 5000 bytes in writes of 1..64, 511, 512, 513, 4096 with the sink failing every k-th call, k 1..7", 68, func(w *Worker, i int) {
		var x wrun
		s := i + 1
		if s > 64 {
			s = []int{511, 512, 513, 4096}[s-65]
		}
		for _, u := range []string{"가", "A가", "§\U0001F600\ufffdB"} {
			n := 5000
			if s < 40 {
				n = 100 * s
			}
			p := &wplan{data: []byte(strings.Repeat(u, n/len(u)+1))[:n], err: errSink}
			w.Desc(func() string { return p.String() })
			p.parts = fixed(n, s)
			for k := 2; k <= 7; k++ {
				p.fail = nil
				for f := k; f < 2*len(p.parts); f += k {
					p.fail = append(p.fail, f)
				}
				x.check(w, p)
			}
		}
	})
	e.Sample((&wplan{data: []byte("가A"), parts: []int{1, 2, 1}, fail: []int{0}, err: errSink}).String())
}

// clipEnd is the end of a long text, where the difference is.
func clipEnd(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%d bytes ending in ", len(b)) + string(b[len(b)-30:])
	}
	return string(b)
}
