package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

var errSource = errors.New("source failed")

// plan is everything the environment of one streaming reader does.
type plan struct {
	data   []byte
	chunks []int // sizes the source hands out; 0 is a read of nothing without error
	end    error // after the data
	with   bool  // end comes together with the last bytes
	def    int   // caller's buffer size
	cyc    []int // instead of def: the buffer sizes, in turn
	dev    []dev // departures from it
}

type dev struct{ at, size int }

func (p *plan) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "source of %d bytes %q in chunks %v then %s", len(p.data), clip(string(p.data)), clipInts(p.chunks), streamErrName(p.end))
	if p.with {
		b.WriteString(" (together with the last bytes)")
	}
	if len(p.cyc) > 0 {
		fmt.Fprintf(&b, ", read with buffers of %v in turn", p.cyc)
	} else {
		fmt.Fprintf(&b, ", read with buffers of %d", p.def)
	}
	for _, d := range p.dev {
		fmt.Fprintf(&b, ", read #%d with %d", d.at, d.size)
	}
	return b.String()
}

func clipInts(x []int) []int {
	if len(x) > 40 {
		return x[:40]
	}
	return x
}

// rrun is one execution of the real reader against the model.
type rrun struct {
	p        *plan
	ci, left int // chunk index, bytes left in it
	pos      int // bytes handed out
	ended    bool
	empty    bool // the source returned 0, nil during the current Read
	srcCalls int
	bad      string
	want     []byte // full expected output
	done     int    // bytes delivered
	avail    int    // output bytes of the complete characters received
	half     bool   // the last byte received opens a pair
	final    error
	nreads   int
	trans    int64
	w        *Worker
	hash     uint64
	buf      [80]byte
}

var errHorizon = errors.New("horizon: too many source reads")

func (x *rrun) Read(p []byte) (int, error) {
	x.srcCalls++
	x.trans++
	if x.srcCalls > 4*len(x.p.data)+4*len(x.p.chunks)+64 {
		x.fail("the source is read without end")
		panic(errHorizon)
	}
	if x.ended {
		x.fail("the source is read again after it returned its error")
	}
	if x.avail != x.done {
		x.fail("the source is read while %d bytes of complete characters are undelivered", x.avail-x.done)
	}
	if len(p) == 0 {
		x.empty = true
		return 0, nil
	}
	if x.ci >= len(x.p.chunks) {
		x.ended = true
		return 0, x.p.end
	}
	if x.p.chunks[x.ci] == 0 {
		x.ci++
		x.empty = true
		if len(p) > 0 {
			p[len(p)-1] = 0xEE // scratch, as io.Reader allows
		}
		return 0, nil
	}
	if x.left == 0 {
		x.left = x.p.chunks[x.ci]
	}
	n := x.left
	if n > len(p) {
		n = len(p)
	}
	copy(p, x.p.data[x.pos:x.pos+n])
	for i := n; i < len(p) && i < n+16; i++ {
		p[i] = 0xEE // scratch, as io.Reader allows
	}
	for _, c := range x.p.data[x.pos : x.pos+n] {
		if x.half {
			x.half = false
			code := uint16(x.p.data[x.pos-1])<<8 | uint16(c)
			x.avail += int(cpOut[code].n)
		} else if c >= 0x80 {
			x.half = true
		} else {
			x.avail++
		}
		x.pos++
	}
	x.left -= n
	if x.left == 0 {
		x.ci++
	}
	if x.p.with && x.ci >= len(x.p.chunks) {
		x.ended = true
		return n, x.p.end
	}
	return n, nil
}

func (x *rrun) fail(f string, a ...interface{}) {
	if x.bad == "" {
		x.bad = fmt.Sprintf("read #%d, %d bytes delivered, %d of %d source bytes handed out: ", x.nreads, x.done, x.pos, len(x.p.data)) + fmt.Sprintf(f, a...)
	}
}

// size of the caller's read number k
func (p *plan) size(k int) int {
	for _, d := range p.dev {
		if d.at == k {
			return d.size
		}
	}
	if len(p.cyc) > 0 {
		return p.cyc[k%len(p.cyc)]
	}
	return p.def
}

// exec runs the plan on the real reader and compares every step.
func (x *rrun) exec(p *plan, w *Worker) (bad string) {
	*x = rrun{p: p, w: w, want: x.want[:0]}
	var ok bool
	x.want, ok = refFrom(x.want, p.data)
	x.final = p.end
	if !ok && p.end == io.EOF {
		x.final = cp949.ErrCP949UnexpectedStream
	}
	defer func() {
		if r := recover(); r != nil {
			if r != errHorizon {
				x.fail("panic: %v", r)
			}
			bad = x.bad
		}
	}()
	r, err := cp949.NewReader(x)
	if err != nil {
		return "NewReader: " + err.Error()
	}
	horizon := (2*len(x.want)+2*len(p.chunks)+16)*(1+len(p.cyc)) + len(p.dev)
	idle := 0
	big := x.buf[:]
	after, last := 0, 3 // reads after the end
	switch {
	case len(p.data) <= 1:
		last = 300
	case len(p.data) <= 3:
		last = 12
	}
	horizon += last
	for x.bad == "" {
		size := p.size(x.nreads)
		if size == 0 && p.def == 0 && len(p.cyc) == 0 {
			return "plan without progress"
		}
		if size+8 > len(big) {
			big = make([]byte, size+8)
		}
		for i := size; i < size+8; i++ {
			big[i] = 0xC3
		}
		x.empty = false
		n, err := r.Read(big[:size])
		x.nreads++
		x.trans++
		if w != nil {
			if len(p.data) <= 16 {
				w.State(hash64(p.data) ^ uint64(x.pos)<<3 ^ uint64(x.done)<<10 ^ uint64(x.ci)<<20 ^ uint64(b2i(x.ended))<<30)
			}
		}
		switch {
		case n < 0 || n > size:
			x.fail("Read with a buffer of %d returned %d", size, n)
		case x.done+n > x.avail || !bytes.Equal(big[:n], x.want[x.done:x.done+n]):
			exp := x.want[x.done:]
			if len(exp) > n {
				exp = exp[:n]
			}
			x.fail("Read returned %q, expected %q", clip(string(big[:n])), clip(string(exp)))
		}
		if x.bad != "" {
			break
		}
		for i := size; i < size+8; i++ {
			if big[i] != 0xC3 {
				x.fail("Read wrote beyond its buffer of %d", size)
			}
		}
		x.done += n
		if err != nil {
			switch {
			case !sameErr(err, x.final):
				x.fail("Read returned error %v, expected %v", err, x.final)
			case x.done != len(x.want) || x.pos != len(p.data):
				x.fail("Read returned %v with output missing: %q", err, clip(string(x.want[x.done:])))
			case !x.ended:
				x.fail("Read returned %v before the source did", err)
			}
			after++
			if after == last {
				return x.bad
			}
			continue
		}
		if after > 0 && size > 0 {
			x.fail("Read returned %d, nil after an error", n)
		}
		if n == 0 && size > 0 && !x.empty {
			x.fail("Read returned 0, nil without cause")
		}
		if n == 0 && size == 0 {
		} else if n == 0 {
			if idle++; idle > len(p.chunks)+len(p.dev)+8 {
				x.fail("no progress")
			}
		} else {
			idle = 0
		}
		if x.nreads > horizon {
			x.fail("more reads than needed: %d", x.nreads)
		}
	}
	return x.bad
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *rrun) check(w *Worker, p *plan) int {
	bad := x.exec(p, w)
	w.traces++
	w.trans += x.trans
	w.Tick(len(p.chunks) > 1)
	if bad != "" {
		q := *p
		q.data = append([]byte(nil), p.data...)
		q.chunks = append([]int(nil), p.chunks...)
		q.dev = append([]dev(nil), p.dev...)
		q.cyc = append([]int(nil), p.cyc...)
		w.artefact = savePlan(w.e, artPlan{Kind: "reader", Case: q.String(), Got: bad, Data: q.data, Chunks: q.chunks, End: streamErrName(q.end), With: q.with, Def: q.def, Cyc: q.cyc, Dev: devPairs(q.dev)})
		w.Fail(int64(len(p.data)*100+len(p.chunks)*10+len(p.dev)), q.String(), fmt.Sprintf("%q then %v", clip(string(x.want)), x.final), bad, func() bool {
			var y rrun
			return y.exec(&q, nil) != ""
		}, "")
	}
	if w.traces&63 == 0 {
		w.Outcome(hash64(x.want) ^ uint64(x.nreads)<<40 ^ uint64(x.srcCalls)<<50)
	}
	return x.nreads
}

// inputs lists all token sequences of at most max bytes; with trunc also
// those followed by a lone lead byte.
func inputs(tokens []string, max int, trunc bool) [][]byte {
	var out [][]byte
	var rec func(b []byte)
	rec = func(b []byte) {
		out = append(out, b)
		for _, t := range tokens {
			if len(b)+len(t) <= max {
				rec(append(b[:len(b):len(b)], t...))
			}
		}
	}
	rec(nil)
	if trunc {
		n := len(out)
		for i := 0; i < n; i++ {
			if len(out[i]) < max {
				out = append(out, append(out[i][:len(out[i]):len(out[i])], 0xB0), append(out[i][:len(out[i]):len(out[i])], 0xFF))
			}
		}
	}
	return out
}

// compositions calls f with every way to split n into positive parts.
func compositions(n int, f func(parts []int)) {
	if n == 0 {
		f(nil)
		return
	}
	var buf [64]int
	for m := 0; m < 1<<uint(n-1); m++ {
		parts := buf[:0]
		run := 1
		for i := 0; i < n-1; i++ {
			if m>>uint(i)&1 != 0 {
				parts = append(parts, run)
				run = 0
			}
			run++
		}
		f(append(parts, run))
	}
}

var decStreamTokens = []string{"A", "\xb0\xa1", "\xa1\xd7", "\xc9\xfe", "\xa1A"}

var bufMenu = []int{1, 2, 3, 4, 5, 8, 64}

// exploreReader enumerates the environment of short streams.
func exploreReader(e *Eng, w *Worker, data []byte, end error, maxDev, maxZero int) {
	var x rrun
	p := &plan{data: data, end: end}
	w.Desc(func() string { return p.String() })
	run := func() {
		for _, s := range bufMenu {
			p.def = s
			p.dev = nil
			n := x.check(w, p)
			if maxDev == 0 {
				continue
			}
			if n > 24 {
				n = 24
			}
			for i := 0; i < n; i++ {
				for _, a := range [...]int{0, 1, 2, 3, 64} {
					if a == s {
						continue
					}
					p.dev = []dev{{i, a}}
					m := x.check(w, p)
					if maxDev < 2 {
						continue
					}
					for j := i + 1; j < m && j < 24; j++ {
						for _, c := range [...]int{0, 1, 2, 64} {
							if c == s {
								continue
							}
							p.dev = []dev{{i, a}, {j, c}}
							x.check(w, p)
						}
					}
				}
			}
			p.dev = nil
		}
	}
	compositions(len(data), func(parts []int) {
		for _, with := range [...]bool{false, true} {
			if with && len(parts) == 0 {
				continue
			}
			p.with = with
			p.chunks = parts
			run()
			if maxZero == 0 {
				continue
			}
			var zb [64]int
			for z := 0; z <= len(parts); z++ {
				if with && z == len(parts) {
					continue
				}
				c := append(zb[:0], parts[:z]...)
				c = append(append(c, 0), parts[z:]...)
				p.chunks = c
				run()
			}
		}
	})
}

func readerHarness(e *Eng, name, space string, data [][]byte, ends []error, maxDev, maxZero int) {
	e.Par(name, fmt.Sprintf("%s: %d sources; every split into chunks; error alone and with the last bytes; up to %d empty source reads at every place; caller buffers %v with up to %d departures to 0,1,2,3,64 at every read", space, len(data), maxZero, bufMenu, maxDev), len(data), func(w *Worker, i int) {
		// long ones first, for balance
		d := data[len(data)-1-i]
		for _, end := range ends {
			exploreReader(e, w, d, end, maxDev, maxZero)
		}
	})
}

// longReader reads long streams through fixed chunk and buffer sizes.
func longReader(e *Eng, ends []error, trunc bool) {
	max := e.pick(130, 400)
	units := []string{"\xb0\xa1", "A\xb0\xa1", "A", "\xa1\xd7\xc9\xfe\xb0\xa1A"}
	e.Par("every size", fmt.Sprintf("streams of every length 0..%d of %d periods, chunks of 1,2,3,5,8,all, caller buffers of every size 1..40", max, len(units)), max+1, func(w *Worker, i int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		for _, u := range units {
			for _, ch := range []int{1, 2, 3, 5, 8, 1 << 20} {
				for _, end := range ends {
					*p = plan{data: cut(u, i, trunc), end: end, chunks: nil}
					p.chunks = fixed(len(p.data), ch)
					for s := 1; s <= 40; s++ {
						p.def = s
						x.check(w, p)
					}
				}
			}
		}
	})
	var lens []int
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 32768} {
		if b > 8192 && !e.thorough() {
			continue
		}
		for d := -4; d <= 4; d++ {
			lens = append(lens, b+d, b*2/3+d, b*3/2+d)
		}
	}
	e.Par("large", fmt.Sprintf("streams of %d lengths around 2/3, 1 and 3/2 of 512..32768, chunks of 1,511,512,513,1000,4095,4096,all, buffers of 1,3,511,512,513,1500,4095,4096,4097,40000", len(lens)), len(lens), func(w *Worker, i int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		for _, u := range units {
			for _, ch := range []int{1, 511, 512, 513, 1000, 4095, 4096, 1 << 20} {
				for _, end := range ends {
					for _, with := range []bool{false, true} {
						*p = plan{data: cut(u, lens[i], trunc), end: end, with: with}
						p.chunks = fixed(len(p.data), ch)
						for _, s := range []int{1, 3, 511, 512, 513, 1500, 4095, 4096, 4097, 40000} {
							if s == 1 && !e.thorough() && lens[i] > 3000 {
								continue
							}
							p.def = s
							x.check(w, p)
						}
						w.Poll()
					}
				}
			}
		}
	})
}

// cut repeats u to n bytes; unless trunc, it does not end in half a pair.
func cut(u string, n int, trunc bool) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		b = append(b, u...)
	}
	b = b[:n]
	if _, ok := refFrom(nil, b); ok == trunc {
		if trunc {
			b = append(b, 0xB0)
		} else {
			b = append(b, 0xA1)
		}
	}
	return b
}

func fixed(n, k int) []int {
	var c []int
	for n > 0 {
		if k > n {
			k = n
		}
		c = append(c, k)
		n -= k
	}
	return c
}

var readerAssume = []string{"the source obeys io.Reader: 0 <= n <= len(p), no retained p, an error is final",
	"model: decoding state machine over (bytes received, half pair, bytes delivered, source ended)"}

func C04(e *Eng) {
	e.level = "model_checking"
	e.assume = readerAssume
	eof := []error{io.EOF}
	if strconv.IntSize == 32 {
		farReader(e) // first, as there is less time
	} else {
		defer farReader(e)
	}
	readerHarness(e, "short", "all sources over {A, B0A1, A1D7, C9FE(unassigned), A1'A'(invalid)}", inputs(decStreamTokens, e.pick(7, 8), false), eof, 1, 1)
	readerHarness(e, "short, more departures", "all sources over the same tokens", inputs(decStreamTokens, e.pick(5, 6), false), eof, 2, 1)
	readerHarness(e, "longer", "all sources over {A, B0A1, A1D7}", inputs(decStreamTokens[:3], e.pick(11, 13), false), eof, 0, 0)
	longReader(e, eof, false)
	moreReader(e, eof, false)
	foreignReader(e, eof, false)
	readerKinds(e, eof, false)
	e.Par("all pairs", "a stream of all 32,768 pairs with a lead from 0x80, through chunks of every size 1..64 and buffers 7, 512, 4096", 64, func(w *Worker, i int) {
		var x rrun
		p := &plan{end: io.EOF}
		w.Desc(func() string { return p.String() })
		for k := 0; k < 0x8000; k++ {
			p.data = append(p.data, byte(0x80+k>>8), byte(k))
		}
		p.chunks = fixed(len(p.data), i+1)
		for _, s := range []int{7, 512, 4096} {
			p.def = s
			x.check(w, p)
			w.Poll()
		}
	})
	e.Sample((&plan{data: []byte("\xb0\xa1A"), chunks: []int{1, 0, 2}, end: io.EOF, with: true, def: 2, dev: []dev{{1, 0}}}).String())
}

func C05(e *Eng) {
	e.level = "model_checking"
	e.assume = readerAssume
	var trunc [][]byte
	for _, d := range inputs(decStreamTokens, e.pick(7, 8), true) {
		if _, ok := refFrom(nil, d); !ok {
			trunc = append(trunc, d)
		}
	}
	any := inputs(decStreamTokens, e.pick(6, 7), true)
	readerHarness(e, "truncated", "all sources over {A, B0A1, A1D7, C9FE, A1'A'} that end inside a pair (lead B0 or FF)", trunc, []error{io.EOF}, 1, e.pick(0, 1))
	readerHarness(e, "source error", "all sources over the same tokens, complete or not, that end with an error of the source", any, []error{errSource, io.ErrUnexpectedEOF, cp949.ErrCP949UnexpectedStream}, 1, e.pick(0, 1))
	readerHarness(e, "error and empty reads", "shorter sources, complete or not", inputs(decStreamTokens, e.pick(4, 5), true), []error{errSource, io.EOF}, 2, 1)
	readerErrors(e)
	longReader(e, []error{io.EOF}, true)
	moreReader(e, []error{io.EOF, errSource}, true)
	foreignReader(e, []error{io.EOF, errSource}, true)
	readerKinds(e, []error{io.EOF, errSource}, true)
	e.Par("error position", "a source of 600 bytes of 3 kinds that fails after every byte, chunks of 1,3,64,512, buffers of 2,5,512", 601, func(w *Worker, i int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		for _, u := range []string{"\xb0\xa1", "A\xb0\xa1", "A"} {
			d := []byte(strings.Repeat(u, 600))[:i]
			for _, ch := range []int{1, 3, 64, 512} {
				for _, s := range []int{2, 5, 512} {
					for _, with := range []bool{false, true} {
						*p = plan{data: d, chunks: fixed(len(d), ch), end: errSource, with: with, def: s}
						x.check(w, p)
					}
				}
			}
		}
	})
	e.Sample((&plan{data: []byte("\xb0\xa1\xb0"), chunks: []int{2, 1}, end: io.EOF, with: true, def: 2}).String())
	e.Sample((&plan{data: []byte("A\xb0"), chunks: []int{2}, end: errSource, def: 1}).String())
}
