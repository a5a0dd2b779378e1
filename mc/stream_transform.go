package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
)

// codec is one direction with its model.
type codec struct {
	name string
	make func() transform.Transformer
	// makeFrom makes one from a given encoding value.
	makeFrom func(e *cp949.CP949Encoding) transform.Transformer
	// char looks at the first character of p: how many bytes it takes (0: it
	// is not complete) and what it becomes.
	char func(p []byte) (size int, out []byte)
	// all is the one-shot conversion; ok is false for truncated input.
	all func(p []byte) (out []byte, ok bool)
	// atEnd is what an incomplete rest becomes at the end of input.
	endErr error
}

var asciiOut [128][1]byte

func init() {
	for i := range asciiOut {
		asciiOut[i][0] = byte(i)
	}
}

var question = []byte{'?'}

var dec = &codec{name: "decoder",
	make:     func() transform.Transformer { return cp949.NewCP949Encoding().NewDecoder() },
	makeFrom: func(e *cp949.CP949Encoding) transform.Transformer { return e.NewDecoder() },
	char: func(p []byte) (int, []byte) {
		if p[0] < 0x80 {
			return 1, asciiOut[p[0]][:]
		}
		if len(p) < 2 {
			return 0, nil
		}
		o := &cpOut[uint16(p[0])<<8|uint16(p[1])]
		return 2, o.b[:o.n]
	},
	all:    func(p []byte) ([]byte, bool) { return refFrom(nil, p) },
	endErr: cp949.ErrCP949UnexpectedStream,
}

var pairOut [0x10000][2]byte

func init() {
	for i := range pairOut {
		pairOut[i] = [2]byte{byte(i >> 8), byte(i)}
	}
}

var enc = &codec{name: "encoder",
	make:     func() transform.Transformer { return cp949.NewCP949Encoding().NewEncoder() },
	makeFrom: func(e *cp949.CP949Encoding) transform.Transformer { return e.NewEncoder() },
	char: func(p []byte) (int, []byte) {
		size, r := refRuneAt(p)
		switch {
		case size == 0:
			return 0, nil
		case r < 0:
			return 1, question
		case r < 0x80:
			return 1, asciiOut[r][:]
		case r <= 0xFFFF && cpEnc[r] != 0:
			return size, pairOut[cpEnc[r]][:]
		}
		return size, question
	},
	all: func(p []byte) ([]byte, bool) { o, _ := refTo(nil, p, false); return o, true },
}

// step is one call of Transform.
type step struct {
	win int // source bytes offered
	dst int // room
	eof bool
}

// trun drives one transformer over one input.
type trun struct {
	c    *codec
	in   []byte
	out  []byte
	dst  [160]byte
	src  []byte
	big  []byte
	kind uint8
}

// one performs a step at input position pos and checks it; it returns how
// much it consumed and whether the input is done.
func (x *trun) one(t transform.Transformer, pos int, s step) (n int, done bool, bad string) {
	c := x.c
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	win := x.in[pos : pos+s.win]
	// a private copy of the source with sentinels behind it
	x.src = append(append(x.src[:0], win...), 0xB0, 0xA1, 'z')
	buf := x.dst[:]
	if s.dst+8 > len(buf) {
		if s.dst+8 > len(x.big) {
			x.big = make([]byte, s.dst+8)
		}
		buf = x.big
	}
	for i := range buf[:s.dst+8] {
		buf[i] = 0xC3
	}
	nDst, nSrc, err := t.Transform(buf[:s.dst], x.src[:len(win)], s.eof)
	what := fmt.Sprintf
	if !bytes.Equal(x.src[:len(win)], win) {
		return 0, false, "the source was changed"
	}
	if nDst < 0 || nDst > s.dst || nSrc < 0 || nSrc > len(win) {
		return 0, false, what("returned nDst=%d nSrc=%d err=%v", nDst, nSrc, err)
	}
	// what has been consumed must be whole characters, with their output
	p, q := 0, 0
	for p < nSrc {
		size, o := c.char(win[p:])
		if size == 0 {
			if s.eof && c.endErr == nil {
				size, o = 1, question
			} else {
				return 0, false, what("consumed %d bytes, which ends inside a character", nSrc)
			}
		}
		if q+len(o) > nDst || !bytes.Equal(buf[q:q+len(o)], o) {
			return 0, false, what("consumed %q but produced %q", win[:nSrc], buf[:nDst])
		}
		p += size
		q += len(o)
	}
	if p != nSrc || q != nDst {
		return 0, false, what("consumed %q (%d bytes) but produced %q", win[:nSrc], nSrc, buf[:nDst])
	}
	for i := nDst; i < s.dst+8; i++ {
		if buf[i] != 0xC3 {
			return 0, false, what("wrote to dst[%d] but reported %d bytes", i, nDst)
		}
	}
	// the reported reason must be the true one
	rest := win[nSrc:]
	var want error
	if len(rest) > 0 {
		size, o := c.char(rest)
		switch {
		case size == 0 && !s.eof:
			want = transform.ErrShortSrc
		case size == 0 && c.endErr != nil:
			want = c.endErr
			x.kind |= 1
		default:
			if size == 0 {
				o = question
			}
			if nDst+len(o) <= s.dst {
				return 0, false, what("stopped after %d of %d bytes with err=%v, although the next character fits", nSrc, len(win), err)
			}
			want = transform.ErrShortDst
			x.kind |= 2
		}
	}
	if err != want {
		return 0, false, what("returned nDst=%d nSrc=%d err=%v, expected err=%v", nDst, nSrc, err, want)
	}
	x.out = append(x.out, buf[:nDst]...)
	return nSrc, s.eof && (len(rest) == 0 || err == c.endErr), ""
}

func (x *trun) path(steps []step, rest step, w *Worker) (bad string, used []step) {
	// replays given steps, then default steps to the end
	x.out = x.out[:0]
	t := x.c.make()
	pos := 0
	for k := 0; ; k++ {
		s := rest
		s.win = len(x.in) - pos
		s.eof = true
		if k < len(steps) {
			s = steps[k]
			if s.win > len(x.in)-pos {
				s.win = len(x.in) - pos
			}
		}
		n, done, bad := x.one(t, pos, s)
		if w != nil {
			w.trans++
			w.State(hash64(x.in) ^ uint64(pos)<<5 ^ uint64(s.win)<<11 ^ uint64(s.dst)<<17 ^ uint64(b2i(s.eof))<<31)
		}
		used = append(used, s)
		if bad != "" {
			return fmt.Sprintf("step %d (dst %d, src %q, atEOF %v): %s", k, s.dst, x.in[pos:pos+s.win], s.eof, bad), used
		}
		pos += n
		if done {
			break
		}
		if k > len(steps)+2*len(x.in)+4 {
			return "no progress", used
		}
	}
	want, _ := x.c.all(x.in)
	if !bytes.Equal(x.out, want) {
		return fmt.Sprintf("in total %q, expected %q", x.out, want), used
	}
	return "", used
}

func (x *trun) checkPath(w *Worker, steps []step) []step {
	bad, used := x.path(steps, step{dst: 64}, w)
	w.traces++
	w.Tick(len(steps) > 0)
	if bad != "" {
		in := append([]byte(nil), x.in...)
		st := append([]step(nil), steps...)
		c := x.c
		w.artefact = savePlan(w.e, artPlan{Kind: c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", used), Got: bad, Data: in, Steps: stepTriples(used), Whole: true})
		w.Fail(int64(len(in)*100+len(st)), fmt.Sprintf("%s, input %q, steps (src window, dst, atEOF) %v", c.name, in, used), "whole characters that fit, the true reason, the one-shot result", bad, func() bool {
			y := &trun{c: c, in: in}
			b, _ := y.path(st, step{dst: 64}, nil)
			return b != ""
		}, "")
	}
	return used
}

var dstMenu = []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 64}

// explore tries all steps at every position: every window and every room,
// with at most dev departures from the default step (everything, 64 bytes).
func (x *trun) explore(w *Worker, dev int) {
	var pre [40]step
	var rec func(k, dev int)
	rec = func(k, dev int) {
		used := x.checkPath(w, pre[:k])
		if dev == 0 {
			return
		}
		// position reached by the prefix
		for j := k; j < len(used) && j < 30; j++ {
			if j > k {
				pre[j-1] = used[j-1]
			}
			pos := x.posAfter(pre[:j])
			for win := 0; win <= len(x.in)-pos; win++ {
				for _, d := range dstMenu {
					for _, eof := range [...]bool{false, true} {
						if eof && win != len(x.in)-pos || eof && d == 64 {
							continue
						}
						pre[j] = step{win, d, eof}
						rec(j+1, dev-1)
					}
				}
			}
		}
	}
	rec(0, dev)
}

// posAfter is the input position after the steps, by the model.
func (x *trun) posAfter(steps []step) int {
	pos := 0
	for _, s := range steps {
		end := pos + s.win
		if end > len(x.in) {
			end = len(x.in)
		}
		room := s.dst
		for pos < end {
			size, o := x.c.char(x.in[pos:end])
			if size == 0 {
				if s.eof && x.c.endErr == nil {
					size, o = 1, question
				} else {
					break
				}
			}
			if len(o) > room {
				break
			}
			room -= len(o)
			pos += size
		}
	}
	return pos
}

func contract(e *Eng, c *codec, tokens []string, trunc bool) {
	e.level = "model_checking"
	e.assume = []string{"the transformer contract of golang.org/x/text/transform", "model: stateless per-character conversion over (position, source window, room, atEOF)"}
	// the encoder has more tokens
	less := 0
	if c == enc {
		less = 2
	}
	nSmall, nLong, nTiny, nMid := e.pick(8, 9)-less, e.pick(11, 12)-less-less/2, e.pick(6, 7)-less, e.pick(9, 10)-less
	small := dedup(inputs(tokens, nSmall, trunc))
	long := dedup(inputs(tokens, nLong, trunc))
	e.Par("all steps", fmt.Sprintf("%d inputs of up to %d bytes; every step (every source window, room %v, atEOF) at up to 2 places of a run, resumed to the end", len(small), nSmall, dstMenu), len(small), func(w *Worker, i int) {
		x := &trun{c: c, in: small[len(small)-1-i]}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		x.explore(w, 2)
	})
	e.Par("longer inputs", fmt.Sprintf("%d inputs of up to %d bytes; every step at one place of a run", len(long), nLong), len(long), func(w *Worker, i int) {
		x := &trun{c: c, in: long[len(long)-1-i]}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		x.explore(w, 1)
	})
	tiny := dedup(inputs(tokens, nTiny, trunc))
	e.Par("deep", fmt.Sprintf("%d inputs of up to %d bytes; every step at up to %d places", len(tiny), nTiny, 3), len(tiny), func(w *Worker, i int) {
		x := &trun{c: c, in: tiny[len(tiny)-1-i]}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		x.explore(w, 3)
	})
	mid := dedup(inputs(tokens, nMid, trunc))
	e.Par("fixed geometry", fmt.Sprintf("%d inputs; constant source window 1..8 and room 1..9, doubled when nothing moves", len(mid)), len(mid), func(w *Worker, i int) {
		x := &trun{c: c, in: mid[len(mid)-1-i]}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		for win := 1; win <= 8; win++ {
			for d := 1; d <= 9; d++ {
				x.geometry(w, win, d)
			}
		}
	})
	e.Par("reset", fmt.Sprintf("%d inputs: one step of every kind on another input, Reset, then the whole input", len(tiny)), len(tiny), func(w *Worker, i int) {
		for _, first := range tiny {
			for win := 0; win <= len(first); win++ {
				for _, d := range dstMenu {
					t := c.make()
					x := &trun{c: c, in: first}
					w.Desc(func() string { return fmt.Sprintf("%s, input %q, then Reset and %q", c.name, first, tiny[i]) })
					_, _, bad := x.one(t, 0, step{win, d, false})
					t.Reset()
					x.in, x.out = tiny[i], x.out[:0]
					_, _, bad2 := x.one(t, 0, step{len(x.in), 64, true})
					if bad+bad2 != "" {
						w.Fail(0, fmt.Sprintf("%s: Transform(dst %d, %q), Reset, Transform(dst 64, %q, true)", c.name, d, first[:win], tiny[i]), "no memory of the first input", bad+" / "+bad2, nil, "")
					}
					w.trans += 2
					w.traces++
					w.Tick(true)
				}
			}
		}
	})
	units := []string{strings.Join(tokens[:3], ""), tokens[1]}
	max := e.pick(700, 2000)
	e.Par("long rooms", fmt.Sprintf("inputs of every length 0..%d of 2 periods with rooms around the converted size -9..+1 and half of it", max), max+1, func(w *Worker, i int) {
		for _, u := range units {
			in := []byte(strings.Repeat(u, i/len(u)+1))[:i]
			out, _ := c.all(in)
			x := &trun{c: c, in: in}
			for d := -9; d <= 1; d++ {
				for _, base := range []int{len(out), len(out) / 2, len(in)} {
					if base+d < 0 {
						continue
					}
					w.Desc(func() string { return fmt.Sprintf("%s, %d bytes of period %q, room %d", c.name, i, u, base+d) })
					t := c.make()
					for _, eof := range []bool{true, false} {
						x.out = x.out[:0]
						_, _, bad := x.one(t, 0, step{len(in), base + d, eof})
						if bad != "" {
							w.Fail(int64(i), fmt.Sprintf("%s, %d bytes of period %q, room %d, atEOF %v", c.name, i, u, base+d, eof), "whole characters that fit", bad, nil, "")
						}
						w.trans++
						w.Tick(true)
					}
				}
			}
		}
	})
	foreignTransform(e, c)
	special := decSpecial
	if c == enc {
		special = encSpecial
	}
	e.Par("sequences", fmt.Sprintf("inputs of up to 3 of %d sequences with a meaning of their own elsewhere, constant window 1, 2, 3, 64 and room 2, 3, 4, 64, doubled when nothing moves", len(special)), len(special)*len(special), func(w *Worker, i int) {
		x := &trun{c: c}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		for _, t := range append([]string{""}, special...) {
			x.in = []byte(special[i/len(special)] + special[i%len(special)] + t)
			if len(x.in) > 40 {
				continue
			}
			for _, win := range []int{1, 2, 3, 64} {
				for _, d := range []int{2, 3, 4, 64} {
					x.geometry(w, win, d)
				}
			}
		}
	})
	k := e.pick(9, 16)
	e.Par("runs", fmt.Sprintf("inputs a^i b^j, a and b any of %d tokens, i and j 0..%d, constant window 1..8 and room 1..8, doubled when nothing moves", len(tokens), k), (k+1)*(k+1), func(w *Worker, i int) {
		x := &trun{c: c}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		for _, a := range tokens {
			for _, b := range tokens {
				x.in = []byte(strings.Repeat(a, i/(k+1)) + strings.Repeat(b, i%(k+1)))
				for win := 1; win <= 8; win++ {
					for d := 1; d <= 8; d++ {
						x.geometry(w, win, d)
					}
				}
			}
		}
	})
	lens := streamSizes(e)
	e.Par("large windows", fmt.Sprintf("inputs of %d lengths around 2^9..2^%d of 2 periods, rooms from the converted size -4 to +1, a half, two thirds, one and a half of it, and around 2^16; then resumed to the end", len(lens), e.pick(20, 22)), 2*len(lens), func(w *Worker, i int) {
		i = 2*len(lens) - 1 - i
		u, n := units[i&1], lens[i>>1]
		in := []byte(strings.Repeat(u, n/len(u)+1))[:n]
		out, _ := c.all(in)
		x := &trun{c: c, in: in}
		var rooms []int
		for d := -4; d <= 1; d++ {
			rooms = append(rooms, len(out)+d, 1<<16+d)
		}
		rooms = append(rooms, len(out)/2, len(out)*2/3, len(out)*3/2, len(in))
		for _, d := range rooms {
			if d < 0 {
				continue
			}
			for _, win := range []int{len(in), len(in) - 1, len(in) / 2, 1 << 16} {
				if win < 1 {
					continue
				}
				w.Desc(func() string {
					return fmt.Sprintf("%s, %d bytes of period %q, room %d, window %d", c.name, n, u, d, win)
				})
				t := c.make()
				x.out = x.out[:0]
				pos, done, bad, wn := 0, false, "", win
				var steps []step
				for k := 0; k < 4000 && !done && bad == ""; k++ {
					s := step{win: wn, dst: d + 8}
					if k == 0 {
						s.dst = d
					}
					if s.win >= len(in)-pos {
						s.win, s.eof = len(in)-pos, true
					}
					steps = append(steps, s)
					var m int
					m, done, bad = x.one(t, pos, s)
					pos += m
					wn = win
					if m == 0 {
						wn = win + 4
					}
					w.trans++
					if d < 4096 && k > 4 {
						break
					}
				}
				if bad == "" && done && !bytes.Equal(x.out, out) {
					bad = fmt.Sprintf("in total %d bytes, expected %d, or other ones", len(x.out), len(out))
				}
				if bad != "" {
					w.artefact = savePlan(w.e, artPlan{Kind: c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", steps), Data: in, Steps: stepTriples(steps)})
					w.Fail(int64(n), fmt.Sprintf("%s, %d bytes of period %q, steps (window, room, atEOF) %v", c.name, n, u, steps), "whole characters that fit, the true reason, the one-shot result", bad, func() bool { return playSteps(c, in, steps, false) != "" }, "")
				}
				w.traces++
				w.Tick(true)
			}
			w.Poll()
		}
	})
	rooms := []int{0, 1, 2, 3, 4, 6, 64}
	e.Par("every three bytes", fmt.Sprintf("every string of 1..3 bytes, at the end of input or not, rooms %v", rooms), 0x10000, func(w *Worker, i int) {
		x := &trun{c: c}
		var room int
		var eof bool
		w.Desc(func() string { return fmt.Sprintf("%s.Transform(room %d, %q, %v)", c.name, room, x.in, eof) })
		t := c.make()
		one := func(in ...byte) {
			x.in = in
			for _, room = range rooms {
				if len(in) == 3 && room > 0 && room < 64 && (in[0] < 0x80 || in[0]+in[1] < 100 && !e.thorough()) {
					continue
				}
				for _, eof = range []bool{false, true} {
					x.out = x.out[:0]
					s := step{len(in), room, eof}
					if _, _, bad := x.one(t, 0, s); bad != "" {
						in := append([]byte(nil), in...)
						w.artefact = savePlan(w.e, artPlan{Kind: c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", s), Data: in, Steps: stepTriples([]step{s})})
						w.Fail(int64(len(in)), fmt.Sprintf("%s.Transform(room %d, %q, %v)", c.name, room, in, s.eof), "whole characters that fit, the true reason", bad, func() bool { return playSteps(c, in, []step{s}, false) != "" }, "")
					}
					w.trans++
				}
			}
			w.Tick(true)
		}
		if i < 256 {
			one(byte(i))
		}
		one(byte(i>>8), byte(i))
		for b := 0; b < 256; b++ {
			one(byte(i>>8), byte(i), byte(b))
		}
	})
	classes := []byte{0, 'A', 'a', 0x7F, 0x80, 0x81, 0xA1, 0xB0, 0xC6, 0xC9, 0xFE, 0xFF}
	if c == enc {
		classes = classes[:0]
		for _, b := range encBytes {
			classes = append(classes, b[0])
		}
	}
	nc := len(classes)
	depth := e.pick(4, 5)
	e.Par("class bytes", fmt.Sprintf("every string of 1..%d of %d bytes, every step (every source window, room %v, atEOF) at one place of a run, resumed to the end", depth, nc, dstMenu), nc*nc, func(w *Worker, i int) {
		x := &trun{c: c}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		var rec func(in []byte)
		rec = func(in []byte) {
			x.in = in
			x.explore(w, 1)
			if len(in) == depth {
				return
			}
			for _, b := range classes {
				rec(append(in[:len(in):len(in)], b))
			}
		}
		if i < nc {
			x.in = []byte{classes[i]}
			x.explore(w, 1)
		}
		rec([]byte{classes[i/nc], classes[i%nc]})
	})
	steps := e.pick(140000, 2200000)
	e.Par("many steps", fmt.Sprintf("one transformer over inputs of %d and 3 more bytes of 4 periods, constant window 1..4 and room 2..4, doubled when nothing moves", steps), 4*12, func(w *Worker, it int) {
		x := &trun{c: c}
		tail := ""
		if c == dec {
			tail = []string{"\xb0\xa1", "A\xb0\xa1", "\xc9\xfe\xb0", "A"}[it%4]
		} else {
			tail = []string{"\uac00", "A\uac00", "\xff\xea\U0001F600", "A"}[it%4]
		}
		win, d := it/4%4+1, it/16+2
		w.Desc(func() string {
			return fmt.Sprintf("%s, %d times %q, window %d, room %d", c.name, steps/len(tail), tail, win, d)
		})
		x.in = []byte(strings.Repeat(tail, steps/len(tail)) + "xyz")
		x.geometry(w, win, d)
	})
	e.Par("every character", "every character (every pair from 0x8000, or every scalar value) with rooms 0..4, alone and before ASCII", 0x1100, func(w *Worker, i int) {
		x := &trun{c: c}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, x.in) })
		for j := 0; j < 256; j++ {
			k := i*256 + j
			if c == dec {
				if k < 0x8000 || k > 0xFFFF {
					continue
				}
				x.in = []byte{byte(k >> 8), byte(k), 'z'}
			} else {
				if k >= 0xD800 && k < 0xE000 || k > 0x12000 && j > 2 && !e.thorough() {
					continue
				}
				x.in = append([]byte(string(rune(k))), 'z')
			}
			t := c.make()
			for d := 0; d <= 4; d++ {
				for win := 1; win <= len(x.in); win++ {
					for _, eof := range []bool{false, true} {
						x.out = x.out[:0]
						_, _, bad := x.one(t, 0, step{win, d, eof})
						if bad != "" {
							st := []step{{win, d, eof}}
							w.artefact = savePlan(w.e, artPlan{Kind: c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", st), Data: x.in[:win], Steps: stepTriples(st)})
							w.Fail(int64(k), fmt.Sprintf("%s.Transform(room %d, %q, %v)", c.name, d, x.in[:win], eof), "whole characters that fit, the true reason", bad, func() bool { return playSteps(c, x.in[:win], st, false) != "" }, "")
						}
						w.trans++
						w.Tick(true)
					}
				}
			}
		}
	})
	e.Sample(fmt.Sprintf("%s, input %q: steps (window, room, atEOF) {3 2 false} {1 64 false} {rest 64 true}", c.name, small[len(small)/2]))
}

// geometry runs with a constant window and room, growing only when stuck.
func (x *trun) geometry(w *Worker, win, d int) {
	t := x.c.make()
	pos, cw, cd := 0, win, d
	x.out = x.out[:0]
	var steps []step
	for k := 0; k < 200+4*len(x.in); k++ {
		s := step{win: cw, dst: cd}
		if s.win >= len(x.in)-pos {
			s.win, s.eof = len(x.in)-pos, true
		}
		steps = append(steps, s)
		n, done, bad := x.one(t, pos, s)
		w.trans++
		if bad != "" {
			in := append([]byte(nil), x.in...)
			w.artefact = savePlan(w.e, artPlan{Kind: x.c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", steps), Data: in, Steps: stepTriples(steps)})
			w.Fail(int64(len(in)), fmt.Sprintf("%s, input %q, steps %v", x.c.name, in, steps), "whole characters that fit", bad, func() bool { return playSteps(x.c, in, steps, false) != "" }, "")
		}
		pos += n
		if done {
			want, _ := x.c.all(x.in)
			if !bytes.Equal(want, x.out) {
				w.artefact = savePlan(w.e, artPlan{Kind: x.c.name, Case: fmt.Sprintf("steps (src window, dst, atEOF) %v", steps), Data: x.in, Steps: stepTriples(steps)})
				w.Fail(int64(len(x.in)), fmt.Sprintf("%s, input %q, steps %v", x.c.name, x.in, steps), fmt.Sprintf("%q", want), fmt.Sprintf("%q", x.out), func() bool { return playSteps(x.c, x.in, steps, false) != "" }, "")
			}
			w.traces++
			w.Tick(true)
			return
		}
		cw, cd = win, d
		if n == 0 {
			cw, cd = steps[k].win*2+1, steps[k].dst*2
		}
	}
	w.Fail(int64(len(x.in)), fmt.Sprintf("%s, input %q, steps %v", x.c.name, x.in, steps), "an end", "no progress", nil, "")
}

func C08(e *Eng) {
	contract(e, dec, []string{"A", "\xb0\xa1", "\xa1\xd7", "\xc9\xfe"}, true)
	farSteps(e, true)
}
func C09(e *Eng) {
	contract(e, enc, []string{"A", "가", "§", "\U0002AC00", "\xff", "\xea\xb0", "\xea"}, false)
	farSteps(e, false)
}

// ---- the encoding type through golang.org/x/text, at any length ----

var decC10Units = []string{"\xb0\xa1", "A", "A\xb0\xa1", "\xa1\xd7", "\xc9\xfeA\xa1\xd7\xb0\xa1"}
var encC10Units = []string{"가", "A", "A가", "§\U0001F600", "\ufffd\xffB", "一"}

type chunkSrc struct {
	data []byte
	k    int
	with bool
}

func (s *chunkSrc) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := s.k
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	if s.with && len(s.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// readAllBy reads with a fixed buffer.
func readAllBy(r io.Reader, size, limit int) (out []byte, err error) {
	buf := make([]byte, size)
	for k := 0; k < limit; k++ {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return out, err
		}
	}
	return out, errors.New("no end")
}

func C10(e *Eng) {
	e.level = "model_checking"
	e.assume = []string{"golang.org/x/text v0.14.0 drives the transformers as released", "the model of one run is (bytes taken, bytes given), its states are counted per length and period"}
	var lens []int
	for i := 0; i <= e.pick(64, 300); i++ {
		lens = append(lens, i)
	}
	for _, b := range []int{64, 128, 256, 512, 1024, 2048, 4096, 8192, 12288, 16384} {
		for d := -9; d <= 9; d++ {
			lens = append(lens, b+d)
			if b >= 1024 {
				lens = append(lens, b*2/3+d, b/3+d, b*3/2+d)
			}
		}
	}
	if e.thorough() {
		for _, b := range []int{32768, 65536, 131072} {
			for d := -4; d <= 4; d++ {
				lens = append(lens, b+d)
			}
		}
	}
	check := func(w *Worker, name string, in, got []byte, err error, want []byte, ok, partial bool, body string) {
		w.traces++
		w.trans += int64(len(in))
		w.Tick(len(in) > 64)
		w.State(hash64([]byte(name), []byte(fmt.Sprint(len(in)))))
		if !ok {
			// the truncated input must be reported; what came before it is
			// delivered by the streaming entry points
			if err == cp949.ErrCP949UnexpectedStream && (!partial || bytes.Equal(got, want)) {
				return
			}
		} else if err == nil && bytes.Equal(got, want) {
			return
		}
		w.Fail(int64(len(in)), fmt.Sprintf("%s of %d bytes %q", name, len(in), clip(string(in))), fmt.Sprintf("%d bytes %q, truncated=%v", len(want), clip(string(want)), !ok),
			fmt.Sprintf("%d bytes %q, %v", len(got), clip(string(got)), err), nil, body)
	}
	e.Par("decoder", fmt.Sprintf("%d lengths (0..%d and around 1/3, 2/3, 1, 3/2 of 64..16384), %d periods, 5 alignments; Bytes, String, Reader over chunks 1,7,512,4095,4096,4097,all with buffers 1,100,4096,10000", len(lens), e.pick(64, 300), len(decC10Units)), len(lens), func(w *Worker, i int) {
		n := lens[len(lens)-1-i]
		enc := cp949.NewCP949Encoding()
		for _, u := range decC10Units {
			for al := 0; al < 5; al++ {
				if al > n {
					continue
				}
				in := []byte(strings.Repeat("x", al) + strings.Repeat(u, n/len(u)+1))[:n]
				w.Desc(func() string { return fmt.Sprintf("decoding %d bytes: %d x, then period %q", n, al, u) })
				want, ok := refFrom(nil, in)
				test := fmt.Sprintf("package replay\n\nimport (\n\t\"io\"\n\t\"strings\"\n\t\"testing\"\n\n\t\"github.com/suapapa/go_hangul/encoding/cp949\"\n)\n\nfunc TestReplay(t *testing.T) {\n\tin := (strings.Repeat(\"x\", %d) + strings.Repeat(%q, %d))[:%d]\n\twant, werr := cp949.From([]byte(in))\n\tout, err := io.ReadAll(cp949.NewCP949Encoding().NewDecoder().Reader(strings.NewReader(in)))\n\tif err != werr || err == nil && string(out) != string(want) {\n\t\tt.Errorf(\"got %%d bytes, %%v; want %%d, %%v\", len(out), err, len(want), werr)\n\t}\n}\n", al, u, n/len(u)+1, n)
				b, err := enc.NewDecoder().Bytes(in)
				check(w, "Decoder.Bytes", in, b, err, want, ok, false, test)
				s, err := enc.NewDecoder().String(string(in))
				check(w, "Decoder.String", in, []byte(s), err, want, ok, false, test)
				for _, ch := range []int{1, 7, 512, 4095, 4096, 4097, 1 << 20} {
					if ch == 1 && n > 5000 {
						continue
					}
					for k, bs := range []int{1, 100, 4096, 10000} {
						if bs == 1 && n > 5000 {
							continue
						}
						out, err := readAllBy(enc.NewDecoder().Reader(&chunkSrc{in, ch, k%2 == 0}), bs, 4*n+100)
						check(w, fmt.Sprintf("Decoder.Reader (chunks %d, buffer %d)", ch, bs), in, out, err, want, ok, true, test)
					}
				}
				// one decoder value used again and again
				d := enc.NewDecoder()
				for k := 0; k < 2; k++ {
					b, err := d.Bytes(in)
					check(w, "Decoder.Bytes, same decoder", in, b, err, want, ok, false, test)
				}
			}
		}
	})
	e.Par("encoder", fmt.Sprintf("%d lengths, %d periods, 5 alignments; Bytes, String, Writer in parts of 1,7,512,4095,4096,4097,all", len(lens), len(encC10Units)), len(lens), func(w *Worker, i int) {
		n := lens[len(lens)-1-i]
		encd := cp949.NewCP949Encoding()
		for _, u := range encC10Units {
			for al := 0; al < 5; al++ {
				if al > n {
					continue
				}
				in := []byte(strings.Repeat("x", al) + strings.Repeat(u, n/len(u)+1))[:n]
				w.Desc(func() string { return fmt.Sprintf("encoding %d bytes: %d x, then period %q", n, al, u) })
				want, _ := refTo(nil, in, false)
				test := fmt.Sprintf("package replay\n\nimport (\n\t\"io\"\n\t\"strings\"\n\t\"testing\"\n\n\t\"github.com/suapapa/go_hangul/encoding/cp949\"\n)\n\nfunc TestReplay(t *testing.T) {\n\tin := (strings.Repeat(\"x\", %d) + strings.Repeat(%q, %d))[:%d]\n\twant, _ := cp949.To([]byte(in))\n\tvar b strings.Builder\n\tw := cp949.NewCP949Encoding().NewEncoder().Writer(&b)\n\t_, err := io.WriteString(w, in)\n\tif err == nil {\n\t\terr = w.(io.Closer).Close()\n\t}\n\tif err != nil || b.String() != string(want) {\n\t\tt.Errorf(\"got %%d bytes, %%v; want %%d\", b.Len(), err, len(want))\n\t}\n}\n", al, u, n/len(u)+1, n)
				b, err := encd.NewEncoder().Bytes(in)
				check(w, "Encoder.Bytes", in, b, err, want, true, false, test)
				s, err := encd.NewEncoder().String(string(in))
				check(w, "Encoder.String", in, []byte(s), err, want, true, false, test)
				for _, ch := range []int{1, 7, 512, 4095, 4096, 4097, 1 << 20} {
					if ch == 1 && n > 5000 {
						continue
					}
					var o bytes.Buffer
					wr := encd.NewEncoder().Writer(&o)
					var err error
					for p := in; len(p) > 0 && err == nil; {
						k := ch
						if k > len(p) {
							k = len(p)
						}
						var m int
						m, err = wr.Write(p[:k])
						if err == nil && m != k {
							err = fmt.Errorf("Write of %d returned %d", k, m)
						}
						p = p[k:]
					}
					if err == nil {
						if c, ok := wr.(io.Closer); ok {
							err = c.Close()
						}
					}
					check(w, fmt.Sprintf("Encoder.Writer (parts of %d)", ch), in, o.Bytes(), err, want, true, true, test)
				}
				en := encd.NewEncoder()
				for k := 0; k < 2; k++ {
					b, err := en.Bytes(in)
					check(w, "Encoder.Bytes, same encoder", in, b, err, want, true, false, test)
				}
			}
		}
	})
	configs := [][4]int{{1000, 777, 1237, 1001}, {1 << 20, 1 << 20, 100, 1 << 20}, {4096, 4095, 4096, 4097}, {1, 1 << 20, 611, 7}, {1 << 20, 3, 3000, 5000}, {4097, 511, 1, 4096}}
	e.Par("interleaved", fmt.Sprintf("two decoders and two encoders of one encoding value, stepped alternately over different long texts, all 256 orders of 8 turns, %d choices of chunks, buffers and parts", len(configs)), 256*len(configs), func(w *Worker, i int) {
		cf := configs[i/256]
		i %= 256
		enc := cp949.NewCP949Encoding()
		a := []byte(strings.Repeat("A\xb0\xa1", 2200))
		b := []byte(strings.Repeat("\xa1\xd7", 3100))
		c := []byte(strings.Repeat("가a", 2300))
		r1, r2 := enc.NewDecoder().Reader(&chunkSrc{a, cf[0], false}), enc.NewDecoder().Reader(&chunkSrc{b, cf[1], true})
		var o1, o2 []byte
		var o3, o4 bytes.Buffer
		w3, w4 := enc.NewEncoder().Writer(&o3), enc.NewEncoder().Writer(&o4)
		buf := make([]byte, cf[2])
		w.Desc(func() string { return fmt.Sprintf("interleaved decoders and encoders, order %08b, sizes %v", i, cf) })
		p3, p4 := c, []byte(strings.Repeat("§", 4000))
		put := func(wr io.Writer, p *[]byte) {
			k := cf[3]
			if k > len(*p) {
				k = len(*p)
			}
			wr.Write((*p)[:k])
			*p = (*p)[k:]
		}
		done := 0
		for k := 0; done < 2 && k < 400; k++ {
			if i>>uint(k%8)&1 == 0 {
				n, err := r1.Read(buf)
				o1 = append(o1, buf[:n]...)
				if err != nil {
					done |= 1
				}
				put(w3, &p3)
			} else {
				n, err := r2.Read(buf)
				o2 = append(o2, buf[:n]...)
				if err != nil {
					done |= 1
				}
				put(w4, &p4)
			}
			w.trans++
			if done == 1 && k > 200 {
				break
			}
		}
		rest := func(r io.Reader, o []byte) []byte { x, _ := io.ReadAll(r); return append(o, x...) }
		o1, o2 = rest(r1, o1), rest(r2, o2)
		w3.Write(p3)
		w4.Write(p4)
		w3.(io.Closer).Close()
		w4.(io.Closer).Close()
		w1, _ := refFrom(nil, a)
		w2, _ := refFrom(nil, b)
		e3, _ := refTo(nil, c, false)
		e4, _ := refTo(nil, []byte(strings.Repeat("§", 4000)), false)
		if !bytes.Equal(o1, w1) || !bytes.Equal(o2, w2) || !bytes.Equal(o3.Bytes(), e3) || !bytes.Equal(o4.Bytes(), e4) {
			w.Fail(int64(i), fmt.Sprintf("interleaved decoders and encoders, order %08b, sizes %v", i, cf), "each as if alone", "a difference", nil, "")
		}
		w.traces++
		w.Tick(true)
	})
	moreC10(e)
	e.Sample("4096 bytes \\xb0\\xa1 repeated through Decoder.Reader, chunks of 4095, buffer 4096 = 6144 bytes of 가")
}
