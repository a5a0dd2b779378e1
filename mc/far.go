package main

// Very long histories: what is counted in 31 or 32 bits - bytes of a stream,
// reads, writes, calls - comes round in them. Each is one history, made up so
// that it is cheap, and every result in it is looked at.

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

const (
	farBlock = 1 << 16
	around   = 1 << 17 // as far beyond a power of two as a history goes
)

// farText is a text of n blocks: letters of one byte, but for the blocks
// before and after 2^k bytes, which have other characters, and one across.
type farText struct {
	plain, before, after []byte
	outPlain, outRich    []byte
	blocks               int64
}

func special(j int64) bool { return j >= 4 && j&(j-1) == 0 } // 2^k, and so is j+1 never

func (t *farText) in(j int64) []byte {
	switch {
	case special(j):
		return t.after
	case special(j + 1):
		return t.before
	}
	return t.plain
}

// farWant compares an output, part by part, with what it must be.
type farWant struct {
	t    *farText
	next int64
	cur  []byte
	at   int64
}

func (x *farWant) put(p []byte) (bad string) {
	for len(p) > 0 {
		if len(x.cur) == 0 {
			if x.next >= x.t.blocks {
				return fmt.Sprintf("%d bytes too many, after %d", len(p), x.at)
			}
			if special(x.next + 1) {
				x.cur = x.t.outRich
				x.next += 2
			} else {
				x.cur = x.t.outPlain
				x.next++
			}
		}
		n := len(p)
		if n > len(x.cur) {
			n = len(x.cur)
		}
		if !bytes.Equal(p[:n], x.cur[:n]) {
			for p[0] == x.cur[0] {
				p, x.cur = p[1:], x.cur[1:]
				x.at++
				n--
			}
			return fmt.Sprintf("%q instead of %q, after %d bytes that are right", clip(string(p[:n])), clip(string(x.cur[:n])), x.at)
		}
		p, x.cur = p[n:], x.cur[n:]
		x.at += int64(n)
	}
	return ""
}

func (x *farWant) missing() bool { return len(x.cur) > 0 || x.next < x.t.blocks }

func farDecText(blocks int64) *farText {
	t := &farText{blocks: blocks}
	for i := 0; i < farBlock; i++ {
		t.plain = append(t.plain, byte('a'+i%26))
	}
	// one letter, and pairs of which the last is across
	u := "\xb0\xa1\xb3\xaa\xa1\xd7\xc9\xfe"
	rich := []byte("x" + strings.Repeat(u, farBlock/8))
	t.before = rich[:farBlock]
	t.after = append(append(append(t.after, rich[farBlock:]...), t.plain[:farBlock/2-1]...), strings.Repeat(u, farBlock/16)...)
	t.outPlain = t.plain
	var ok bool
	t.outRich, ok = refFrom(nil, append(append([]byte(nil), t.before...), t.after...))
	if !ok || len(t.after) != farBlock {
		panic("farDecText")
	}
	return t
}

func farEncText(blocks int64) *farText {
	t := &farText{blocks: blocks}
	for i := 0; i < farBlock; i++ {
		t.plain = append(t.plain, byte('a'+i%26))
	}
	u := "가나§x\U0002AC00\ufffd" // 16 bytes
	t.before = []byte(strings.Repeat("x", 14) + strings.Repeat(u, farBlock/16-1) + "\xea\xb0")
	t.after = append(append(append(t.after, 0x80), t.plain[:farBlock/2-1]...), strings.Repeat(u, farBlock/32)...)
	t.outPlain = t.plain
	t.outRich, _ = refTo(nil, append(append([]byte(nil), t.before...), t.after...), false)
	if len(t.before) != farBlock || len(t.after) != farBlock {
		panic("farEncText")
	}
	return t
}

// farSource gives the blocks of a text, one by one.
type farSource struct {
	t   *farText
	j   int64
	cur []byte
}

func (s *farSource) Read(p []byte) (int, error) {
	if len(s.cur) == 0 {
		if s.j >= s.t.blocks {
			return 0, io.EOF
		}
		s.cur = s.t.in(s.j)
		s.j++
	}
	n := copy(p, s.cur)
	s.cur = s.cur[n:]
	return n, nil
}

// farLimit ends a history that takes too long.
type farLimit struct {
	w     *Worker
	until time.Time
	n     int
}

func newFarLimit(w *Worker) *farLimit {
	return &farLimit{w: w, until: time.Now().Add(time.Duration(w.e.pick(120, 3600)) * time.Second)}
}

// over is asked often.
func (l *farLimit) over() bool {
	if l.n++; l.n&0xFFFF != 0 {
		return false
	}
	return l.slow()
}

func (l *farLimit) slow() bool {
	l.w.Poll()
	if time.Now().After(l.until) {
		l.w.e.capped.Store(true)
		return true
	}
	return false
}

type farCase struct {
	name string
	run  func(l *farLimit) (bad string, steps int64)
}

// farSizes are the lengths of streams, in blocks.
func farBlocks(e *Eng, deep bool) int64 {
	if strconv.IntSize == 32 || !deep && !e.thorough() {
		return 1<<31/farBlock + around/farBlock
	}
	return 1<<32/farBlock + around/farBlock
}

func farPar(e *Eng, what string, cases []farCase) {
	var names []string
	for _, c := range cases {
		names = append(names, c.name)
	}
	e.Par("very long", what+": "+strings.Join(names, "; "), len(cases), func(w *Worker, i int) {
		c := cases[i]
		w.Desc(func() string { return c.name })
		w.Tick(true)
		bad, steps := c.run(newFarLimit(w))
		w.trans += steps
		if e.level == "model_checking" {
			w.traces++
		}
		if bad != "" {
			w.Fail(int64(i), c.name, "the same results all the time", bad, nil, "")
		}
	})
}

// farReader: streams of more than 2^32 bytes, and 2^31 reads of one byte.
func farReader(e *Eng) {
	read := func(name string, blocks int64, buf, first int, open func(io.Reader) io.Reader) farCase {
		return farCase{fmt.Sprintf("%s, %d bytes, with a buffer of %d", name, blocks*farBlock, buf), func(l *farLimit) (string, int64) {
			t := farDecText(blocks)
			x := &farWant{t: t}
			r := open(&farSource{t: t})
			p := make([]byte, buf)
			if first > 0 {
				// which makes room inside for more
				q := make([]byte, first)
				n, err := r.Read(q)
				if bad := x.put(q[:n]); bad != "" || err != nil {
					return fmt.Sprint(bad, err), 1
				}
			}
			for k := int64(1); ; k++ {
				n, err := r.Read(p)
				if n > 0 {
					if bad := x.put(p[:n]); bad != "" {
						return fmt.Sprintf("read #%d: %s", k, bad), k
					}
				}
				if err != nil {
					if err != io.EOF || x.missing() {
						return fmt.Sprintf("read #%d: error %v after %d bytes", k, err, x.at), k
					}
					return "", k
				}
				if buf >= 4096 {
					if l.slow() {
						return "", k
					}
				} else if l.over() {
					return "", k
				}
			}
		}}
	}
	dec := func(r io.Reader) io.Reader { return theEnc.NewDecoder().Reader(r) }
	l := []farCase{read("NewReader", farBlocks(e, true), farBlock, 0, memReader)}
	if strconv.IntSize == 64 || e.thorough() {
		l = append(l, read("NewReader", farBlocks(e, false), 1, farBlock, memReader))
	}
	if e.thorough() {
		l = append(l, read("NewReader", farBlocks(e, false), 3, 0, memReader), read("NewReader", farBlocks(e, false), 4096, 0, memReader),
			read("Decoder.Reader", farBlocks(e, true), farBlock, 0, dec))
	}
	farPar(e, "histories whose number of bytes, or of reads, passes 2^31 or 2^32; characters of more than a byte before, across and after each power of two", l)
}

// farWriter: the same for writers.
func farWriter(e *Eng) {
	write := func(name string, blocks int64, size int, open func(io.Writer) io.Writer) farCase {
		return farCase{fmt.Sprintf("%s, %d bytes, %d at a time", name, blocks*farBlock, size), func(l *farLimit) (string, int64) {
			t := farEncText(blocks)
			x := &farWant{t: t}
			bad := ""
			w := open(funcSink(func(p []byte) (int, error) {
				if b := x.put(p); b != "" && bad == "" {
					bad = b
				}
				return len(p), nil
			}))
			k := int64(0)
			for j := int64(0); j < blocks; j++ {
				for b := t.in(j); len(b) > 0; {
					n := size
					if n > len(b) {
						n = len(b)
					}
					k++
					m, err := w.Write(b[:n])
					if m != n || err != nil {
						return fmt.Sprintf("write #%d of %d bytes, after %d: %d, %v", k, n, j*farBlock, m, err), k
					}
					if bad != "" {
						return fmt.Sprintf("write #%d: the sink got %s", k, bad), k
					}
					b = b[n:]
				}
				if l.slow() {
					return "", k
				}
			}
			if c, ok := w.(io.Closer); ok {
				c.Close()
			}
			if x.missing() {
				return fmt.Sprintf("the sink got %d bytes only", x.at), k
			}
			return "", k
		}}
	}
	enc := func(w io.Writer) io.Writer { return theEnc.NewEncoder().Writer(w) }
	l := []farCase{write("NewWriter", farBlocks(e, true), farBlock, memWriter)}
	if strconv.IntSize == 64 || e.thorough() {
		l = append(l, write("NewWriter", farBlocks(e, false), 1, memWriter))
	}
	if e.thorough() {
		l = append(l, write("NewWriter", farBlocks(e, true), 5, memWriter), write("Encoder.Writer", farBlocks(e, true), farBlock, enc))
	}
	farPar(e, "histories whose number of bytes, or of writes, passes 2^31 or 2^32; characters of more than a byte before, across and after each power of two", l)
}

// farSteps: one transformer for 2^31 steps of one byte, and 2^32 bytes.
func farSteps(e *Eng, decode bool) {
	if !e.thorough() {
		return
	}
	step := func(blocks int64, size int) farCase {
		return farCase{fmt.Sprintf("%d bytes, %d at a time", blocks*farBlock, size), func(l *farLimit) (string, int64) {
			t := farDecText(blocks)
			tr := theEnc.NewDecoder().Transformer
			if !decode {
				t = farEncText(blocks)
				tr = theEnc.NewEncoder().Transformer
			}
			x := &farWant{t: t}
			dst := make([]byte, 4*farBlock)
			win := make([]byte, 0, 2*farBlock)
			k := int64(0)
			for j := int64(0); j < blocks; j++ {
				for b := t.in(j); len(b) > 0; {
					n := size
					if n > len(b) {
						n = len(b)
					}
					win = append(win, b[:n]...)
					b = b[n:]
					k++
					nd, ns, err := tr.Transform(dst, win, false)
					if bad := x.put(dst[:nd]); bad != "" {
						return fmt.Sprintf("step #%d: %s", k, bad), k
					}
					if err != nil && err != transform.ErrShortSrc || ns < len(win)-3 || (err == nil) != (ns == len(win)) {
						return fmt.Sprintf("step #%d: %d of %q taken, %v", k, ns, clip(string(win)), err), k
					}
					win = win[:copy(win, win[ns:])]
				}
				if l.slow() {
					return "", k
				}
			}
			if x.missing() {
				return fmt.Sprintf("%d bytes of output only", x.at), k
			}
			return "", k
		}}
	}
	farPar(e, "histories of one transformer whose number of bytes, or of steps, passes 2^31", []farCase{step(1<<31/farBlock+2, 1), step(1<<31/farBlock+2, farBlock)})
}

// farCalls: each function so often that a number of calls of 31 bits (in the
// thorough tier 32) comes round.
func farCalls(e *Eng) {
	n := int64(1)<<uint(e.pick(31, 32)) + around
	calls := func(name string, f func() string) farCase {
		// the arguments vary with nothing but time
		return farCase{name, func(l *farLimit) (string, int64) {
			for k := int64(0); k < n; k += farBlock {
				if bad := f(); bad != "" {
					return fmt.Sprintf("between calls %d and %d: %s", k, k+farBlock, bad), k
				}
				if l.slow() {
					return "", k
				}
			}
			return "", n
		}}
	}
	r3 := func(name string, r rune, f func(rune) (rune, rune, rune)) farCase {
		wl, wm, wt := f(r)
		return calls(fmt.Sprintf("%s(%#x)", name, r), func() string {
			for i := 0; i < farBlock; i++ {
				if l, m, t := f(r); l != wl || m != wm || t != wt {
					return fmt.Sprintf("%#x %#x %#x instead of %#x %#x %#x", l, m, t, wl, wm, wt)
				}
			}
			return ""
		})
	}
	r1 := func(name string, r rune, f func(rune) rune) farCase {
		want := f(r)
		return calls(fmt.Sprintf("%s(%#x)", name, r), func() string {
			for i := 0; i < farBlock; i++ {
				if x := f(r); x != want {
					return fmt.Sprintf("%#x instead of %#x", x, want)
				}
			}
			return ""
		})
	}
	is := func(name string, r rune, f func(rune) bool) farCase {
		want := f(r)
		return calls(fmt.Sprintf("%s(%#x)", name, r), func() string {
			for i := 0; i < farBlock; i++ {
				if f(r) != want {
					return fmt.Sprintf("%v instead of %v", !want, want)
				}
			}
			return ""
		})
	}
	str := func(name, in string, f func(string) string) farCase {
		want := f(in)
		return calls(fmt.Sprintf("%s(%q)", name, in), func() string {
			for i := 0; i < farBlock; i++ {
				if s := f(in); s != want {
					return fmt.Sprintf("%q instead of %q", s, want)
				}
			}
			return ""
		})
	}
	data := func(name, in string, f func([]byte) ([]byte, error)) farCase {
		b := []byte(in)
		x, werr := f(b)
		want := string(x)
		return calls(fmt.Sprintf("%s(%q)", name, in), func() string {
			for i := 0; i < farBlock; i++ {
				if x, err := f(b); string(x) != want || err != werr {
					return fmt.Sprintf("%q, %v instead of %q, %v", x, err, want, werr)
				}
			}
			return ""
		})
	}
	join := calls("Join(0x1112, 0x1161, 0x11ab)", func() string {
		for i := 0; i < farBlock; i++ {
			if r := hangul.Join(0x1112, 0x1161, 0x11ab); r != 0xD55C {
				return fmt.Sprintf("%#x", r)
			}
		}
		return ""
	})
	l := []farCase{
		data("cp949.From", "a", cp949.From), data("cp949.To", "a", cp949.To),
		str("hanja.Convert", "a", hanja.Convert),
		r1("Stroke", 0x3131, func(r rune) rune { return rune(hangul.Stroke(r)) }),
		r3("SplitCompat", 0xD55C, hangul.SplitCompat),
		join,
		is("hanja.IsHanja", 0x5927, hanja.IsHanja), r1("CompatJamo", 0x1100, hangul.CompatJamo),
		r1("Lead", 0x3131, hangul.Lead), r1("Medial", 0x314F, hangul.Medial), r1("Tail", 0x3131, hangul.Tail),
		r1("LastConsonant", 0xD55C, func(rune) rune { return hangul.LastConsonant("한") }),
		is("EndsWithConsonant", 0xD55C, func(rune) bool { return hangul.EndsWithConsonant("한") }),
		is("IsHangul", 0xD55C, hangul.IsHangul), is("IsJaeum", 0x3131, hangul.IsJaeum), is("IsMoeum", 0x314F, hangul.IsMoeum),
		r3("Split", 0xD55C, hangul.Split),
		is("IsLead", 0x1100, hangul.IsLead), is("IsMedial", 0x1161, hangul.IsMedial), is("IsTail", 0x11A8, hangul.IsTail),
		is("SplitMultiElement", 'a', func(r rune) bool { _, ok := hangul.SplitMultiElement(r); return ok }),
	}
	if e.thorough() {
		l = append(l, data("cp949.From", "\xb0\xa1", cp949.From), data("cp949.From", "\xb0", cp949.From), data("cp949.To", "가", cp949.To), data("cp949.To", "\xea", cp949.To),
			str("hanja.Convert", "大", hanja.Convert), r1("Stroke", 0xD55C, func(r rune) rune { return rune(hangul.Stroke(r)) }),
			str("AppendPostposition", "한", func(s string) string { return hangul.AppendPostposition(s, "이", "가") }),
			is("SplitMultiElement", 0x3133, func(r rune) bool { m, ok := hangul.SplitMultiElement(r); return ok && len(m) == 2 }),
			data("NewReader", "", func([]byte) ([]byte, error) { _, err := cp949.NewReader(nil); return nil, err }),
			data("NewWriter", "", func([]byte) ([]byte, error) { _, err := cp949.NewWriter(nil); return nil, err }))
	}
	farPar(e, fmt.Sprintf("each of these calls %d times in a row", n), l)
}
