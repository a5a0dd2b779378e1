package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

const cpImport = "\n\t\"github.com/suapapa/go_hangul/encoding/cp949\"\n"

func fromTest(in, want []byte, ok bool) string {
	if !ok {
		return rtest(cpImport, fmt.Sprintf("\tout, err := cp949.From([]byte(%q))\n\tif out != nil || err != cp949.ErrCP949UnexpectedStream {\n\t\tt.Errorf(\"got %%q, %%v\", out, err)\n\t}\n", in))
	}
	return rtest(cpImport, fmt.Sprintf("\tout, err := cp949.From([]byte(%q))\n\tif string(out) != %q || err != nil {\n\t\tt.Errorf(\"got %%q, %%v\", out, err)\n\t}\n", in, want))
}

func toTest(in, want []byte) string {
	return rtest(cpImport, fmt.Sprintf("\tout, err := cp949.To([]byte(%q))\n\tif string(out) != %q || err != nil {\n\t\tt.Errorf(\"got %%q, %%v\", out, err)\n\t}\n", in, want))
}

// one checks one call; the buffers are reused by the caller.
type coder struct {
	w        *Worker
	in, want []byte
}

func newCoder(w *Worker) *coder {
	c := &coder{w: w}
	w.Desc(func() string { return fmt.Sprintf("input %q", clip(string(c.in))) })
	return c
}

func (c *coder) from(in []byte) {
	c.in = in
	var ok bool
	c.want, ok = refFrom(c.want[:0], in)
	got, err := cp949.From(in)
	if ok && (err != nil || !bytes.Equal(got, c.want)) || !ok && (err != cp949.ErrCP949UnexpectedStream || got != nil) {
		in2, want2 := append([]byte(nil), in...), append([]byte(nil), c.want...)
		ws := fmt.Sprintf("%q", clip(string(want2)))
		if !ok {
			ws = "nil, ErrCP949UnexpectedStream"
		}
		c.w.Fail(int64(len(in)), fmt.Sprintf("From(%q)", clip(string(in))), ws, fmt.Sprintf("%q, %v", clip(string(got)), err), func() bool {
			got, err := cp949.From(in2)
			return ok && (err != nil || !bytes.Equal(got, want2)) || !ok && (err != cp949.ErrCP949UnexpectedStream || got != nil)
		}, fromTest(in2, want2, ok))
	}
	c.w.Tick(len(in) > 0 && (!ok || len(got) != len(in)))
}

func (c *coder) to(in []byte) {
	c.in = in
	c.want, _ = refTo(c.want[:0], in, false)
	got, err := cp949.To(in)
	if err != nil || !bytes.Equal(got, c.want) {
		in2, want2 := append([]byte(nil), in...), append([]byte(nil), c.want...)
		c.w.Fail(int64(len(in)), fmt.Sprintf("To(%q)", clip(string(in))), fmt.Sprintf("%q", clip(string(want2))), fmt.Sprintf("%q, %v", clip(string(got)), err), func() bool {
			got, err := cp949.To(in2)
			return err != nil || !bytes.Equal(got, want2)
		}, toTest(in2, want2))
	}
	c.w.Tick(len(in) > 0 && !bytes.Equal(got, in))
}

// allBytes runs f on all byte strings of exactly n bytes.
func allBytes(e *Eng, name string, n int, f func(c *coder, in []byte)) {
	items := 1
	for i := 0; i < n && i < 2; i++ {
		items *= 256
	}
	e.Par(name, fmt.Sprintf("all 256^%d byte strings of length %d", n, n), items, func(w *Worker, i int) {
		c := newCoder(w)
		in := make([]byte, n)
		if n > 0 {
			in[0] = byte(i)
		}
		if n > 1 {
			in[1] = byte(i >> 8)
		}
		var rec func(k int)
		rec = func(k int) {
			if k >= n {
				f(c, in)
				return
			}
			for b := 0; b < 256; b++ {
				in[k] = byte(b)
				rec(k + 1)
			}
		}
		rec(2)
	})
}

// allStrings runs f on all strings of 1..depth tokens.
func allStrings(e *Eng, name, space string, tokens []string, depth int, f func(c *coder, in []byte)) {
	n := len(tokens)
	e.Par(name, fmt.Sprintf("all strings of 1..%d tokens over %d: %s", depth, n, space), n*n, func(w *Worker, i int) {
		c := newCoder(w)
		var buf [256]byte
		in := append(buf[:0], tokens[i%n]...)
		if i/n == 0 {
			f(c, in)
		}
		if depth == 1 {
			return
		}
		in = append(in, tokens[i/n]...)
		var rec func(d int, in []byte)
		rec = func(d int, in []byte) {
			f(c, in)
			if d == 0 {
				return
			}
			for _, t := range tokens {
				rec(d-1, append(in, t...))
			}
		}
		rec(depth-2, in)
	})
}

// allLengths runs f on periodic inputs of every length.
func allLengths(e *Eng, name string, units []string, max int, f func(c *coder, in []byte)) {
	e.Par(name, fmt.Sprintf("periodic inputs of every length 0..%d bytes, %d periods, 3 first tokens, cut at every byte", max, len(units)), max+1, func(w *Worker, i int) {
		c := newCoder(w)
		for _, pre := range []string{"", "a", "\xb0\xa1"} {
			for _, u := range units {
				in := append(make([]byte, 0, i+16), pre...)
				for len(in) < i {
					in = append(in, u...)
				}
				f(c, in[:i])
			}
		}
	})
}

// runs puts two pieces into runs of fillers.
func runs(e *Eng, fillers, tokens, second []string, f func(c *coder, in []byte)) {
	e.Par("runs", fmt.Sprintf("two pieces, of %d and %d, inside runs of 0..40, 0..20 and 0..20 of %d fillers", len(tokens), len(second), len(fillers)), 41*21, func(w *Worker, i int) {
		c := newCoder(w)
		var buf [1024]byte
		for _, fl := range fillers {
			pre, mid := strings.Repeat(fl, i/21), strings.Repeat(fl, i%21)
			for _, a := range tokens {
				for _, b := range second {
					in := append(append(append(append(buf[:0], pre...), a...), mid...), b...)
					for k := 0; k <= 20; k++ {
						f(c, in)
						in = append(in, fl...)
					}
				}
			}
		}
	})
}

// rows runs f on words in turn, which the caller keeps in one buffer.
func rows(e *Eng, call string, tokens []string, f func(c *coder, in []byte)) {
	var c *coder
	buf := make([]byte, 4096)
	inARow(e, call, tokens, func(w *Worker, s string) {
		if c == nil {
			c = &coder{w: w}
		}
		f(c, buf[:copy(buf, s)])
	})
}

// sizes runs f on large periodic inputs.
func sizes(e *Eng, units []string, f func(c *coder, in []byte)) {
	big := bigSizes(e.pick(22, 24))
	e.Par("sizes", fmt.Sprintf("periodic inputs of %d sizes, around powers of two up to 2^%d bytes, %d periods, 3 first tokens", len(big), e.pick(22, 24), len(units)), len(big)*len(units), func(w *Worker, i int) {
		c := newCoder(w)
		n, u := big[len(big)-1-i/len(units)], units[i%len(units)]
		for _, pre := range []string{"", "a", "\xb0\xa1"} {
			in := append(make([]byte, 0, n+16), pre...)
			for len(in) < n {
				in = append(in, u...)
			}
			f(c, in[:n])
			w.Poll()
		}
	})
}

// neighbours runs f on texts which have every ordered pair of the n
// characters beside each other; put appends one of them.
func neighbours(e *Eng, n int, put func(b []byte, i int) []byte, f func(c *coder, in []byte)) {
	e.Par("neighbours", fmt.Sprintf("every ordered pair of the %d assigned characters beside each other, inside texts a b a c a d ...", n), n, func(w *Worker, i int) {
		i = n - 1 - i
		c := newCoder(w)
		var in []byte
		for j := i; j < n; j++ {
			in = put(put(in, i), j)
		}
		f(c, put(in, i))
		w.evals += 2*int64(n-i) - 1
		w.nontriv += 2*int64(n-i) - 1
		w.Poll()
	})
}

var decBytes = []string{"\x00", "A", "Z", "[", "z", "\x7f", "\x80", "\x81", "\xa1", "\xb0", "\xc6", "\xc9", "\xfe", "\xff"}
var decUnits = []string{"a", "\xb0\xa1", "\xb0\xa1a", "\xb0\xa1\xa1\xd7", "\xff\xff", "\xb0\xa1\xff\xff\xa1\xd7ab", "\x81", "a\x81A"}

// decSpecial are byte sequences which other decoders and stages of text
// processing take for more than their characters: the make-up sequence of KS X
// 1001, shifts and escapes of ISO 2022, HZ, GB 18030, line ends, byte order
// marks, entities and the like.
var decSpecial = []string{"a", "\xb0\xa1", "\xa4\xd4", "\xa4\xa1", "\xa4\xbf", "\xa4\xa4", "\x1b$)C", "\x1b", "\x0e", "\x0f", "\r\n", "\r", "\n", "\t", "\x00", "\x1a", "~{", "~}", "\\", "&#44032;", "%uAC00", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xa1\xa1", "\xa1\xad", "\xa2\xe6", "\xa2\xe8", "\xc9\xa1", "\xfe\xfe", "\x81\x30\x81\x30", "\x8f\xa1\xa1", "\xcb\xd0", "\xa3\xdc"}

var decMakeUp = []string{"\xa4\xd4", "\xa4\xa1", "\xa4\xbe", "\xa4\xbf", "\xa4\xd3", "\xa4\xd5", "\xb0\xa1", "a", "\xa4"}

// encSpecial are the same for texts: letters which compose, fillers, joiners,
// selectors, marks, other widths and forms, line ends, escapes.
var encSpecial = []string{"a", "가", "각", "ᄀ", "ᅡ", "ᆨ", "\u115f", "\u1160", "\u302e", "ㄱ", "ㅏ", "\u3164", "\u200d", "\u200b", "\u2060", "\ufe0f", "\ufe00", "\u0301", "\u0308", "\ufeff", "\ufffe", "\U0001F1F0", "\U0001F1F7", "\U0001F3FB", "ﾡ", "ￂ", "Ａ", "\r\n", "\r", "\n", "\u0085", "\u2028", "\x00", "&#44032;", "\x1b$)C", "\x0e", "ﬁ", "㎏", "①", "\uf90a", "金", "~", "₩", "￦", "\\", "\u00ad", "\u2212", "\u2013", "\u2014", "\u2015", "·", "・", "ㆍ", "\ue000", "\u00a0", "\u3000"}

func C01(e *Eng) {
	e.rule = "one case per input, enumerated without repetition per harness; non-trivial if the output differs from the input in length or the input is truncated"
	e.assume = []string{"the CP949 table of Python's codec (17,048 pairs)"}
	for n := 0; n <= e.pick(3, 4); n++ {
		allBytes(e, fmt.Sprintf("length %d", n), n, (*coder).from)
	}
	depth := e.pick(5, 7)
	allStrings(e, "class bytes", "boundary bytes of every class of lead, trail and ASCII", decBytes, depth, (*coder).from)
	e.Par("every pair everywhere", "all 32,768 pairs with a lead from 0x80, at every offset 0..40 in four fillers, with a tail of 0..3 bytes", 0x8000, func(w *Worker, i int) {
		c := newCoder(w)
		hi, lo := byte(0x80+i>>8), byte(i)
		var buf [256]byte
		for _, fill := range []string{"a", "\xb0\xa1", "\xb0\xa1b", "\xc9\xa1"} {
			in := buf[:0]
			for len(in) < 40 {
				x := append(in, hi, lo)
				c.from(x)
				x = append(x, 'q')
				c.from(x)
				x = append(x, 0xC8)
				c.from(x)
				x = append(x, 0xFE)
				c.from(x)
				in = append(in, fill...)
			}
		}
	})
	allStrings(e, "sequences", "byte sequences with a meaning of their own elsewhere", decSpecial, e.pick(4, 5), (*coder).from)
	allStrings(e, "make-up sequences", "the filler and letters of the KS X 1001 make-up sequence", decMakeUp, e.pick(7, 8), (*coder).from)
	allLengths(e, "every length", decUnits, e.pick(4200, 12000), (*coder).from)
	runs(e, []string{"a", "\xb0\xa1", "\x81A", "\xc9\xa1"}, append([]string{"\xb0\xa1", "\x81A", "\xff\xff", "\xb0\x00", "\x80\x80", "\xa1\xd7", "\xc6R", "\xfe\xa1"}, decBytes...), []string{"", "b", "\x80", "\xff", "\xb0\xa1", "\xfd\xfe", "\x81["}, (*coder).from)
	rows(e, "cp949.From([]byte(%q))", []string{"a", "\xb0\xa1", "\xb0\xa2", "\x81A", "\xff\xff", "\xb0"}, (*coder).from)
	sizes(e, decUnits, (*coder).from)
	foreignWords(e, (*coder).from)
	neighbours(e, len(cpPairs), func(b []byte, i int) []byte { return append(b, byte(cpPairs[i].code>>8), byte(cpPairs[i].code)) }, (*coder).from)
	e.Seq("all pairs in one", "all 32,768 pairs in one input, ascending, descending, and the 65,536 byte strings of length 2 each repeated after a fixed text", func(w *Worker) {
		c := newCoder(w)
		var up, down []byte
		for i := 0; i < 0x8000; i++ {
			up = append(up, byte(0x80+i>>8), byte(i))
			j := 0x7FFF - i
			down = append(down, byte(0x80+j>>8), byte(j))
		}
		c.from(up)
		c.from(down)
		for i := 0; i < 0x10000; i++ {
			c.from([]byte{byte(i >> 8), byte(i)})
			c.from([]byte{byte(i), byte(i >> 8)})
			c.from([]byte("\xb0\xa1"))
		}
	})
	for _, s := range []string{"\xb0\xa1", "\xc9A\n", "a\x81", "\xff\xff"} {
		out, err := cp949.From([]byte(s))
		e.Sample(fmt.Sprintf("From(%q) = %q, %v", s, out, err))
	}
}

var encBytes = []string{"A", "\x7f", "\x80", "\x90", "\xa0", "\xb0", "\xbf", "\xc1", "\xc2", "\xdf", "\xe0", "\xea", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xff"}
var encTokens = []string{"a", "\n", "가", "힣", "§", "é", "漢", "一", "\ufffd", "\ufeff", "\uffe6", "\uffe7", "\uac00", "\u00a1", "\u00a0", "\uf8f7", "\U0001ac00", "\U0002AC00", "\U0001F600", "\U0010FFFF", "\xff", "\x80", "\xea", "\xea\xb0", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80"}
var encUnits = []string{"a", "가", "§", "가a", "\ufffd", "\U0002AC00", "\xff", "a가§\U0001F600\xffb", "\u0800", "\ue000"}

func C02(e *Eng) {
	e.rule = "one case per input, enumerated without repetition per harness; non-trivial if the output differs from the input"
	e.assume = []string{"the CP949 table of Python's codec (17,048 pairs)", "well-formedness of UTF-8 by table 3-7 of the Unicode standard"}
	e.Par("each rune", "every Unicode scalar value: alone and in four contexts", 0x1100, func(w *Worker, i int) {
		c := newCoder(w)
		var buf [64]byte
		for j := 0; j < 256; j++ {
			r := rune(i*256 + j)
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			var u [4]byte
			n := utf8.EncodeRune(u[:], r)
			c.to(u[:n])
			c.to(append(append(append(buf[:0], "가"...), u[:n]...), "§"...))
			c.to(append(append(append(buf[:0], "a\xea"...), u[:n]...), 'b'))
			c.to(append(append(buf[:0], u[:n]...), u[:n]...))
			if n > 1 {
				c.to(u[:n-1])
			}
		}
	})
	for n := 0; n <= e.pick(3, 4); n++ {
		allBytes(e, fmt.Sprintf("length %d", n), n, (*coder).to)
	}
	allStrings(e, "class bytes", "boundary bytes of every class of UTF-8", encBytes, e.pick(5, 6), (*coder).to)
	allStrings(e, "class tokens", "representable and unrepresentable characters of every width, ill-formed and truncated pieces", encTokens, e.pick(4, 5), (*coder).to)
	allStrings(e, "sequences", "composing letters, fillers, joiners, selectors, marks, other widths and forms, line ends, escapes", encSpecial, e.pick(4, 5), (*coder).to)
	allLengths(e, "every length", encUnits, e.pick(4200, 12000), (*coder).to)
	runs(e, []string{"a", "가", "é", "\U0001F600"}, append(append([]string{}, encTokens...), "\x81", "\xc3", "\xe0\xa0", "\xf4\x8f\xbf"), []string{"", "b", "\x80", "\xff", "가", "\xea\xb0", "\U0002AC00", "\xc2"}, (*coder).to)
	rows(e, "cp949.To([]byte(%q))", []string{"a", "가", "각", "§", "\U0001F600", "\xea\xb0"}, (*coder).to)
	sizes(e, encUnits, (*coder).to)
	foreignWords(e, (*coder).to)
	neighbours(e, len(cpPairs), func(b []byte, i int) []byte { return utf8.AppendRune(b, cpPairs[i].r) }, (*coder).to)
	e.Seq("all runes in one", "all scalar values in one input, ascending and descending; chains r, r with one bit flipped, r", func(w *Worker) {
		c := newCoder(w)
		var up, down []byte
		for r := rune(0); r <= 0x10FFFF; r++ {
			if r < 0xD800 || r >= 0xE000 {
				up = utf8.AppendRune(up, r)
			}
			if d := 0x10FFFF - r; d < 0xD800 || d >= 0xE000 {
				down = utf8.AppendRune(down, d)
			}
		}
		c.to(up)
		c.to(down)
		w.repeat = true
		for i := 0; i < len(cpPairs); i += e.pick(5, 1) {
			r := cpPairs[i].r
			for k := uint(0); k < 21; k++ {
				o := r ^ 1<<k
				if o > 0x10FFFF || o >= 0xD800 && o < 0xE000 {
					continue
				}
				c.to([]byte(string(r)))
				c.to([]byte(string(o)))
				c.to([]byte(string(r) + string(o) + string(r)))
			}
		}
	})
	for _, s := range []string{"가", "\ufffd", "\U0002AC00", "\xea\xb0"} {
		out, err := cp949.To([]byte(s))
		e.Sample(fmt.Sprintf("To(%q) = %q, %v", s, out, err))
	}
}

// entry points as functions, for the round trips

type entry struct {
	name string
	f    func([]byte) ([]byte, error)
}

func decReaderAll(in []byte) ([]byte, error) {
	r, err := cp949.NewReader(bytes.NewReader(in))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func encWriterAll(in []byte) ([]byte, error) {
	var b bytes.Buffer
	w, err := cp949.NewWriter(&b)
	if err != nil {
		return nil, err
	}
	_, err = w.Write(in)
	return b.Bytes(), err
}

var decoders = []entry{
	{"From", cp949.From},
	{"NewReader", decReaderAll},
	{"Decoder.Bytes", func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewDecoder().Bytes(b) }},
	{"Decoder.String", func(b []byte) ([]byte, error) {
		s, err := cp949.NewCP949Encoding().NewDecoder().String(string(b))
		return []byte(s), err
	}},
	{"Decoder.Reader", func(b []byte) ([]byte, error) {
		return io.ReadAll(cp949.NewCP949Encoding().NewDecoder().Reader(bytes.NewReader(b)))
	}},
}
var encoders = []entry{
	{"To", cp949.To},
	{"NewWriter", encWriterAll},
	{"Encoder.Bytes", func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewEncoder().Bytes(b) }},
	{"Encoder.String", func(b []byte) ([]byte, error) {
		s, err := cp949.NewCP949Encoding().NewEncoder().String(string(b))
		return []byte(s), err
	}},
	{"Encoder.Writer", func(b []byte) ([]byte, error) {
		var o bytes.Buffer
		w := cp949.NewCP949Encoding().NewEncoder().Writer(&o)
		if _, err := w.Write(b); err != nil {
			return nil, err
		}
		if c, ok := w.(io.Closer); ok {
			if err := c.Close(); err != nil {
				return nil, err
			}
		}
		return o.Bytes(), nil
	}},
}

func C03(e *Eng) {
	e.rule = "one case per (text, direction, entry points); enumerated without repetition per harness; non-trivial if the text has a two-byte character"
	e.assume = []string{"which pairs and characters are assigned: the CP949 table of Python's codec"}
	trip := func(w *Worker, first, second entry, in []byte, dir string) {
		mid, err := first.f(in)
		var out []byte
		var err2 error
		if err == nil {
			out, err2 = second.f(mid)
		}
		if err != nil || err2 != nil || !bytes.Equal(out, in) {
			in2 := append([]byte(nil), in...)
			body := ""
			if first.name == "From" && second.name == "To" || first.name == "To" && second.name == "From" {
				body = rtest(cpImport, fmt.Sprintf("\tmid, _ := cp949.%s([]byte(%q))\n\tif out, _ := cp949.%s(mid); string(out) != %q {\n\t\tt.Errorf(\"got %%q by way of %%q\", out, mid)\n\t}\n", first.name, in2, second.name, in2))
			}
			w.Fail(int64(len(in)), fmt.Sprintf("%s(%s(%q)) [%s]", second.name, first.name, clip(string(in)), dir), fmt.Sprintf("%q", clip(string(in))),
				fmt.Sprintf("%q %v %v by way of %q", clip(string(out)), err, err2, clip(string(mid))), func() bool {
					m, e1 := first.f(in2)
					o, e2 := second.f(m)
					return e1 != nil || e2 != nil || !bytes.Equal(o, in2)
				}, body)
		}
		w.Tick(len(mid) != len(in))
	}
	e.Par("single", "all 17,048 pairs and their characters, alone and between ASCII, through all 5*5 combinations of entry points, both directions", len(cpPairs), func(w *Worker, i int) {
		p := cpPairs[i]
		code := []byte{byte(p.code >> 8), byte(p.code)}
		text := []byte(string(p.r))
		w.Desc(func() string { return fmt.Sprintf("pair %q, text %q", code, text) })
		for _, d := range decoders {
			for _, c := range encoders {
				trip(w, d, c, code, "decode, encode")
				trip(w, c, d, text, "encode, decode")
			}
		}
		trip(w, decoders[0], encoders[0], []byte("a"+string(code)+"b"), "decode, encode")
		trip(w, encoders[0], decoders[0], []byte("a"+string(text)+"b"), "encode, decode")
	})
	e.Seq("one to one", "all 65,536 byte pairs: exactly the 17,048 assigned ones decode to one character other than U+FFFD, all different; all 11,172 syllables are among them", func(w *Worker) {
		seen := map[string]int{}
		for i := 0x8000; i < 0x10000; i++ {
			in := []byte{byte(i >> 8), byte(i)}
			out, err := cp949.From(in)
			if err != nil || utf8.RuneCount(out) != 1 {
				w.Fail(int64(i), fmt.Sprintf("From(%q)", in), "one character", fmt.Sprintf("%q, %v", out, err), nil, "")
			}
			if string(out) == "\ufffd" {
				if cpDec[i] != 0 {
					w.Fail(int64(i), fmt.Sprintf("From(%q)", in), string(cpDec[i]), "U+FFFD", nil, fromTest(in, []byte(string(cpDec[i])), true))
				}
				continue
			}
			if j, dup := seen[string(out)]; dup {
				w.Fail(int64(i), fmt.Sprintf("From of %#x and %#x", j, i), "different characters", fmt.Sprintf("both %q", out), nil, "")
			}
			seen[string(out)] = i
			w.Tick(true)
		}
		for s := rune(0xAC00); s <= 0xD7A3; s++ {
			if _, ok := seen[string(s)]; !ok {
				w.Fail(int64(s), fmt.Sprintf("decodings that give %c", s), "one", "none", nil, "")
			}
		}
		if len(seen) != 17048 {
			w.Fail(0, "number of assigned pairs", "17048", fmt.Sprint(len(seen)), nil, "")
		}
	})
	var cls []cpPair // a class alphabet: the ends of every row and block
	for i, p := range cpPairs {
		if i == 0 || i == len(cpPairs)-1 || cpPairs[i-1].code+1 != p.code && cpPairs[i-1].code>>8 != p.code>>8 || i%e.pick(400, 60) == 0 {
			cls = append(cls, p)
		}
	}
	n := len(cls)
	e.Par("ordered pairs", fmt.Sprintf("all ordered pairs over %d representable characters (row ends and a sweep), with and without ASCII between, both directions", n), n, func(w *Worker, i int) {
		w.Desc(func() string { return fmt.Sprintf("%#x with others", cls[i].code) })
		for j := range cls {
			a, b := cls[i], cls[j]
			ca := string([]byte{byte(a.code >> 8), byte(a.code)})
			cb := string([]byte{byte(b.code >> 8), byte(b.code)})
			trip(w, decoders[0], encoders[0], []byte(ca+cb), "decode, encode")
			trip(w, encoders[0], decoders[0], []byte(string(a.r)+string(b.r)), "encode, decode")
			trip(w, decoders[0], encoders[0], []byte(ca+"x"+cb+ca), "decode, encode")
			trip(w, encoders[0], decoders[0], []byte(string(a.r)+"x"+string(b.r)+string(a.r)), "encode, decode")
		}
	})
	e.Par("all in one", "the text of all 17,048 characters and all ASCII, rotated by 0..63 characters, through all combinations of entry points", 64, func(w *Worker, i int) {
		w.Desc(func() string { return fmt.Sprintf("all characters rotated by %d", i) })
		var code, text []byte
		for k := range cpPairs {
			p := cpPairs[(k+i)%len(cpPairs)]
			code = append(code, byte(p.code>>8), byte(p.code))
			text = append(text, string(p.r)...)
			if k%(3+i) == 0 {
				code = append(code, byte(k%128))
				text = append(text, byte(k%128))
			}
		}
		for _, d := range decoders {
			for _, c := range encoders {
				trip(w, d, c, code, "decode, encode")
				trip(w, c, d, text, "encode, decode")
			}
			w.Poll()
		}
	})
	e.Sample(fmt.Sprintf("pair %#x <-> %c", cpPairs[0].code, cpPairs[0].r))
	e.Sample(fmt.Sprintf("pair %#x <-> %c", cpPairs[17047].code, cpPairs[17047].r))
}
