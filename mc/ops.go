package main

// The operation menu shared by X01 (histories), X02 (schedules) and X03
// (open streams): one op is one call, or one short conversation with a stream,
// of the three packages with fixed arguments. Every op knows its result from
// the reference model, so it is the same whatever was called before.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// Ctx belongs to one goroutine making calls.
type Ctx struct {
	kept []kept
	args [][]byte

	markArgs, markKept int

	one []byte // the buffer for every argument, for a caller that has only one
}

type kept struct {
	op   *Op
	what string
	b    []byte
	r    []rune
	wb   []byte
	wr   []rune
	s    string // of a result that is a string
	ws   string
}

// Op is one entry of the menu.
type Op struct {
	name string
	src  string // Go statements replaying it; they call t.Errorf
	run  func(c *Ctx) string
}

// arg makes a private copy of in with slack behind it, and check says whether
// the copy or the slack was changed.
func (c *Ctx) arg(in string) ([]byte, func() string) {
	var b []byte
	if c.one != nil {
		b = c.one[:len(in)+8]
	} else {
		b = make([]byte, len(in)+8)
	}
	copy(b, in)
	for i := len(in); i < len(b); i++ {
		b[i] = 0xB7
	}
	c.args = append(c.args, b)
	return b[:len(in)], func() string {
		if string(b[:len(in)]) != in {
			return fmt.Sprintf("the argument %q was changed to %q", in, b[:len(in)])
		}
		for _, x := range b[len(in):] {
			if x != 0xB7 {
				return fmt.Sprintf("memory behind the argument %q was written", in)
			}
		}
		return ""
	}
}

// recheck looks again at every result kept so far.
func (c *Ctx) recheck() string {
	for i := range c.kept {
		k := &c.kept[i]
		if k.r != nil {
			if !eqRunes(k.r, k.wr) {
				return fmt.Sprintf("the result of %s, returned before, changed from %q to %q", k.what, k.wr, k.r)
			}
		} else if k.ws != "" {
			if k.s != k.ws {
				return fmt.Sprintf("the result of %s, returned before, changed from %q to %q", k.what, k.ws, clip(k.s))
			}
		} else if !bytes.Equal(k.b, k.wb) {
			return fmt.Sprintf("the result of %s, returned before, changed from %q to %q", k.what, k.wb, k.b)
		}
	}
	return ""
}

// spoil overwrites everything the caller owns: arguments and results, the
// results up to their capacity as an append would.
func (c *Ctx) spoil() {
	for _, a := range c.args {
		for i := range a {
			a[i] = 0xD9
		}
	}
	for _, k := range c.kept {
		b := k.b[:cap(k.b)]
		for i := range b {
			b[i] = 0xD8
		}
		r := k.r[:cap(k.r)]
		for i := range r {
			r[i] = 'ㅋ'
		}
	}
	c.args, c.kept = c.args[:0], c.kept[:0]
}

// start remembers what the caller owns before an op.
func (c *Ctx) mark() { c.markArgs, c.markKept = len(c.args), len(c.kept) }

// spoilLast overwrites what came since the mark, and says whether anything
// older changed by that.
func (c *Ctx) spoilLast() string {
	oldA, oldK := c.args[:c.markArgs], c.kept[:c.markKept]
	c.args, c.kept = c.args[c.markArgs:], c.kept[c.markKept:]
	c.spoil()
	c.args, c.kept = oldA, oldK
	return c.recheck()
}

// spoilFirst overwrites what the caller still owns one by one, oldest first,
// up to the capacity, and says whether anything newer changed by that.
func (c *Ctx) spoilFirst() string {
	all := c.kept
	defer func() { c.kept = all }()
	for i := range all {
		if i > 3 && i < len(all)-2 {
			continue
		}
		k := &all[i]
		b := k.b[:cap(k.b)]
		for i := range b {
			b[i] = 0xD8
		}
		r := k.r[:cap(k.r)]
		for i := range r {
			r[i] = 'ㅋ'
		}
		c.kept = all[i+1:]
		if m := c.recheck(); m != "" {
			return fmt.Sprintf("the caller overwrote the result of %s (and appended to it), and %s", k.what, m)
		}
	}
	return ""
}

func (c *Ctx) keepBytes(what string, b []byte) {
	c.kept = append(c.kept, kept{what: what, b: b, wb: append([]byte(nil), b...)})
}

// keepString keeps a string, which may be over memory that is used again.
func (c *Ctx) keepString(what, s, want string) {
	c.kept = append(c.kept, kept{what: what, s: s, ws: want})
}

func mismatch(call string, got, want interface{}) string {
	return fmt.Sprintf("%s = %v, expected %v", call, show(got), show(want))
}

func show(x interface{}) string {
	switch v := x.(type) {
	case []byte:
		return fmt.Sprintf("%q", clip(string(v)))
	case string:
		return fmt.Sprintf("%q", clip(v))
	}
	return fmt.Sprint(x)
}

func opVal(call string, want interface{}, f func() interface{}) *Op {
	src := fmt.Sprintf("if got := fmt.Sprint(%s); got != %q {\n\t\tt.Errorf(%q, %q, got, %q)\n\t}", call, fmt.Sprint(want), "%s = %s, expected %s", call, fmt.Sprint(want))
	return &Op{name: call, src: src, run: func(c *Ctx) string {
		got := f()
		if got != want {
			return mismatch(call, got, want)
		}
		if s, ok := got.(string); ok && s != "" {
			c.keepString(call, s, want.(string))
		}
		return ""
	}}
}

type triple [3]rune

func opSplit(r rune) *Op {
	x := ref(r)
	want := triple{x.l, x.m, x.t}
	return opVal2(fmt.Sprintf("hangul.Split(%#x)", r), want, func() triple { l, m, t := hangul.Split(r); return triple{l, m, t} })
}

func opSplitCompat(r rune) *Op {
	x := ref(r)
	want := triple{ref(x.l).compat, ref(x.m).compat, ref(x.t).compat}
	return opVal2(fmt.Sprintf("hangul.SplitCompat(%#x)", r), want, func() triple { l, m, t := hangul.SplitCompat(r); return triple{l, m, t} })
}

func opVal2(call string, want triple, f func() triple) *Op {
	src := fmt.Sprintf("if l, m, tl := %s; l != %#x || m != %#x || tl != %#x {\n\t\tt.Errorf(\"%%s = %%x %%x %%x, expected %x\", %q, l, m, tl)\n\t}", call, want[0], want[1], want[2], want, call)
	return &Op{name: call, src: src, run: func(c *Ctx) string {
		if got := f(); got != want {
			return fmt.Sprintf("%s = %x, expected %x", call, got, want)
		}
		return ""
	}}
}

func opJoin(l, m, t rune) *Op {
	return opVal(fmt.Sprintf("hangul.Join(%#x, %#x, %#x)", l, m, t), refJoin(l, m, t), func() interface{} { return hangul.Join(l, m, t) })
}

func opPreds(r rune) *Op {
	x := ref(r)
	lead, med, tail := x.flags&fLead != 0, x.flags&fMedial != 0, x.flags&fTail != 0
	cons, vow := x.flags&(fLead|fTail|fCompCons) != 0, x.flags&(fMedial|fCompVow) != 0
	type six [6]bool
	want := six{lead, med, tail, cons, vow, cons || vow || x.flags&fSyll != 0}
	call := fmt.Sprintf("[]bool{hangul.IsLead(%#[1]x), hangul.IsMedial(%#[1]x), hangul.IsTail(%#[1]x), hangul.IsJaeum(%#[1]x), hangul.IsMoeum(%#[1]x), hangul.IsHangul(%#[1]x)}", r)
	return opVal(call, want, func() interface{} {
		return six{hangul.IsLead(r), hangul.IsMedial(r), hangul.IsTail(r), hangul.IsJaeum(r), hangul.IsMoeum(r), hangul.IsHangul(r)}
	})
}

func opConv(r rune) *Op {
	x := ref(r)
	type four [4]rune
	want := four{x.compat, x.lead, x.medial, x.tail}
	call := fmt.Sprintf("[]rune{hangul.CompatJamo(%#[1]x), hangul.Lead(%#[1]x), hangul.Medial(%#[1]x), hangul.Tail(%#[1]x)}", r)
	return opVal(call, want, func() interface{} {
		return four{hangul.CompatJamo(r), hangul.Lead(r), hangul.Medial(r), hangul.Tail(r)}
	})
}

func opMulti(r rune) *Op {
	want := ref(r).elems
	call := fmt.Sprintf("hangul.SplitMultiElement(%#x)", r)
	src := fmt.Sprintf("if es, ok := %s; string(es) != %q || ok != %v {\n\t\tt.Errorf(\"%%s = %%q %%v\", %q, es, ok)\n\t}", call, string(want), want != nil, call)
	return &Op{name: call, src: src, run: func(c *Ctx) string {
		got, ok := hangul.SplitMultiElement(r)
		if !eqRunes(got, want) || ok != (want != nil) {
			return fmt.Sprintf("%s = %q %v, expected %q %v", call, got, ok, want, want != nil)
		}
		if got != nil {
			c.kept = append(c.kept, kept{what: call, r: got, wr: append([]rune(nil), got...)})
		}
		return ""
	}}
}

func opStroke(r rune) *Op {
	return opVal(fmt.Sprintf("hangul.Stroke(%#x)", r), ref(r).stroke, func() interface{} { return hangul.Stroke(r) })
}

func opLast(w string) *Op {
	want, _ := refLast(w)
	type two struct {
		r rune
		b bool
	}
	call := fmt.Sprintf("hangul.LastConsonant(%q)", w)
	src := fmt.Sprintf("if got, e := %s, hangul.EndsWithConsonant(%q); got != %#x || e != %v {\n\t\tt.Errorf(\"%%s = %%x, EndsWithConsonant %%v\", %q, got, e)\n\t}", call, w, want, want != 0, call)
	return &Op{name: call, src: src, run: func(c *Ctx) string {
		got := two{hangul.LastConsonant(w), hangul.EndsWithConsonant(w)}
		if got != (two{want, want != 0}) {
			return mismatch(call+" and EndsWithConsonant", got, two{want, want != 0})
		}
		return ""
	}}
}

func opPost(w, with, without string) *Op {
	last, _ := refLast(w)
	p := with
	if last == 0 || last == 0x11AF && with == "으로" {
		p = without
	}
	return opVal(fmt.Sprintf("hangul.AppendPostposition(%q, %q, %q)", w, with, without), w+p, func() interface{} { return hangul.AppendPostposition(w, with, without) })
}

func opConvert(s string) *Op {
	return opVal(fmt.Sprintf("hanja.Convert(%q)", s), string(refConvert(nil, s)), func() interface{} { return hanja.Convert(s) })
}

func opIsHanja(r rune) *Op {
	return opVal(fmt.Sprintf("hanja.IsHanja(%#x)", r), refIsHanja(r), func() interface{} { return hanja.IsHanja(r) })
}

// opBytes is a call taking and giving bytes. call has %s for the argument.
func opBytes(call, in string, want []byte, wantErr error, partial bool, f func(in []byte) ([]byte, error)) *Op {
	name := fmt.Sprintf(call, fmt.Sprintf("[]byte(%q)", clip(in)))
	full := fmt.Sprintf(call, fmt.Sprintf("[]byte(%q)", in))
	en := "nil"
	if wantErr != nil {
		en = errName(wantErr)
	}
	src := fmt.Sprintf("if out, err := %s; err != %s || err == nil && string(out) != %q {\n\t\tt.Errorf(\"%%s = %%q, %%v\", %q, out, err)\n\t}", full, en, want, name)
	return &Op{name: name, src: src, run: func(c *Ctx) string {
		a, check := c.arg(in)
		out, err := f(a)
		if err != wantErr || (err == nil || partial) && !bytes.Equal(out, want) {
			return fmt.Sprintf("%s = %q, %v, expected %q, %v", name, clip(string(out)), err, clip(string(want)), wantErr)
		}
		if s := check(); s != "" {
			return name + ": " + s
		}
		if len(out) > 0 {
			// the result must not share memory with the argument
			k := len(c.kept)
			c.keepBytes(name, out)
			full := a[:len(a)+8]
			for i := range full {
				full[i] ^= 0xFF
			}
			shared := !bytes.Equal(out, c.kept[k].wb)
			for i := range full {
				full[i] ^= 0xFF
			}
			if shared {
				return name + ": the result shares memory with the argument"
			}
		}
		return ""
	}}
}

func errName(err error) string {
	switch err {
	case nil:
		return "nil"
	case io.EOF:
		return "io.EOF"
	case cp949.ErrCP949UnexpectedStream:
		return "cp949.ErrCP949UnexpectedStream"
	case transform.ErrShortDst:
		return "transform.ErrShortDst"
	case transform.ErrShortSrc:
		return "transform.ErrShortSrc"
	}
	return "errSource"
}

func opFrom(in string) *Op {
	want, ok := refFrom(nil, []byte(in))
	if !ok {
		return opBytes("cp949.From(%s)", in, nil, cp949.ErrCP949UnexpectedStream, false, cp949.From)
	}
	return opBytes("cp949.From(%s)", in, want, nil, false, cp949.From)
}

func opTo(in string) *Op {
	want, _ := refTo(nil, []byte(in), false)
	return opBytes("cp949.To(%s)", in, want, nil, false, cp949.To)
}

// theEnc is the encoding value everybody shares.
var theEnc = cp949.NewCP949Encoding()

func opDecode(kind, in string) *Op {
	want, ok := refFrom(nil, []byte(in))
	var werr error
	if !ok {
		werr = cp949.ErrCP949UnexpectedStream
	}
	switch kind {
	case "Bytes":
		return opBytes("theEnc.NewDecoder().Bytes(%s)", in, want, werr, false, func(b []byte) ([]byte, error) { return theEnc.NewDecoder().Bytes(b) })
	case "String":
		return opString("decString(%s)", in, want, werr, decString)
	case "Reader":
		return opBytes("decReaderAll(%s)", in, want, werr, true, func(b []byte) ([]byte, error) {
			return readAllBy(theEnc.NewDecoder().Reader(&onebyte{b}), 3, 4*len(b)+16)
		})
	}
	panic(kind)
}

func decString(s string) (string, error) { return theEnc.NewDecoder().String(s) }

// opString is a call taking and giving a string; the replayed source takes
// and gives bytes.
func opString(call, in string, want []byte, wantErr error, f func(in string) (string, error)) *Op {
	op := opBytes(call, in, want, wantErr, false, nil)
	ws := string(want)
	op.run = func(c *Ctx) string {
		out, err := f(in)
		if err != wantErr || err == nil && out != ws {
			return fmt.Sprintf("%s = %q, %v, expected %q, %v", op.name, clip(out), err, clip(ws), wantErr)
		}
		if err == nil && out != "" {
			c.keepString(op.name, out, ws)
		}
		return ""
	}
	return op
}

func opEncode(kind, in string) *Op {
	want, _ := refTo(nil, []byte(in), false)
	switch kind {
	case "Bytes":
		return opBytes("theEnc.NewEncoder().Bytes(%s)", in, want, nil, false, func(b []byte) ([]byte, error) { return theEnc.NewEncoder().Bytes(b) })
	case "String":
		return opString("encString(%s)", in, want, nil, func(s string) (string, error) { return theEnc.NewEncoder().String(s) })
	case "Writer":
		return opBytes("encWriterAll(%s)", in, want, nil, true, encWriterParts)
	}
	panic(kind)
}

func encWriterParts(b []byte) ([]byte, error) {
	var sink bytes.Buffer
	w := theEnc.NewEncoder().Writer(&sink)
	for len(b) > 0 {
		n := 2
		if n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return nil, err
		}
		b = b[n:]
	}
	if c, ok := w.(io.Closer); ok {
		if err := c.Close(); err != nil {
			return nil, err
		}
	}
	return sink.Bytes(), nil
}

// onebyte hands out one byte at a time.
type onebyte struct{ b []byte }

func (s *onebyte) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = s.b[0]
	s.b = s.b[1:]
	return 1, nil
}

// splitSrc hands out parts and then an error.
type splitSrc struct {
	parts [][]byte
	end   error
}

func (s *splitSrc) Read(p []byte) (int, error) {
	if len(s.parts) == 0 {
		return 0, s.end
	}
	n := copy(p, s.parts[0])
	if s.parts[0] = s.parts[0][n:]; len(s.parts[0]) == 0 {
		s.parts = s.parts[1:]
	}
	return n, nil
}

func opReader(in string, cutAt, size int, end error) *Op {
	want, ok := refFrom(nil, []byte(in))
	werr := end
	if end == io.EOF {
		werr = nil
		if !ok {
			werr = cp949.ErrCP949UnexpectedStream
		}
	}
	name := fmt.Sprintf("readStream(%%s, %d, %d, %s)", cutAt, size, errName(end))
	return opBytes(name, in, want, werr, true, func(b []byte) ([]byte, error) {
		return readStream(b, cutAt, size, end)
	})
}

func readStream(b []byte, cutAt, size int, end error) ([]byte, error) {
	r, err := cp949.NewReader(&splitSrc{[][]byte{b[:cutAt], b[cutAt:]}, end})
	if err != nil {
		return nil, err
	}
	return readAllBy(r, size, 8*len(b)+32)
}

func opWriter(in string, cutAt int, failAt int) *Op {
	want, _ := refTo(nil, []byte(in), true)
	name := fmt.Sprintf("writeStream(%%s, %d, %d)", cutAt, failAt)
	return opBytes(name, in, want, nil, true, func(b []byte) ([]byte, error) { return writeStream(b, cutAt, failAt) })
}

type failSink struct {
	bytes.Buffer
	n, failAt int
}

func (s *failSink) Write(p []byte) (int, error) {
	s.n++
	called(false)
	defer called(true)
	if s.n == s.failAt {
		return 0, errSink
	}
	return s.Buffer.Write(p)
}

// writeStream writes b in two parts; a write that fails is repeated.
func writeStream(b []byte, cutAt, failAt int) ([]byte, error) {
	sink := &failSink{failAt: failAt}
	w, err := cp949.NewWriter(sink)
	if err != nil {
		return nil, err
	}
	for _, p := range [][]byte{b[:cutAt], b[cutAt:]} {
		n, err := w.Write(p)
		if err == errSink {
			if n != 0 {
				return nil, errors.New("a failed write took something")
			}
			n, err = w.Write(p)
		}
		if err != nil {
			return nil, err
		}
		if n != len(p) {
			return nil, io.ErrShortWrite
		}
	}
	return sink.Buffer.Bytes(), nil
}

func opTransform(c *codec, in string, room int, eof bool) *Op {
	var want []byte
	var werr error
	nsrc := 0
	for nsrc < len(in) {
		size, o := c.char([]byte(in[nsrc:]))
		if size == 0 {
			if !eof {
				werr = transform.ErrShortSrc
				break
			}
			if c.endErr != nil {
				werr = c.endErr
				break
			}
			size, o = 1, question
		}
		if len(want)+len(o) > room {
			werr = transform.ErrShortDst
			break
		}
		want = append(want, o...)
		nsrc += size
	}
	name := fmt.Sprintf("transform with the %s (%%s, room %d, %v)", c.name, room, eof)
	o := opBytes(name, in, want, werr, true, func(b []byte) ([]byte, error) {
		dst := make([]byte, room)
		nd, ns, err := c.make().Transform(dst, b, eof)
		if ns != nsrc {
			return dst[:nd], fmt.Errorf("consumed %d instead of %d, %v", ns, nsrc, err)
		}
		return dst[:nd], err
	})
	o.src = ""
	return o
}

// two texts that exercise every branch of the converters
const cpLong = "\xbe\xc6\xb8\xa7a\xb4\xd9\xbf\xee \xc9\xfe\xa1\xd7\x80\x80\x8cc\xb9\xe6\xb0\xa2\xc7\xcfz"
const hanjaLong = "大韓民國은 民主共和國이다. 모든 權力은 國民으로부터 나온다. 樂園 不知 \u4e0d"
const u8Long = "아름a다운 \u00a0\U0001F600똠\xff방각하\ufffdz"

// longOps is how many ops at the end of the menu are too long for more
// preemptions in the quick tier.
const longOps = 3

var menu []*Op // built by main, after the reference

func buildMenu() []*Op {
	m := []*Op{
		opSplit('한'), opSplit('가'), opSplit('A'), opSplit(0x1D55C), opSplit('힣'),
		opSplitCompat('닭'), opSplitCompat('하'),
		opJoin('ㅎ', 'ㅏ', 'ㄴ'), opJoin('ㅎ', 'ㅏ', 0), opJoin('ㅎ', 'ㅏ', 'ㄸ'), opJoin(0x1112, 0x1161, 0x11AB), opJoin(0x11112, 'ㅏ', 0),
		opPreds('ㄳ'), opPreds(0x11A8), opPreds(0x1110),
		opConv('ㄱ'), opConv('ㅏ'), opConv(0x1100), opConv(0x11A8), opConv(0x13131),
		opMulti('ㄳ'), opMulti(0x11AA), opMulti('ㅙ'), opMulti('ㄱ'), opMulti(0x13133),
		opStroke('ㅞ'), opStroke('뷁'), opStroke('ㄱ'), opStroke('A'), opStroke(0x1BDC1),
		opLast("한국말"), opLast("가"), opLast(""), opLast("말\xeb\xa7"), opLast("a"),
		opPost("서울", "으로", "로"), opPost("집", "으로", "로"), opPost("서울", "이", "가"), opPost("나", "이", "가"),
		opConvert("大韓民國"), opConvert("樂 abc한글"), opConvert("大"), opConvert(""), opConvert("한글 without Hanja"),
		opIsHanja('大'), opIsHanja('가'), opIsHanja(0x25927), opIsHanja('國'),
		opFrom("\xb0\xa1\xb3\xaa"), opFrom("\xb4\xd9"), opFrom("plain"), opFrom("ASCII, a bit longer"), opFrom(""), opFrom("\xb0\xa1\xb3"), opFrom(cpLong), opFrom("\xfe\xff"),
		opTo("가나"), opTo("다"), opTo("plain"), opTo("ASCII, a bit longer"), opTo(""), opTo("가\xeb\x82"), opTo(u8Long), opTo("\U0001F600"), opTo("\U0001AC00"),
		opReader("\xb0\xa1\xb3\xaa", 1, 2, io.EOF), opReader(cpLong, 7, 1, io.EOF), opReader("a\xb0\xa1\xb3", 2, 8, io.EOF), opReader("\xb4\xd9\xb6\xf3", 3, 8, errSource), opReader("", 0, 4, io.EOF),
		opWriter("가나", 1, 0), opWriter(u8Long, 8, 0), opWriter("다라", 4, 2), opWriter("마", 2, 1), opWriter("a\xeb\x82", 2, 0),
		opDecode("Bytes", "\xb0\xa1\xb3\xaa"), opDecode("String", cpLong), opDecode("Reader", "\xb4\xd9a\xb6\xf3"), opDecode("Bytes", "\xb0\xa1\xb3"),
		opEncode("Bytes", "가나"), opEncode("String", u8Long), opEncode("Writer", "다a라"), opEncode("Bytes", "\U0001F600"),
		opTransform(dec, "\xb0\xa1a\xb3", 8, false), opTransform(dec, "\xb0\xa1\xb3\xaa", 4, true), opTransform(enc, "가a\xeb\x82", 8, false), opTransform(enc, "가나", 3, true),
		// these are long; see longOps
		opConvert(hanjaLong), opConvert(strings.Repeat("民國 大韓", 9)), opPost(hanjaLong+"을", "으로", "로"),
	}
	return m
}
