package main

// Sources, sinks, consumers and producers of many kinds: code that treats some
// type or optional interface specially must still convert the same.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
)

// richSrc has every optional method a source may have, and its own last error.
type richSrc struct {
	*bytes.Reader
	end    error
	closed bool
	with   bool
}

func (r *richSrc) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err != nil || r.with && r.Len() == 0 {
		err = r.end
	}
	return n, err
}
func (r *richSrc) ReadByte() (byte, error) {
	b, err := r.Reader.ReadByte()
	if err != nil {
		err = r.end
	}
	return b, err
}
func (r *richSrc) ReadRune() (rune, int, error) {
	c, n, err := r.Reader.ReadRune()
	if err != nil {
		err = r.end
	}
	return c, n, err
}
func (r *richSrc) WriteTo(w io.Writer) (int64, error) {
	n, err := r.Reader.WriteTo(w)
	if err == nil && r.end != io.EOF {
		err = r.end
	}
	return n, err
}
func (r *richSrc) Close() error { r.closed = true; return nil }

// valueSrc is no pointer and cannot be compared.
type valueSrc struct {
	left *[]byte
	end  error
	pad  []int
}

func (s valueSrc) Read(p []byte) (int, error) {
	if len(*s.left) == 0 && len(p) > 0 {
		return 0, s.end
	}
	n := copy(p, *s.left)
	*s.left = (*s.left)[n:]
	return n, nil
}

type funcSrc func(p []byte) (int, error)

func (f funcSrc) Read(p []byte) (int, error) { return f(p) }

type emptySrc struct{}

func (emptySrc) Read(p []byte) (int, error) { return 0, io.EOF }

// srcKind makes a source of one kind; eof says that it can only end with EOF.
type srcKind struct {
	name string
	eof  bool
	f    func(d []byte, end error) (io.Reader, func())
}

func plainSrc(d []byte, end error) io.Reader {
	left := d
	return funcSrc(func(p []byte) (int, error) { return valueSrc{left: &left, end: end}.Read(p) })
}

func rd(r io.Reader) (io.Reader, func()) { return r, nil }

var srcKinds = []srcKind{
	{"func", false, func(d []byte, end error) (io.Reader, func()) { return rd(plainSrc(d, end)) }},
	{"value that cannot be compared", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(valueSrc{left: &d, end: end, pad: []int{1}})
	}},
	{"rich type", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(&richSrc{Reader: bytes.NewReader(d), end: end})
	}},
	{"rich type, error with data", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(&richSrc{Reader: bytes.NewReader(d), end: end, with: len(d) > 0})
	}},
	{"*bytes.Reader", true, func(d []byte, end error) (io.Reader, func()) { return rd(bytes.NewReader(d)) }},
	{"*bytes.Reader, sought", true, func(d []byte, end error) (io.Reader, func()) {
		r := bytes.NewReader(append([]byte("\xb0"), d...))
		r.Seek(1, io.SeekStart)
		return rd(r)
	}},
	{"*bytes.Buffer", true, func(d []byte, end error) (io.Reader, func()) { return rd(bytes.NewBuffer(append([]byte(nil), d...))) }},
	{"bytes.Buffer, half read", true, func(d []byte, end error) (io.Reader, func()) {
		b := bytes.NewBuffer(append([]byte("\xb0"), d...))
		b.ReadByte()
		return rd(b)
	}},
	{"*strings.Reader", true, func(d []byte, end error) (io.Reader, func()) { return rd(strings.NewReader(string(d))) }},
	{"*bufio.Reader of 16", false, func(d []byte, end error) (io.Reader, func()) { return rd(bufio.NewReaderSize(plainSrc(d, end), 16)) }},
	{"*bufio.Reader, half read", false, func(d []byte, end error) (io.Reader, func()) {
		b := bufio.NewReader(plainSrc(append([]byte("\xb0"), d...), end))
		b.ReadByte()
		return rd(b)
	}},
	{"*bufio.ReadWriter", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(bufio.NewReadWriter(bufio.NewReader(plainSrc(d, end)), bufio.NewWriter(io.Discard)))
	}},
	{"io.LimitReader", true, func(d []byte, end error) (io.Reader, func()) {
		return rd(io.LimitReader(strings.NewReader(string(d)+"\xb0\xa1zz"), int64(len(d))))
	}},
	{"io.SectionReader", true, func(d []byte, end error) (io.Reader, func()) {
		return rd(io.NewSectionReader(strings.NewReader("\xb0"+string(d)+"\xa1"), 1, int64(len(d))))
	}},
	{"io.MultiReader", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(io.MultiReader(emptySrc{}, bytes.NewReader(d[:len(d)/2]), strings.NewReader(string(d[len(d)/2:len(d)/2+len(d)/4])), plainSrc(d[len(d)/2+len(d)/4:], end)))
	}},
	{"io.TeeReader", false, func(d []byte, end error) (io.Reader, func()) { return rd(io.TeeReader(plainSrc(d, end), io.Discard)) }},
	{"io.NopCloser", true, func(d []byte, end error) (io.Reader, func()) { return rd(io.NopCloser(bytes.NewReader(d))) }},
	{"iotest.OneByteReader", false, func(d []byte, end error) (io.Reader, func()) { return rd(iotest.OneByteReader(plainSrc(d, end))) }},
	{"iotest.HalfReader", false, func(d []byte, end error) (io.Reader, func()) { return rd(iotest.HalfReader(plainSrc(d, end))) }},
	{"iotest.DataErrReader", false, func(d []byte, end error) (io.Reader, func()) { return rd(iotest.DataErrReader(plainSrc(d, end))) }},
	{"*io.PipeReader", false, func(d []byte, end error) (io.Reader, func()) {
		r, w := io.Pipe()
		go func() {
			w.Write(d[:len(d)/2])
			w.Write(nil)
			w.Write(d[len(d)/2:])
			w.CloseWithError(end)
		}()
		return r, func() { r.Close() }
	}},
	{"*os.File, a pipe", true, func(d []byte, end error) (io.Reader, func()) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() { w.Write(d); w.Close() }()
		return r, func() { r.Close() }
	}},
	{"transform.Reader", false, func(d []byte, end error) (io.Reader, func()) {
		return rd(transform.NewReader(plainSrc(d, end), transform.Nop))
	}},
}

// consumer empties a reader one way; nil means a clean end.
type consumer struct {
	name string
	f    func(r io.Reader, hint int) ([]byte, error)
}

func eofNil(err error) error {
	if err == io.EOF {
		return nil
	}
	return err
}

type plainW struct{ b *[]byte }

func (p plainW) Write(b []byte) (int, error) { *p.b = append(*p.b, b...); return len(b), nil }

type onlyR struct{ io.Reader }

func bySize(n int) func(r io.Reader, hint int) ([]byte, error) {
	return func(r io.Reader, hint int) (out []byte, err error) {
		b := make([]byte, n)
		for i := 0; i < 4*hint+100; i++ {
			m, err := r.Read(b)
			out = append(out, b[:m]...)
			if err != nil {
				return out, eofNil(err)
			}
		}
		return out, fmt.Errorf("no end")
	}
}

var consumers = []consumer{
	{"Read of 1", bySize(1)}, {"Read of 2", bySize(2)}, {"Read of 7", bySize(7)}, {"Read of 4096", bySize(4096)},
	{"io.ReadAll", func(r io.Reader, hint int) ([]byte, error) { return io.ReadAll(r) }},
	{"io.Copy to a plain sink", func(r io.Reader, hint int) (o []byte, err error) {
		n, err := io.Copy(plainW{&o}, r)
		if err == nil && n != int64(len(o)) {
			err = fmt.Errorf("Copy returned %d", n)
		}
		return o, err
	}},
	{"io.Copy to a bytes.Buffer", func(r io.Reader, hint int) ([]byte, error) {
		var b bytes.Buffer
		_, err := io.Copy(&b, r)
		return b.Bytes(), err
	}},
	{"bytes.Buffer.ReadFrom", func(r io.Reader, hint int) ([]byte, error) {
		var b bytes.Buffer
		_, err := b.ReadFrom(r)
		return b.Bytes(), err
	}},
	{"io.Copy to a strings.Builder", func(r io.Reader, hint int) ([]byte, error) {
		var b strings.Builder
		_, err := io.Copy(&b, r)
		return []byte(b.String()), err
	}},
	{"io.CopyBuffer of 5", func(r io.Reader, hint int) (o []byte, err error) {
		_, err = io.CopyBuffer(plainW{&o}, r, make([]byte, 5))
		return o, err
	}},
	{"io.CopyN of the half, then io.Copy", func(r io.Reader, hint int) (o []byte, err error) {
		if _, err = io.CopyN(plainW{&o}, r, int64(hint/2)); err != nil {
			return o, eofNil(err)
		}
		_, err = io.Copy(plainW{&o}, r)
		return o, err
	}},
	{"io.ReadFull of 3, then io.ReadAll", func(r io.Reader, hint int) (o []byte, err error) {
		b := make([]byte, 3)
		n, err := io.ReadFull(r, b)
		if err == io.ErrUnexpectedEOF && n < 3 {
			// ask again for what ended it
			_, err = r.Read(b[:1])
		}
		if err != nil {
			return b[:n], eofNil(err)
		}
		rest, err := io.ReadAll(r)
		return append(b, rest...), err
	}},
	{"one Read of 1, then io.Copy", func(r io.Reader, hint int) (o []byte, err error) {
		b := make([]byte, 1)
		for i := 0; i < 50; i++ {
			n, err := r.Read(b)
			o = append(o, b[:n]...)
			if err != nil {
				return o, eofNil(err)
			}
			if n > 0 {
				break
			}
		}
		_, err = io.Copy(plainW{&o}, r)
		return o, err
	}},
	{"bufio.Reader.ReadRune", func(r io.Reader, hint int) (o []byte, err error) {
		b := bufio.NewReaderSize(r, 16)
		for {
			c, _, err := b.ReadRune()
			if err != nil {
				return o, eofNil(err)
			}
			o = append(o, string(c)...)
		}
	}},
	{"bufio.Reader.ReadString", func(r io.Reader, hint int) (o []byte, err error) {
		b := bufio.NewReader(r)
		for {
			s, err := b.ReadString('A')
			o = append(o, s...)
			if err != nil {
				return o, eofNil(err)
			}
		}
	}},
	{"bufio.Scanner of bytes", func(r io.Reader, hint int) (o []byte, err error) {
		s := bufio.NewScanner(r)
		s.Split(bufio.ScanBytes)
		for s.Scan() {
			o = append(o, s.Bytes()...)
		}
		return o, s.Err()
	}},
	{"optional methods", func(r io.Reader, hint int) (o []byte, err error) {
		if b, ok := r.(io.ByteReader); ok {
			for i := 0; i < 3; i++ {
				c, err := b.ReadByte()
				if err != nil {
					return o, eofNil(err)
				}
				o = append(o, c)
			}
			if u, ok := r.(io.ByteScanner); ok && u.UnreadByte() == nil {
				o = o[:len(o)-1]
			}
		}
		if w, ok := r.(io.WriterTo); ok {
			n, err := w.WriteTo(plainW{&o})
			if err == nil && n < 0 {
				err = fmt.Errorf("WriteTo returned %d", n)
			}
			return o, err
		}
		b, err := io.ReadAll(r)
		return append(o, b...), err
	}},
	{"behind io.LimitReader and io.MultiReader", func(r io.Reader, hint int) ([]byte, error) {
		return io.ReadAll(io.MultiReader(io.LimitReader(r, int64(hint/3)), r))
	}},
}

// kindTexts are short and long inputs for the decoder.
func kindTexts(e *Eng, trunc bool) [][]byte {
	t := dedup(inputs(decStreamTokens, e.pick(6, 7), true))
	for _, u := range []string{"\xb0\xa1", "A\xb0\xa1", "A", "\xc9\xfe\xb0\xa1\n"} {
		for _, n := range []int{15, 16, 17, 100, 511, 512, 513, 4095, 4096, 4097, 8193, 40000} {
			t = append(t, cut(u, n, false), cut(u, n, true))
		}
	}
	var o [][]byte
	for _, d := range t {
		if _, ok := refFrom(nil, d); ok != trunc {
			o = append(o, d)
		}
	}
	return o
}

// readerKinds runs every kind of source through every kind of consumer.
func readerKinds(e *Eng, ends []error, trunc bool) {
	texts := kindTexts(e, trunc)
	if len(ends) > 1 {
		texts = append(texts, kindTexts(e, false)...)
	}
	e.Par("kinds of sources", fmt.Sprintf("%d streams from %d kinds of sources (std types and types with every optional method), ending in %d ways, through %d kinds of consumers, each also twice nested", len(texts), len(srcKinds), len(ends), len(consumers)), len(texts), func(w *Worker, it int) {
		d := texts[len(texts)-1-it]
		want, ok := refFrom(nil, d)
		for _, k := range srcKinds {
			for _, end := range ends {
				if k.eof && end != io.EOF {
					continue
				}
				final := eofNil(end)
				if end == io.EOF && !ok {
					final = cp949.ErrCP949UnexpectedStream
				}
				for _, c := range consumers {
					w.Desc(func() string {
						return fmt.Sprintf("a stream of %q from %s, ending with %v, through %s", clip(string(d)), k.name, end, c.name)
					})
					once := func() ([]byte, error) {
						src, done := k.f(d, end)
						if done != nil {
							defer done()
						}
						r, err := cp949.NewReader(src)
						if err != nil {
							return nil, err
						}
						return c.f(r, len(want))
					}
					got, err := once()
					if !bytes.Equal(got, want) || err != final {
						w.Fail(int64(len(d)), fmt.Sprintf("a stream of %q from %s, ending with %v, through %s", clip(string(d)), k.name, end, c.name), fmt.Sprintf("%q, then %v", clip(string(want)), final), fmt.Sprintf("%q, then %v", clip(string(got)), err), func() bool {
							got, err := once()
							return !bytes.Equal(got, want) || err != final
						}, "")
					}
					w.traces++
					w.trans += int64(len(d))
					w.Tick(len(d) > 1)
				}
			}
			w.Poll()
		}
		// a reader that reads from a reader
		twice, ok2 := refFrom(nil, want)
		for _, end := range ends {
			final := eofNil(end)
			switch {
			case end != io.EOF:
			case !ok:
				final = cp949.ErrCP949UnexpectedStream // from the inner one
			case !ok2:
				final = cp949.ErrCP949UnexpectedStream
			}
			for _, c := range consumers {
				w.Desc(func() string { return fmt.Sprintf("a reader over a reader of %q, through %s", clip(string(d)), c.name) })
				inner, _ := cp949.NewReader(plainSrc(d, end))
				r, _ := cp949.NewReader(inner)
				got, err := c.f(r, len(twice))
				if !bytes.Equal(got, twice) || err != final {
					w.Fail(int64(len(d)), fmt.Sprintf("a reader over a reader of %q ending with %v, through %s", clip(string(d)), end, c.name), fmt.Sprintf("%q, then %v", clip(string(twice)), final), fmt.Sprintf("%q, then %v", clip(string(got)), err), nil, "")
				}
				w.traces++
				w.Tick(true)
			}
		}
	})
	if trunc {
		return
	}
	e.Par("iotest", fmt.Sprintf("testing/iotest.TestReader on %d streams from %d kinds of sources", len(texts), len(srcKinds)), len(texts), func(w *Worker, it int) {
		d := texts[it]
		want, ok := refFrom(nil, d)
		if !ok || len(d) > 5000 {
			return
		}
		for _, k := range srcKinds {
			w.Desc(func() string {
				return fmt.Sprintf("iotest.TestReader on a stream of %q from %s", clip(string(d)), k.name)
			})
			src, done := k.f(d, io.EOF)
			r, _ := cp949.NewReader(src)
			if err := iotest.TestReader(r, want); err != nil {
				w.Fail(int64(len(d)), fmt.Sprintf("iotest.TestReader on a stream of %q from %s", clip(string(d)), k.name), "no complaint", clip(err.Error()), nil, "")
			}
			if done != nil {
				done()
			}
			w.traces++
			w.Tick(true)
		}
	})
}

// richSink has every optional method a sink may have, and fails some calls.
type richSink struct {
	b      []byte
	calls  int
	fail   uint64
	err    error
	closed bool
}

func (s *richSink) step() bool {
	k := s.calls
	s.calls++
	return k < 64 && s.fail>>uint(k)&1 != 0
}
func (s *richSink) Write(p []byte) (int, error) {
	if s.step() {
		return 0, s.err
	}
	s.b = append(s.b, p...)
	for i := range p {
		_ = i
	}
	return len(p), nil
}
func (s *richSink) WriteString(p string) (int, error) { return s.Write([]byte(p)) }
func (s *richSink) WriteByte(c byte) error            { _, err := s.Write([]byte{c}); return err }
func (s *richSink) WriteRune(r rune) (int, error)     { return s.Write([]byte(string(r))) }
func (s *richSink) ReadFrom(r io.Reader) (int64, error) {
	if s.step() {
		return 0, s.err
	}
	b, err := io.ReadAll(r)
	s.b = append(s.b, b...)
	return int64(len(b)), err
}
func (s *richSink) Flush() error               { return nil }
func (s *richSink) Sync() error                { return nil }
func (s *richSink) Close() error               { s.closed = true; return nil }
func (s *richSink) Len() int                   { return len(s.b) }
func (s *richSink) Bytes() []byte              { return append([]byte(nil), s.b...) }
func (s *richSink) String() string             { return string(s.b) }
func (s *richSink) Available() int             { return 7 }
func (s *richSink) Grow(int)                   {}
func (s *richSink) Reset()                     {}
func (s *richSink) Read(p []byte) (int, error) { return 0, io.EOF }

type valueSink struct {
	b   *[]byte
	pad []int
}

func (s valueSink) Write(p []byte) (int, error) { *s.b = append(*s.b, p...); return len(p), nil }

type funcSink func(p []byte) (int, error)

func (f funcSink) Write(p []byte) (int, error) { return f(p) }

// sinkKind makes a sink; get is what it has received.
type sinkKind struct {
	name string
	f    func() (w io.Writer, get func() []byte)
}

var sinkKinds = []sinkKind{
	{"func", func() (io.Writer, func() []byte) {
		var b []byte
		return funcSink(func(p []byte) (int, error) { b = append(b, p...); return len(p), nil }), func() []byte { return b }
	}},
	{"value that cannot be compared", func() (io.Writer, func() []byte) {
		b := new([]byte)
		return valueSink{b, []int{1}}, func() []byte { return *b }
	}},
	{"rich type", func() (io.Writer, func() []byte) { s := &richSink{}; return s, func() []byte { return s.b } }},
	{"*bytes.Buffer", func() (io.Writer, func() []byte) { b := &bytes.Buffer{}; return b, b.Bytes }},
	{"*bytes.Buffer with text", func() (io.Writer, func() []byte) {
		b := bytes.NewBufferString("\xb0\xa1before")
		return b, func() []byte { return b.Bytes()[8:] }
	}},
	{"*strings.Builder", func() (io.Writer, func() []byte) {
		b := &strings.Builder{}
		return b, func() []byte { return []byte(b.String()) }
	}},
	{"*bufio.Writer", func() (io.Writer, func() []byte) {
		var b []byte
		w := bufio.NewWriterSize(plainW{&b}, 16)
		return w, func() []byte { w.Flush(); return b }
	}},
	{"*bufio.ReadWriter", func() (io.Writer, func() []byte) {
		var b []byte
		w := bufio.NewWriter(plainW{&b})
		return bufio.NewReadWriter(bufio.NewReader(emptySrc{}), w), func() []byte { w.Flush(); return b }
	}},
	{"io.MultiWriter", func() (io.Writer, func() []byte) {
		var a, b []byte
		return io.MultiWriter(plainW{&a}, io.Discard, plainW{&b}), func() []byte {
			if !bytes.Equal(a, b) {
				return []byte("the two differ")
			}
			return b
		}
	}},
	{"transform.Writer", func() (io.Writer, func() []byte) {
		var b []byte
		return transform.NewWriter(plainW{&b}, transform.Nop), func() []byte { return b }
	}},
}

// producer writes a text to a writer one way.
type producer struct {
	name string
	f    func(w io.Writer, d []byte) error
}

func writeOnce(w io.Writer, d []byte) error {
	n, err := w.Write(d)
	if err == nil && n != len(d) {
		err = fmt.Errorf("Write of %d returned %d", len(d), n)
	}
	return err
}

var producers = []producer{
	{"Write", writeOnce},
	{"Write of single bytes", func(w io.Writer, d []byte) error {
		for i := range d {
			if err := writeOnce(w, d[i:i+1]); err != nil {
				return err
			}
		}
		return nil
	}},
	{"io.WriteString", func(w io.Writer, d []byte) error {
		n, err := io.WriteString(w, string(d))
		if err == nil && n != len(d) {
			err = fmt.Errorf("WriteString of %d returned %d", len(d), n)
		}
		return err
	}},
	{"fmt.Fprintf", func(w io.Writer, d []byte) error {
		n, err := fmt.Fprintf(w, "%s", d)
		if err == nil && n != len(d) {
			err = fmt.Errorf("Fprintf of %d returned %d", len(d), n)
		}
		return err
	}},
	{"io.Copy from a bytes.Reader", func(w io.Writer, d []byte) error {
		n, err := io.Copy(w, bytes.NewReader(d))
		if err == nil && n != int64(len(d)) {
			err = fmt.Errorf("Copy of %d returned %d", len(d), n)
		}
		return err
	}},
	{"io.Copy from a plain source", func(w io.Writer, d []byte) error {
		n, err := io.Copy(w, onlyR{iotest.OneByteReader(bytes.NewReader(d))})
		if err == nil && n != int64(len(d)) {
			err = fmt.Errorf("Copy of %d returned %d", len(d), n)
		}
		return err
	}},
	{"bufio.Writer", func(w io.Writer, d []byte) error {
		b := bufio.NewWriterSize(w, 16)
		b.Write(d)
		return b.Flush()
	}},
	{"io.MultiWriter", func(w io.Writer, d []byte) error { return writeOnce(io.MultiWriter(io.Discard, w), d) }},
	{"optional methods", func(w io.Writer, d []byte) error {
		if f, ok := w.(io.ReaderFrom); ok {
			n, err := f.ReadFrom(iotest.HalfReader(bytes.NewReader(d)))
			if err == nil && n != int64(len(d)) {
				err = fmt.Errorf("ReadFrom of %d returned %d", len(d), n)
			}
			return err
		}
		if b, ok := w.(io.ByteWriter); ok {
			for _, c := range d {
				if err := b.WriteByte(c); err != nil {
					return err
				}
			}
			return nil
		}
		return writeOnce(w, d)
	}},
}

func encKindTexts(e *Eng) [][]byte {
	t := dedup(inputs(encStreamTokens, e.pick(5, 6), false))
	for _, u := range []string{"가", "A가", "A", "§\U0001F600\ufffdB", "\xff\xea"} {
		for _, n := range []int{15, 16, 17, 100, 512, 513, 4095, 4096, 4097, 40000} {
			t = append(t, []byte(strings.Repeat(u, n/len(u)+1))[:n])
		}
	}
	return t
}

// writerKinds writes through every kind of producer to every kind of sink.
func writerKinds(e *Eng) {
	texts := encKindTexts(e)
	e.Par("kinds of sinks", fmt.Sprintf("%d texts, cut at every place (the long ones at 12), the two parts written by each two of %d kinds of producers, to each of %d kinds of sinks (std types and a type with every optional method), and through a second writer", len(texts), len(producers), len(sinkKinds)), len(texts), func(w *Worker, it int) {
		d := texts[len(texts)-1-it]
		one := len(d) // below which every cut is made
		cuts := []int{0, 1, 2, 3, 4, 5, 6, 7, len(d) / 2, len(d) - 3, len(d) - 2, len(d) - 1}
		if one <= 13 {
			cuts = cuts[:0]
			for k := 0; k <= len(d); k++ {
				cuts = append(cuts, k)
			}
		}
		for _, k := range cuts {
			if k > len(d) || k < 0 {
				continue
			}
			want1, n1 := refTo(nil, d[:k], true)
			want2, _ := refTo(nil, d[n1:], true)
			want2 = append(want1[:len(want1):len(want1)], want2...)
			for si, s := range sinkKinds {
				for pi, a := range producers {
					for _, b := range producers {
						if len(d) > 13 && si > 3 && pi > 0 && !e.thorough() {
							continue
						}
						what := func() string {
							return fmt.Sprintf("%q by %s, then %q by %s, to a sink: %s", clip(string(d[:k])), a.name, clip(string(d[k:])), b.name, s.name)
						}
						w.Desc(what)
						once := func() (string, string) {
							sink, get := s.f()
							wr, err := cp949.NewWriter(sink)
							if err != nil {
								return "a writer", err.Error()
							}
							err = a.f(wr, d[:k])
							if g := get(); err != nil || !bytes.Equal(g, want1) {
								return fmt.Sprintf("%q after the first", clip(string(want1))), fmt.Sprintf("%q, %v", clip(string(g)), err)
							}
							err = b.f(wr, d[k:])
							if g := get(); err != nil || !bytes.Equal(g, want2) {
								return fmt.Sprintf("%q after both", clip(string(want2))), fmt.Sprintf("%q, %v", clip(string(g)), err)
							}
							return "", ""
						}
						if want, got := once(); want != "" {
							w.Fail(int64(len(d)), what(), want, got, func() bool { x, _ := once(); return x != "" }, "")
						}
						w.traces++
						w.trans += 2
						w.Tick(len(d) > 1)
					}
				}
			}
			w.Poll()
		}
		// a writer that writes to a writer
		want, _ := refTo(nil, d, true)
		twice, _ := refTo(nil, want, true)
		for _, a := range producers {
			w.Desc(func() string { return fmt.Sprintf("a writer to a writer, %q by %s", clip(string(d)), a.name) })
			var o []byte
			inner, _ := cp949.NewWriter(plainW{&o})
			wr, _ := cp949.NewWriter(inner)
			if err := a.f(wr, d); err != nil || !bytes.Equal(o, twice) {
				w.Fail(int64(len(d)), fmt.Sprintf("a writer to a writer, %q by %s", clip(string(d)), a.name), fmt.Sprintf("%q", clip(string(twice))), fmt.Sprintf("%q, %v", clip(string(o)), err), nil, "")
			}
			w.traces++
			w.Tick(true)
		}
	})
}

// writerFailKinds fails sinks with optional methods.
func writerFailKinds(e *Eng) {
	texts := dedup(inputs(encStreamTokens, e.pick(6, 7), false))
	e.Par("kinds of failing sinks", fmt.Sprintf("%d texts, every cut into three parts, to a sink with every optional method and to a plain one, each subset of the first 4 sink calls failing, parts written by Write or io.WriteString and repeated until they succeed", len(texts)), len(texts), func(w *Worker, it int) {
		d := texts[len(texts)-1-it]
		for i := 0; i <= len(d); i++ {
			for j := i; j <= len(d); j++ {
				for mask := uint64(1); mask < 16; mask++ {
					for mode := 0; mode < 4; mode++ {
						what := func() string {
							return fmt.Sprintf("%q, %q, %q, sink calls %b fail, mode %d", d[:i], d[i:j], d[j:], mask, mode)
						}
						w.Desc(what)
						once := func() string {
							s := &richSink{fail: mask, err: errSink}
							var sink io.Writer = s
							if mode&1 != 0 {
								sink = plainOnly{s}
							}
							wr, _ := cp949.NewWriter(sink)
							var text []byte
							for _, p := range [][]byte{d[:i], d[i:j], d[j:]} {
								for try := 0; ; try++ {
									before, calls := len(s.b), s.calls
									var n int
									var err error
									if mode&2 != 0 {
										n, err = io.WriteString(wr, string(p))
									} else {
										n, err = wr.Write(p)
									}
									failed := false
									for c := calls; c < s.calls && c < 64; c++ {
										failed = failed || mask>>uint(c)&1 != 0
									}
									w.trans++
									if failed {
										if err != errSink || n != 0 || len(s.b) != before {
											return fmt.Sprintf("a failing write returned %d, %v, the sink grew by %d", n, err, len(s.b)-before)
										}
										if try > 8 {
											return "no progress"
										}
										continue
									}
									if err != nil || n != len(p) {
										return fmt.Sprintf("a write returned %d, %v", n, err)
									}
									break
								}
								text = append(text, p...)
								if want, _ := refTo(nil, text, true); !bytes.Equal(s.b, want) {
									return fmt.Sprintf("the sink holds %q, not %q", s.b, want)
								}
							}
							return ""
						}
						if bad := once(); bad != "" {
							w.Fail(int64(len(d)), what(), "the text once, and the error of the sink", bad, func() bool { return once() != "" }, "")
						}
						w.traces++
						w.Tick(true)
					}
				}
			}
		}
	})
}

type plainOnly struct{ s *richSink }

func (p plainOnly) Write(b []byte) (int, error) { return p.s.Write(b) }
