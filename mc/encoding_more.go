package main

// The encoding type through more of golang.org/x/text: very long texts, many
// values at once, one value again and again, wrappers and chains.

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// cp949Encoding hands out the decoders and encoders of the package as x/text
// wants them.
var _ encoding.Encoding = (*cp949.CP949Encoding)(nil)

// through is one way of a text through a transformer of x/text.
type through struct {
	name    string
	partial bool // what comes before an error is delivered
	f       func(t transform.Transformer, in []byte) ([]byte, error)
}

func throughReader(ch, size int) through {
	return through{fmt.Sprintf("transform.NewReader (chunks of %d, buffer %d)", ch, size), true, func(t transform.Transformer, in []byte) ([]byte, error) {
		return readAllBy(transform.NewReader(&chunkSrc{in, ch, ch&1 == 0}, t), size, 4*len(in)+100)
	}}
}

func throughWriter(ch int) through {
	return through{fmt.Sprintf("transform.NewWriter (parts of %d)", ch), true, func(t transform.Transformer, in []byte) ([]byte, error) {
		var o bytes.Buffer
		w := transform.NewWriter(&o, t)
		for p := in; len(p) > 0; {
			k := ch
			if k > len(p) {
				k = len(p)
			}
			m, err := w.Write(p[:k])
			if err == nil && m != k {
				err = fmt.Errorf("Write of %d returned %d", k, m)
			}
			if err != nil {
				return o.Bytes(), err
			}
			p = p[k:]
		}
		err := w.Close()
		return o.Bytes(), err
	}}
}

var throughs = []through{
	{"transform.Bytes", true, func(t transform.Transformer, in []byte) ([]byte, error) {
		b, _, err := transform.Bytes(t, in)
		return b, err
	}},
	{"transform.String", true, func(t transform.Transformer, in []byte) ([]byte, error) {
		s, _, err := transform.String(t, string(in))
		return []byte(s), err
	}},
	{"transform.Append", true, func(t transform.Transformer, in []byte) ([]byte, error) {
		b, _, err := transform.Append(t, []byte("pre"), in)
		if len(b) < 3 || string(b[:3]) != "pre" {
			return b, fmt.Errorf("the prefix is gone")
		}
		return b[3:], err
	}},
	throughReader(1, 64), throughReader(3, 5), throughReader(1<<30, 1), throughReader(1<<30, 1<<18),
	throughWriter(1), throughWriter(2), throughWriter(5), throughWriter(1 << 30),
	{"transform.Chain between two Nops", false, func(t transform.Transformer, in []byte) ([]byte, error) {
		b, _, err := transform.Bytes(transform.Chain(transform.Nop, t, transform.Nop), in)
		return b, err
	}},
}

// sameOut compares a result with the model's.
func sameOut(got []byte, err error, want []byte, ok, partial bool) bool {
	if ok {
		return err == nil && bytes.Equal(got, want)
	}
	return err == cp949.ErrCP949UnexpectedStream && (!partial || bytes.Equal(got, want))
}

func moreC10(e *Eng) {
	// what can be done with one value of either direction, several times
	type use struct {
		name string
		dec  func(d *encoding.Decoder, in []byte) ([]byte, error)
		enc  func(d *encoding.Encoder, in []byte) ([]byte, error)
		part bool
	}
	uses := []use{
		{"Bytes", func(d *encoding.Decoder, in []byte) ([]byte, error) { return d.Bytes(in) }, func(d *encoding.Encoder, in []byte) ([]byte, error) { return d.Bytes(in) }, false},
		{"String", func(d *encoding.Decoder, in []byte) ([]byte, error) {
			s, err := d.String(string(in))
			return []byte(s), err
		},
			func(d *encoding.Encoder, in []byte) ([]byte, error) {
				s, err := d.String(string(in))
				return []byte(s), err
			}, false},
		{"Reader or Writer", func(d *encoding.Decoder, in []byte) ([]byte, error) {
			return readAllBy(d.Reader(&chunkSrc{in, 3, true}), 64, 4*len(in)+100)
		}, func(d *encoding.Encoder, in []byte) ([]byte, error) {
			var o bytes.Buffer
			w := d.Writer(&o)
			for k := 0; k < len(in); k += 5 {
				end := k + 5
				if end > len(in) {
					end = len(in)
				}
				if n, err := w.Write(in[k:end]); err != nil || n != end-k {
					return o.Bytes(), fmt.Errorf("Write returned %d, %v", n, err)
				}
			}
			err := w.(io.Closer).Close()
			return o.Bytes(), err
		}, true},
	}
	decTexts := []string{"", "\xb0\xa1", "a\xb0\xa1\xc9\xa1z", "\xb0", "\xb0\xa1\xb0", strings.Repeat("\xb0\xa1a", 50), strings.Repeat("\xa1\xd7", 700) + "\xff"}
	encTexts := []string{"", "가", "a가\U0001F600z", "\xea", "가\xea\xb0", strings.Repeat("가a", 50), strings.Repeat("§", 700) + "\xf0\x9f"}
	n := len(uses) * len(decTexts)
	depth := e.pick(4, 5)
	items := 1
	for i := 0; i < depth; i++ {
		items *= n
	}
	e.Par("one value again and again", fmt.Sprintf("every history of %d uses of one decoder, and of one encoder: Bytes, String, Reader or Writer, of %d texts, complete or truncated, short or long", depth, len(decTexts)), items, func(w *Worker, it int) {
		enc := cp949.NewCP949Encoding()
		d, en := enc.NewDecoder(), enc.NewEncoder()
		what := ""
		w.Desc(func() string { return what })
		for k := 0; k < depth; k++ {
			u, t := uses[it%n%len(uses)], it%n/len(uses)
			it /= n
			what += fmt.Sprintf("; %s of text %d", u.name, t)
			in := []byte(decTexts[t])
			got, err := u.dec(d, in)
			want, ok := refFrom(nil, in)
			if !sameOut(got, err, want, ok, u.part) {
				w.Fail(int64(k), "one decoder"+what, fmt.Sprintf("%q, truncated %v", clip(string(want)), !ok), fmt.Sprintf("%q, %v", clip(string(got)), err), nil, "")
			}
			in = []byte(encTexts[t])
			got, err = u.enc(en, in)
			want, _ = refTo(nil, in, false)
			if !sameOut(got, err, want, true, u.part) {
				w.Fail(int64(k), "one encoder"+what, fmt.Sprintf("%q", clip(string(want))), fmt.Sprintf("%q, %v", clip(string(got)), err), nil, "")
			}
			w.trans += 2
		}
		w.traces++
		w.Tick(true)
	})
	foreignThrough(e)
	encodingValues(e, true)
	lens := streamSizes(e)
	dUnits := []string{"\xb0\xa1", "A\xb0\xa1", "A"}
	eUnits := []string{"가", "A가", "A"}
	e.Par("very large", fmt.Sprintf("texts of %d lengths around 2^9..2^%d of 3 periods, 3 alignments, decoded and encoded by %d ways through x/text: Bytes, String, Append, Reader, Writer, Chain", len(lens), e.pick(20, 22), len(throughs)), len(lens)*9, func(w *Worker, it int) {
		it = len(lens)*9 - 1 - it
		n := lens[it/9]
		pre := strings.Repeat("x", it/3%3)
		enc := cp949.NewCP949Encoding()
		for dir, u := range []string{dUnits[it%3], eUnits[it%3]} {
			in := []byte(pre + strings.Repeat(u, n/len(u)+1))[:n]
			var want []byte
			ok := true
			if dir == 0 {
				want, ok = refFrom(nil, in)
			} else {
				want, _ = refTo(nil, in, false)
			}
			for _, th := range throughs {
				if strings.Contains(th.name, "of 1)") || strings.Contains(th.name, "of 1,") || strings.Contains(th.name, "buffer 1)") {
					if n > 5000 {
						continue
					}
				}
				w.Desc(func() string { return fmt.Sprintf("%s, %d bytes: %q, then period %q", th.name, n, pre, u) })
				var t transform.Transformer = enc.NewDecoder()
				if dir == 1 {
					t = enc.NewEncoder()
				}
				got, err := th.f(t, in)
				if !sameOut(got, err, want, ok, th.partial) {
					w.Fail(int64(n), fmt.Sprintf("%s, %d bytes: %q, then period %q", th.name, n, pre, u), fmt.Sprintf("%d bytes, truncated %v", len(want), !ok), fmt.Sprintf("%d bytes, %v, first difference at %d", len(got), err, firstDiff(got, want)), nil, "")
				}
				w.traces++
				w.trans += int64(n)
				w.Tick(true)
				w.Poll()
			}
		}
	})
	// short texts through everything
	small := dedup(inputs([]string{"A", "\xb0\xa1", "\xa1\xd7", "\xc9\xfe", "\xff\xff"}, e.pick(6, 8), true))
	smallE := dedup(inputs(encStreamTokens, e.pick(6, 7), false))
	e.Par("short texts", fmt.Sprintf("%d texts to decode and %d to encode, all that short, by the same %d ways", len(small), len(smallE), len(throughs)), len(small)+len(smallE), func(w *Worker, it int) {
		enc := cp949.NewCP949Encoding()
		var in, want []byte
		ok := true
		if it < len(small) {
			in = small[it]
			want, ok = refFrom(nil, in)
		} else {
			in = smallE[it-len(small)]
			want, _ = refTo(nil, in, false)
		}
		for _, th := range throughs {
			w.Desc(func() string { return fmt.Sprintf("%s of %q", th.name, in) })
			var t transform.Transformer = enc.NewDecoder()
			if it >= len(small) {
				t = enc.NewEncoder()
			}
			got, err := th.f(t, in)
			if !sameOut(got, err, want, ok, th.partial) {
				w.Fail(int64(len(in)), fmt.Sprintf("%s of %q", th.name, in), fmt.Sprintf("%q, truncated %v", want, !ok), fmt.Sprintf("%q, %v", got, err), nil, "")
			}
			w.traces++
			w.trans += int64(len(in))
			w.Tick(len(in) > 1)
		}
	})
	max := e.pick(40, 120)
	e.Par("many values", fmt.Sprintf("2..%d decoders and encoders of one encoding value, open at once, stepped in turn, in reverse turn and in bursts, each over its own text of 3000 bytes and more", max), max-1, func(w *Worker, it int) {
		n := it + 2
		for mode := 0; mode < 3; mode++ {
			enc := cp949.NewCP949Encoding()
			w.Desc(func() string { return fmt.Sprintf("%d decoders and encoders, mode %d", n, mode) })
			type one struct {
				in, out, want []byte
				r             io.Reader
				wr            io.WriteCloser
				o             bytes.Buffer
				pos           int
				done          bool
			}
			l := make([]*one, n)
			for k := range l {
				x := &one{}
				l[k] = x
				if k&1 == 0 {
					x.in = []byte(strings.Repeat("x", k) + strings.Repeat(dUnits[k/2%3], 3000))
					if u := len(x.in) % 2; k&2 == 0 && u == 0 {
						x.in = append(x.in, 0xB0, 0xA1)
					}
					x.want, _ = refFrom(nil, x.in)
					x.r = enc.NewDecoder().Reader(&chunkSrc{x.in, 700 + k, k&4 == 0})
				} else {
					x.in = []byte(strings.Repeat("y", k) + strings.Repeat(eUnits[k/2%3], 3000))
					x.want, _ = refTo(nil, x.in, false)
					x.wr = enc.NewEncoder().Writer(&x.o).(io.WriteCloser)
				}
			}
			buf := make([]byte, 1000)
			left := n
			for turn := 0; left > 0 && turn < 100000; turn++ {
				k := turn % n
				if mode == 1 {
					k = n - 1 - k
				}
				if mode == 2 {
					k = turn / 3 % n
				}
				x := l[k]
				if x.done {
					continue
				}
				w.trans++
				if x.r != nil {
					m, err := x.r.Read(buf)
					x.out = append(x.out, buf[:m]...)
					if err != nil {
						x.done = true
						left--
					}
				} else {
					m := 901
					if m >= len(x.in)-x.pos {
						m = len(x.in) - x.pos
						x.done = true
						left--
					}
					x.wr.Write(x.in[x.pos : x.pos+m])
					x.pos += m
					if x.done {
						x.wr.Close()
						x.out = x.o.Bytes()
					}
				}
			}
			for k, x := range l {
				if !bytes.Equal(x.out, x.want) {
					w.Fail(int64(n), fmt.Sprintf("number %d of %d decoders and encoders of one value, mode %d", k, n, mode), "the same as alone", fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(x.out), len(x.want), firstDiff(x.out, x.want)), nil, "")
				}
			}
			w.traces++
			w.Tick(true)
		}
	})
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// encodings are the ways to come by an encoding value.
var encodings = []struct {
	name string
	f    func() encoding.Encoding
}{
	{"NewCP949Encoding()", func() encoding.Encoding { return cp949.NewCP949Encoding() }},
	{"&CP949Encoding{}", func() encoding.Encoding { return &cp949.CP949Encoding{} }},
	{"a variable of type CP949Encoding", func() encoding.Encoding {
		var e cp949.CP949Encoding
		return &e
	}},
	{"a copy of *NewCP949Encoding()", func() encoding.Encoding {
		e := *cp949.NewCP949Encoding()
		return &e
	}},
	{"a copy of a used one", func() encoding.Encoding {
		u := cp949.NewCP949Encoding()
		u.NewDecoder().Bytes([]byte("\xb0\xa1"))
		u.NewEncoder().Bytes([]byte("가"))
		e := *u
		return &e
	}},
	{"a field of a struct", func() encoding.Encoding {
		s := new(struct {
			a byte
			e cp949.CP949Encoding
			b byte
		})
		return &s.e
	}},
}

// encodingValues uses values of the encoding however they were made. Only
// panics count if results is false.
func encodingValues(e *Eng, results bool) {
	type job struct {
		in      []byte
		through int
	}
	var jobs []job
	for _, in := range dedup(inputs([]string{"A", "\xb0\xa1", "\xa1\xd7", "가", "\xf0\x9f\x98\x80", "\xff"}, e.pick(3, 4), true)) {
		for t := range throughs {
			jobs = append(jobs, job{in, t})
		}
	}
	e.Par("encoding values", fmt.Sprintf("%d ways to come by a value of the encoding, %d ways through its decoders and encoders, short texts: %d cases", len(encodings), len(throughs), len(jobs)), len(jobs), func(w *Worker, i int) {
		in, th := jobs[i].in, throughs[jobs[i].through]
		for _, k := range encodings {
			for dir := 0; dir < 2; dir++ {
				what := fmt.Sprintf("%s, %s of %q", k.name, th.name, in)
				w.Desc(func() string { return what })
				v := k.f()
				want, ok := []byte(nil), true
				var t transform.Transformer
				if dir == 0 {
					want, ok = refFrom(nil, in)
					t = v.NewDecoder()
				} else {
					want, _ = refTo(nil, in, false)
					t = v.NewEncoder()
				}
				got, err := th.f(t, in)
				if results && !sameOut(got, err, want, ok, th.partial) {
					w.Fail(int64(i), what, fmt.Sprintf("%q, truncated %v", want, !ok), fmt.Sprintf("%q, %v", clip(string(got)), err), nil, "")
				}
				w.traces++
				w.trans++
				w.Tick(len(in) > 0)
			}
		}
	})
}
