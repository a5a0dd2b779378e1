package main

// X01: a caller that uses one buffer for everything, with another text of the
// same length in it each time.

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
)

type sameFn struct {
	name string
	enc  bool
	make func() func(b []byte) ([]byte, error)
}

func once(f func(b []byte) ([]byte, error)) func() func(b []byte) ([]byte, error) {
	return func() func(b []byte) ([]byte, error) { return f }
}

// overAndOver uses one transformer for all calls.
func overAndOver(c *codec) func() func(b []byte) ([]byte, error) {
	return func() func(b []byte) ([]byte, error) {
		t := c.make()
		dst := make([]byte, 64) // also the same one each time
		return func(b []byte) ([]byte, error) {
			t.Reset()
			nd, ns, err := t.Transform(dst, b, true)
			if ns != len(b) && err == nil {
				err = fmt.Errorf("consumed %d of %d", ns, len(b))
			}
			return append([]byte(nil), dst[:nd]...), err
		}
	}
}

var sameFns = []sameFn{
	{"From", false, once(cp949.From)},
	{"To", true, once(cp949.To)},
	{"Decoder.Bytes", false, once(func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewDecoder().Bytes(b) })},
	{"Encoder.Bytes", true, once(func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewEncoder().Bytes(b) })},
	{"Bytes of one Decoder", false, func() func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewDecoder().Bytes }},
	{"Bytes of one Encoder", true, func() func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewEncoder().Bytes }},
	{"Transform of one decoder", false, overAndOver(dec)},
	{"Transform of one encoder", true, overAndOver(enc)},
	{"NewReader of a bytes.Reader", false, once(func(b []byte) ([]byte, error) {
		r, err := cp949.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	})},
	{"Read of one Reader, into the buffer of its source", false, func() func(b []byte) ([]byte, error) {
		var now []byte
		var r io.Reader
		return func(b []byte) ([]byte, error) {
			if r == nil {
				r, _ = cp949.NewReader(funcSrc(func(p []byte) (int, error) {
					n := copy(p, now)
					now = now[n:]
					return n, nil
				}))
			}
			now = append([]byte(nil), b...)
			want, ok := refFrom(nil, b)
			var o []byte
			var err error
			for i := 0; len(o) < len(want) && i < 40; i++ {
				n, e := r.Read(b[:cap(b)])
				o = append(o, b[:n]...)
				if e != nil {
					return o, e
				}
			}
			if !ok { // the other half, so that the next text starts afresh
				r, err = nil, cp949.ErrCP949UnexpectedStream
			}
			return o, err
		}
	}},
	{"Write of one Writer", true, func() func(b []byte) ([]byte, error) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		return func(b []byte) ([]byte, error) {
			sink.Reset()
			if n, err := w.Write(b); err != nil || n != len(b) {
				return nil, fmt.Errorf("Write returned %d, %v", n, err)
			}
			return append([]byte(nil), sink.Bytes()...), nil
		}
	}},
	{"Write of new Writers", true, once(func(b []byte) ([]byte, error) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		_, err := w.Write(b)
		return sink.Bytes(), err
	})},
	{"transform.Bytes, decoding", false, once(func(b []byte) ([]byte, error) {
		o, _, err := transform.Bytes(cp949.NewCP949Encoding().NewDecoder(), b)
		return o, err
	})},
}

func sameTexts(enc bool, depth int) (l []string) {
	toks := []string{"\xb0\xa1", "\xb3\xaa", "\xc9\xfe", "\x80\x80", "ab", "z\xb0", "\xa1z"}
	if enc {
		toks = []string{"가", "나", "똠", "\xef\xbf\xbd", "國", "abc", "z\u00a0", "\xffab"}
	}
	var rec func(s string, d int)
	rec = func(s string, d int) {
		if d == 0 {
			l = append(l, s)
			return
		}
		for _, t := range toks {
			rec(s+t, d-1)
		}
	}
	rec("", depth)
	return
}

func init() {
	// -histsame FN DEPTH
	modes["-histsame"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		fn := sameFns[atoi(a[0])]
		var res histResult
		buf := make([]byte, 256)
		for d := 1; d <= atoi(a[1]); d++ {
			ts := sameTexts(fn.enc, d)
			for i, x := range ts {
				for _, y := range ts {
					f := fn.make()
					res.Evals++
					var first []byte
					for k, t := range []string{x, y, x, x, y} {
						res.Calls++
						n := copy(buf, t)
						c := dec
						if fn.enc {
							c = enc
						}
						want, ok := c.all([]byte(t))
						var werr error
						if !ok {
							werr = c.endErr
						}
						var got []byte
						var err error
						func() {
							defer func() {
								if r := recover(); r != nil {
									err = fmt.Errorf("panic: %v", r)
								}
							}()
							got, err = f(buf[:n])
						}()
						if err != werr || err == nil && !bytes.Equal(got, want) {
							res.Bad = fmt.Sprintf("%s, with one buffer holding %q, then %q, and so on: call #%d gave %q, %v, expected %q, %v", fn.name, x, y, k+1, got, err, want, werr)
							out(res)
							return
						}
						if k == 0 {
							first = got
						} else if w, ok := c.all([]byte(x)); ok && !bytes.Equal(first, w) {
							res.Bad = fmt.Sprintf("%s, with one buffer holding %q, then %q, and so on: after call #%d the first result is %q", fn.name, x, y, k+1, first)
							out(res)
							return
						}
					}
				}
				if i&63 == 0 {
					out(histResult{})
				}
			}
		}
		res.Done = true
		out(res)
	}
}

func sameBuffer(e *Eng, run func(w *Worker, args []string)) {
	depth := e.pick(2, 3)
	var n []string
	for _, f := range sameFns {
		n = append(n, f.name)
	}
	e.Par("one buffer, equal lengths", fmt.Sprintf("texts x, y, x, x, y of up to %d characters and equal length, one after the other in the same buffer, for every x and y over a class alphabet, through %s", depth, strings.Join(n, ", ")), len(sameFns), func(w *Worker, i int) {
		run(w, []string{"-histsame", strconv.Itoa(i), strconv.Itoa(depth)})
	})
}
