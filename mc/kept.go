package main

// X01: results of every size, kept while calls of every other size are made.

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// keptFn is a function whose results are kept; s or b is the result.
type keptFn struct {
	name string
	toks [2]string // the texts are of one of these
	want func(in string) string
	f    func(in []byte) (s string, b []byte, err error)
}

func wantFrom(in string) string { b, _ := refFrom(nil, []byte(in)); return string(b) }
func wantTo(in string) string   { b, _ := refTo(nil, []byte(in), false); return string(b) }

var cpToks, u8Toks = [2]string{"\xb0\xa1", "\xb3\xaaz"}, [2]string{"다", "라z"}

var keptFns = []keptFn{
	{"From", cpToks, wantFrom, func(in []byte) (string, []byte, error) { b, err := cp949.From(in); return "", b, err }},
	{"To", u8Toks, wantTo, func(in []byte) (string, []byte, error) { b, err := cp949.To(in); return "", b, err }},
	{"Convert", [2]string{"大", "國z"}, func(in string) string { return string(refConvert(nil, in)) }, func(in []byte) (string, []byte, error) {
		return hanja.Convert(string(in)), nil, nil
	}},
	{"AppendPostposition", [2]string{"닭", "새z"}, func(in string) string {
		if strings.HasSuffix(in, "z") {
			return in + "가"
		}
		return in + "이"
	}, func(in []byte) (string, []byte, error) {
		return hangul.AppendPostposition(string(in), "이", "가"), nil, nil
	}},
	{"Decoder.Bytes", cpToks, wantFrom, func(in []byte) (string, []byte, error) {
		b, err := theEnc.NewDecoder().Bytes(in)
		return "", b, err
	}},
	{"Encoder.Bytes", u8Toks, wantTo, func(in []byte) (string, []byte, error) {
		b, err := theEnc.NewEncoder().Bytes(in)
		return "", b, err
	}},
	{"Decoder.String", cpToks, wantFrom, func(in []byte) (string, []byte, error) {
		s, err := theEnc.NewDecoder().String(string(in))
		return s, nil, err
	}},
	{"transform.Append, encoding", u8Toks, wantTo, func(in []byte) (string, []byte, error) {
		b, _, err := transform.Append(theEnc.NewEncoder(), nil, in)
		return "", b, err
	}},
}

func keptSizes(thorough bool) (l []int) {
	top := 16
	if thorough {
		top = 20
	}
	l = []int{1, 2, 3}
	for k := 3; k <= top; k++ {
		l = append(l, 1<<k)
		if k < 13 {
			l = append(l, 1<<k+2)
		}
	}
	return
}

func init() {
	// -histlarge F TIER: results of function F of all sizes are kept while
	// each other function is called with all sizes
	modes["-histlarge"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		fn := &keptFns[atoi(a[0])]
		var res histResult
		defer func() {
			if r := recover(); r != nil {
				res.Bad, res.Done = fmt.Sprintf("%s: panic: %v", fn.name, r), false
				out(res)
			}
		}()
		type in struct {
			text, want string
			arg        []byte
		}
		sizes := keptSizes(len(a) > 1)
		texts := func(f *keptFn, tok int) (l []in) {
			for _, n := range sizes {
				t := strings.Repeat(f.toks[tok], n/len(f.toks[tok])+1)
				l = append(l, in{t, f.want(t), []byte(t)})
			}
			return
		}
		type result struct {
			s    string
			b    []byte
			text *in
		}
		call := func(f *keptFn, t *in) (r result, bad string) {
			res.Calls++
			s, b, err := f.f(t.arg)
			if err != nil || b == nil && s != t.want || b != nil && string(b) != t.want {
				return r, fmt.Sprintf("%s of %d bytes gave %q, %v, expected %q", f.name, len(t.text), clip(s+string(b)), err, clip(t.want))
			}
			if !bytes.Equal(t.arg, []byte(t.text)) {
				return r, fmt.Sprintf("%s of %d bytes changed its argument", f.name, len(t.text))
			}
			return result{s, b, t}, ""
		}
		for g := range keptFns {
			o := &keptFns[g]
			mine, theirs := texts(fn, 0), texts(o, 1)
			for order := 0; order < 3; order++ {
				// all sizes kept, upwards or downwards; or each alone
				var kept []result
				check := func(after string) string {
					for _, k := range kept {
						if k.b == nil && k.s != k.text.want || k.b != nil && string(k.b) != k.text.want {
							return fmt.Sprintf("the result of %s of %d bytes became %q after %s", fn.name, len(k.text.text), clip(k.s+string(k.b)), after)
						}
					}
					return ""
				}
				for i := range mine {
					if order == 1 {
						i = len(mine) - 1 - i
					}
					r, bad := call(fn, &mine[i])
					if order == 2 {
						kept = kept[:0]
					}
					kept = append(kept, r)
					if bad == "" {
						bad = check("another of its calls")
					}
					if order < 2 && i != len(mine)/2 {
						if res.Bad = bad; bad != "" {
							out(res)
							return
						}
						continue
					}
					for j := range theirs {
						if bad != "" {
							break
						}
						res.Evals++
						var x result
						if x, bad = call(o, &theirs[j]); bad == "" {
							bad = check(fmt.Sprintf("%s of %d bytes", o.name, len(theirs[j].text)))
						}
						if bad == "" && x.b != nil { // the caller appends to it, and overwrites it
							x.b = x.b[:cap(x.b)]
							for k := range x.b {
								x.b[k] = 0xD8
							}
							bad = check(fmt.Sprintf("the caller overwrote that of %s of %d bytes", o.name, len(theirs[j].text)))
						}
					}
					if bad != "" {
						res.Bad = bad
						out(res)
						return
					}
				}
				out(histResult{})
			}
		}
		res.Done = true
		out(res)
	}
}

func keptResults(e *Eng, run func(w *Worker, args []string)) {
	var n []string
	for _, f := range keptFns {
		n = append(n, f.name)
	}
	sizes := keptSizes(e.thorough())
	e.Par("large results kept", fmt.Sprintf("results of %s, of %d sizes up to %d bytes, alone and together, kept while each of these is called with each size and its result overwritten", strings.Join(n, ", "), len(sizes), sizes[len(sizes)-1]), len(keptFns), func(w *Worker, i int) {
		a := []string{"-histlarge", strconv.Itoa(i)}
		if e.thorough() {
			a = append(a, "all")
		}
		run(w, a)
	})
}
