package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/hanja"
)

func hjtest(in, want string) string {
	return rtest("\n\t\"github.com/suapapa/go_hangul/hanja\"\n",
		fmt.Sprintf("\tif got, want := hanja.Convert(%q), %q; got != want {\n\t\tt.Errorf(\"got %%q, want %%q\", got, want)\n\t}\n", in, want))
}

// checkConvert compares Convert with the model on well-formed text.
func checkConvert(w *Worker, s string, buf *[]byte) {
	*buf = refConvert((*buf)[:0], s)
	got := hanja.Convert(s)
	if got != string(*buf) {
		want := string(*buf)
		w.Fail(int64(len(s)), fmt.Sprintf("Convert(%q)", clip(s)), fmt.Sprintf("%q", clip(want)), fmt.Sprintf("%q", clip(got)),
			func() bool { return hanja.Convert(s) != want }, hjtest(s, want))
	}
	w.Tick(got != s)
}

func clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s... (%d bytes)", s[:200], len(s))
	}
	return s
}

// checkIllFormed: what is well-formed converts as always, every ill-formed
// byte stays as it is or becomes U+FFFD.
func checkIllFormed(w *Worker, s string) {
	got := hanja.Convert(s)
	p := 0
	ok := true
	for i := 0; i < len(s) && ok; {
		r, n := utf8.DecodeRuneInString(s[i:])
		var alt []string
		if r == utf8.RuneError && n == 1 {
			alt = []string{"\ufffd", s[i : i+1]}
		} else {
			alt = []string{string(refConvert(nil, s[i:i+n]))}
		}
		ok = false
		for _, a := range alt {
			if len(got)-p >= len(a) && got[p:p+len(a)] == a {
				p += len(a)
				ok = true
				break
			}
		}
		i += n
	}
	if !ok || p != len(got) {
		w.Fail(int64(len(s)), fmt.Sprintf("Convert(%q)", s), "well-formed characters converted, ill-formed bytes kept or replaced one by one", fmt.Sprintf("%q", got),
			func() bool { return hanja.Convert(s) == got }, "")
	}
	w.Tick(true)
}

// neighbourFail finds the shortest text that shows what went wrong.
func neighbourFail(w *Worker, i int) {
	k := hanjaKeys[i]
	var buf []byte
	for j := i; j < len(hanjaKeys); j++ {
		o := hanjaKeys[j]
		for _, s := range []string{string(k) + string(o), string(o) + string(k), string(k) + string(o) + string(k), string(o) + string(k) + string(o)} {
			checkConvert(w, s, &buf) // fails
		}
	}
	var in string
	for j := i; j < len(hanjaKeys); j++ {
		in += string(k) + string(hanjaKeys[j])
		if j%64 == 0 {
			checkConvert(w, in, &buf)
		}
	}
	checkConvert(w, in+string(k), &buf)
}

var hanjaTokens = []string{"a", " ", "漢", "字", "國", "가", "한", "\u3400", "\u4db5", "\u4db6", "\u4e00", "\u9fa5", "\u9fa6", "\ufa0e", "\ufa10", "\ufa29", "\uf900", "\U00020000", "\U0002F800", "\U00014E00",
	"\U0001F600", "\u3131", "\ufffd", "\x00", "é", "の", "兩", "樂"}

func checkRune(w *Worker, r rune) {
	want := refIsHanja(r)
	if got := hanja.IsHanja(r); got != want {
		w.Fail(int64(uint32(r)), fmt.Sprintf("IsHanja(%#x)", r), fmt.Sprint(want), fmt.Sprint(got), func() bool { return hanja.IsHanja(r) != want },
			rtest("\n\t\"github.com/suapapa/go_hangul/hanja\"\n", fmt.Sprintf("\tif hanja.IsHanja(%d) != %v {\n\t\tt.Error(\"IsHanja is wrong\")\n\t}\n", r, want)))
	}
	w.Tick(want)
}

func J01(e *Eng) {
	e.rule = "one case per rune (IsHanja) or per text (Convert), enumerated without repetition per harness; non-trivial if the rune is a Hanja or the text changes"
	e.assume = []string{"ill-formed UTF-8 is only required not to disturb its neighbours"}
	eachRune(e, "IsHanja", checkRune)
	e.Par("each rune", "Convert of every Unicode scalar value: alone, and in 18 contexts (beside Hanja, Hangul, blanks, digits, letters, brackets, marks, emoji, itself, its own reading, at the end of a sentence)", 0x1100, func(w *Worker, i int) {
		var buf []byte
		var s string
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", s) })
		for j := 0; j < 256; j++ {
			r := rune(i*256 + j)
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			c := string(r)
			got := hanja.Convert(c)
			gr, gn := utf8.DecodeRuneInString(got)
			if refIsHanja(r) {
				if gn != len(got) || gr < 0xAC00 || gr > 0xD7A3 {
					w.Fail(int64(r), fmt.Sprintf("Convert(%q)", c), "one Hangul syllable", fmt.Sprintf("%q", got), func() bool { return hanja.Convert(c) == got }, hjtest(c, string(refReading(r))))
				}
			}
			for _, s = range []string{c, "漢" + c, c + "字", "가" + c + "나", "大韓民國은 民主共和國" + c, c + c, " " + c + " ", "a" + c + "1", "1" + c + "a", "(" + c + ")", "\n" + c + "은", "\u0301" + c + "\u0301", "不" + c + "\U0001F600", got + "(" + c + ")", c + "(" + got + ")", got + "[" + c + "]", got + "（" + c + "）", got + c, c + got} {
				checkConvert(w, s, &buf)
			}
			if twice := hanja.Convert(got); twice != got {
				w.Fail(int64(r), fmt.Sprintf("Convert(Convert(%q))", c), got, twice, nil, "")
			}
		}
	})
	nk := len(hanjaKeys)
	e.Par("neighbours", fmt.Sprintf("every ordered pair of the %d ideographs beside each other, inside texts a b a c a d ...", nk), nk, func(w *Worker, i int) {
		i = nk - 1 - i
		k := hanjaKeys[i]
		w.Desc(func() string { return fmt.Sprintf("Convert(%q between all ideographs from U+%04X)", k, k) })
		in := make([]byte, 0, 6*(nk-i)+16)
		want := make([]byte, 0, cap(in))
		own, read := string(k), string(hanjaTab[k])
		for j := i; j < nk; j++ {
			in = utf8.AppendRune(append(in, own...), hanjaKeys[j])
			want = utf8.AppendRune(append(want, read...), hanjaTab[hanjaKeys[j]])
		}
		in, want = append(in, own...), append(want, read...)
		if got := hanja.Convert(string(in)); got != string(want) {
			neighbourFail(w, i)
		}
		w.evals += 2 * int64(nk-i)
		w.nontriv += 2*int64(nk-i) - 1
		w.Poll()
	})
	n := len(hanjaTokens)
	depth := e.pick(4, 6)
	e.Par("texts", fmt.Sprintf("all texts of 2..%d tokens over %d tokens", depth, n), n*n, func(w *Worker, i int) {
		var buf []byte
		var cur string
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", cur) })
		var rec func(d int, s string)
		rec = func(d int, s string) {
			cur = s
			checkConvert(w, s, &buf)
			if d == 0 {
				return
			}
			for _, t := range hanjaTokens {
				rec(d-1, s+t)
			}
		}
		rec(depth-2, hanjaTokens[i%n]+hanjaTokens[i/n])
	})
	e.Par("concatenation", "Convert(a+b) = Convert(a)+Convert(b) by the code itself, all pairs of texts of 1..2 tokens", n+n*n, func(w *Worker, i int) {
		tx := func(i int) string {
			if i < n {
				return hanjaTokens[i]
			}
			i -= n
			return hanjaTokens[i%n] + hanjaTokens[i/n]
		}
		a := tx(i)
		ca := hanja.Convert(a)
		for j := 0; j < n+n*n; j++ {
			b := tx(j)
			if got, want := hanja.Convert(a+b), ca+hanja.Convert(b); got != want {
				w.Fail(0, fmt.Sprintf("Convert(%q)", a+b), want, got, func() bool { return hanja.Convert(a+b) != want }, hjtest(a+b, want))
			}
			w.Tick(true)
		}
	})
	hanjaWordTexts(e)
	max := e.pick(1500, 6000)
	e.Par("long texts", fmt.Sprintf("texts of every length 0..%d runes of 5 kinds, a Hanja first, last, or at every position up to 64", max), max+1, func(w *Worker, i int) {
		var buf []byte
		w.Desc(func() string { return fmt.Sprintf("Convert of a text of %d runes", i) })
		for _, unit := range []string{"a", "가", "漢", "漢a", "\U0001F600"} {
			bb := make([]byte, 0, i*len(unit))
			for k := 0; k < i; k++ {
				bb = append(bb, unit...)
			}
			b := string(bb)
			checkConvert(w, b, &buf)
			checkConvert(w, "國"+b, &buf)
			checkConvert(w, b+"國", &buf)
		}
		if i <= 300 {
			for p := 0; p < i; p++ {
				rs := make([]rune, i)
				for k := range rs {
					rs[k] = 'x'
				}
				rs[p] = '國'
				checkConvert(w, string(rs), &buf)
				if p > 0 {
					rs[p-1] = 0x1F600
					checkConvert(w, string(rs), &buf)
				}
			}
		}
	})
	e.Par("runs", "two tokens inside runs of 0..40, 0..20 and 0..20 runes of 4 kinds", 41*21, func(w *Worker, i int) {
		var buf []byte
		var s string
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", s) })
		for _, f := range []string{"a", "가", "漢", "\U0001F600"} {
			pre, mid := strings.Repeat(f, i/21), strings.Repeat(f, i%21)
			for k := 0; k <= 20; k++ {
				post := strings.Repeat(f, k)
				for _, a := range hanjaTokens {
					for _, b := range []string{"", "國", "\u3400", "가", "x"} {
						s = pre + a + mid + b + post
						checkConvert(w, s, &buf)
					}
				}
			}
		}
	})
	big := bigSizes(e.pick(22, 24))
	e.Par("sizes", fmt.Sprintf("texts of %d sizes, around powers of two up to 2^%d bytes, of 5 kinds, a Hanja first, last, in the middle or everywhere", len(big), e.pick(22, 24)), len(big), func(w *Worker, i int) {
		var buf []byte
		n := big[len(big)-1-i]
		w.Desc(func() string { return fmt.Sprintf("Convert of texts of %d bytes", n) })
		for _, unit := range []string{"a", "가", "漢", "漢a", "\U0001F600\u3400"} {
			b := strings.Repeat(unit, n/len(unit))
			checkConvert(w, b, &buf)
			checkConvert(w, "國"+b, &buf)
			checkConvert(w, b+"國", &buf)
			checkConvert(w, b[:len(b)/2/len(unit)*len(unit)]+"國"+b[len(b)/2/len(unit)*len(unit):], &buf)
			w.Poll()
		}
	})
	bad := []string{"\xff", "\x80", "\xe6", "\xe6\xbc", "\xed\xa0\x80", "\xf0\x9f\x98", "漢", "a", "가"}
	var row []byte
	inARow(e, "hanja.Convert(%q)", []string{"a", "가", "漢", "字", "\u3400", "\ufa0e"}, func(w *Worker, s string) { checkConvert(w, s, &row) })
	e.Par("ill-formed", "all texts of 1..5 pieces over 9 pieces, 6 of them ill-formed or truncated", 9, func(w *Worker, i int) {
		var rec func(d int, s string)
		rec = func(d int, s string) {
			w.Desc(func() string { return fmt.Sprintf("Convert(%q)", s) })
			checkIllFormed(w, s)
			if d == 0 {
				return
			}
			for _, t := range bad {
				rec(d-1, s+t)
			}
		}
		rec(4, bad[i])
	})
	for _, s := range []string{"漢字", "\u4db6\uf900", "a國가"} {
		e.Sample(fmt.Sprintf("Convert(%q) = %q", s, hanja.Convert(s)))
	}
}

// ideographs that KS X 1001 lists under a reading out of the table's order;
// each is one with several readings in the standard or a customary second one.
var ksMulti = map[rune]bool{0x4E32: true, 0x5ED3: true, 0x91D1: true, 0x62CF: true, 0x8AFE: true, 0x5BE7: true, 0x6012: true,
	0x574D: true, 0x5B85: true, 0x4E0D: true, 0x6A02: true, 0x7570: true, 0x6CCC: true}

func J02(e *Eng) {
	e.rule = "one case per ideograph and context; all are non-trivial, as every supported ideograph changes"
	e.assume = []string{"the readings of the pinned tree (hanja.bin) are the expected ones; for the 4,620 ideographs of KS X 1001 they are confirmed by that standard's order of readings, with 13 listed exceptions"}
	e.Par("readings", "all 27,496 ideographs: alone and in 16 contexts", len(hanjaKeys), func(w *Worker, i int) {
		k := hanjaKeys[i]
		want := string(hanjaTab[k])
		c := string(k)
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", c) })
		for _, x := range [][2]string{{"", ""}, {want + "(", ")"}, {"", "(" + want + ")"}, {want, ""}, {"", want}, {"漢", ""}, {"", "字"}, {"가 ", " 나"}, {c, c}, {" ", ""}, {"", " "}, {"a", "1"}, {"(", ")"}, {"가", "는"}, {"不", ""}, {"\n", "\n"}, {"一", "十"}} {
			in := x[0] + c + x[1]
			out := string(refConvert(nil, x[0])) + want + string(refConvert(nil, x[1]))
			if got := hanja.Convert(in); got != out {
				w.Fail(int64(i), fmt.Sprintf("Convert(%q)", in), out, got, func() bool { return hanja.Convert(in) != out }, hjtest(in, out))
			}
			w.Tick(true)
		}
		if i%5000 == 0 {
			e.Sample(fmt.Sprintf("%s (U+%04X) = %s", c, k, want))
		}
	})
	hanjaWordTexts(e)
	e.Seq("all in one", "all 27,496 ideographs in one text, ascending and descending", func(w *Worker) {
		var up, uw, dn, dw []rune
		for i := range hanjaKeys {
			k, d := hanjaKeys[i], hanjaKeys[len(hanjaKeys)-1-i]
			up, uw = append(up, k), append(uw, hanjaTab[k])
			dn, dw = append(dn, d), append(dw, hanjaTab[d])
		}
		for _, p := range [][2]string{{string(up), string(uw)}, {string(dn), string(dw)}} {
			if got := hanja.Convert(p[0]); got != p[1] {
				w.Fail(0, "Convert of all ideographs", clip(p[1]), clip(got), nil, "")
			}
			w.Tick(true)
		}
	})
	e.Seq("KS X 1001 order", "the ideographs of KS X 1001 in code order: readings never decrease", func(w *Worker) {
		var prev, prevK rune
		n := 0
		for _, p := range cpPairs {
			if p.code < 0xCAA1 || p.code > 0xFDFE || p.code&0xFF < 0xA1 || !hanja.IsHanja(p.r) || ksMulti[p.r] {
				continue
			}
			got := hanja.Convert(string(p.r))
			r, size := utf8.DecodeRuneInString(got)
			if size != len(got) || r < prev {
				w.Fail(int64(n), fmt.Sprintf("readings of %q and %q, neighbours in KS X 1001", prevK, p.r), "in order", fmt.Sprintf("%q then %q", prev, got), nil,
					hjtest(string(p.r), string(hanjaTab[p.r])))
			}
			prev, prevK = r, p.r
			n++
			w.Tick(true)
		}
		if n < 4500 {
			w.Fail(0, "ideographs of KS X 1001 that are supported", "4607", fmt.Sprint(n), nil, "")
		}
	})
}
