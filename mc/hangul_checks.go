package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
)

// ---- the domain of rune arguments ----

var specialLows []uint16
var fullHigh [0x10000]bool

func init() {
	add := func(lo, hi int) {
		for i := lo; i <= hi; i++ {
			specialLows = append(specialLows, uint16(i))
		}
	}
	add(0, 2)
	add('0', '0')
	add('A', 'B')
	add(0x7F, 0x80)
	add(0xFF, 0x100)
	add(0x10FD, 0x1115)
	add(0x115E, 0x1178)
	add(0x11A5, 0x11C5)
	add(0x11FF, 0x1200)
	add(0x312E, 0x3166)
	add(0xABFE, 0xAC1D)
	add(0xAE4C, 0xAE4D)
	add(0xD788, 0xD7A6)
	add(0xFFFC, 0xFFFF)
	for h := 0; h < 0x20; h++ {
		fullHigh[h] = true
		fullHigh[0xFFFF-h] = true
		fullHigh[0x7FFF-h%2] = true
		fullHigh[0x8000+h%2] = true
	}
}

const runeSpaceQuick = "every rune value of the high halves 0..0x1F, 0xFFE0..0xFFFF, 0x7FFE..0x8001 (4.3 million, all of Unicode included), and every one of 226 boundary and letter low halves under all 65,536 high halves"
const runeSpaceThorough = "all 2^32 rune values"

// eachRune runs f on every rune of the tier's domain.
func eachRune(e *Eng, name string, f func(w *Worker, r rune)) {
	space := runeSpaceQuick
	if e.thorough() {
		space = runeSpaceThorough
	}
	e.Par(name, space, 0x10000, func(w *Worker, hi int) {
		var cur rune
		w.Desc(func() string { return fmt.Sprintf("rune %d (%#x)", cur, uint32(cur)) })
		w.Poll()
		if e.thorough() || fullHigh[hi] {
			for lo := 0; lo < 0x10000; lo++ {
				cur = rune(uint32(hi)<<16 | uint32(lo))
				if lo&0xFFF == 0 {
					w.Poll()
				}
				f(w, cur)
			}
			return
		}
		for _, lo := range specialLows {
			cur = rune(uint32(hi)<<16 | uint32(lo))
			f(w, cur)
		}
	})
}

// eachRuneHistory runs f on chains of related runes, on one goroutine, so
// that a result kept from an earlier call (by a truncated key, a low-bits
// slot, a "last argument" shortcut) meets an argument it does not belong to.
func eachRuneHistory(e *Eng, f func(w *Worker, r rune)) {
	var base []rune
	for r := rune(0x1100); r < 0x1200; r++ {
		base = append(base, r)
	}
	for r := rune(0x3130); r < 0x3190; r++ {
		base = append(base, r)
	}
	for r := rune(0xAC00); r <= 0xD7A3; r += rune(e.pick(7, 1)) {
		base = append(base, r)
	}
	for _, r := range []rune{0, 'a', 0x4E00, 0xFFFD, 0x1F600, -1} {
		base = append(base, r)
	}
	var others []func(rune) rune
	for k := uint(0); k < 32; k++ {
		k := k
		others = append(others, func(r rune) rune { return rune(uint32(r) ^ 1<<k) })
	}
	for _, d := range []rune{1, -1, 2, 21, 28, -28, 588, -588, 0x2030, -0x2030, 0x77, 0xA8, 0x9B00} {
		d := d
		others = append(others, func(r rune) rune { return r + d })
	}
	e.Seq("histories", fmt.Sprintf("%d runes, each in chains r, r', r for %d related r' (every single bit flipped, letter form and syllable offsets), and chains repeating r", len(base), len(others)), func(w *Worker) {
		var cur [3]rune
		w.repeat = true
		w.Desc(func() string { return fmt.Sprintf("calls with %#x in sequence", cur) })
		for _, r := range base {
			for _, o := range others {
				cur = [3]rune{r, o(r), r}
				for _, c := range cur {
					f(w, c)
				}
			}
			w.Poll()
		}
	})
}

func rtest(imports, body string) string {
	return "package replay\n\nimport (\n\t\"testing\"\n" + imports + ")\n\nfunc TestReplay(t *testing.T) {\n" + body + "}\n"
}

func htest(body string) string {
	return rtest("\n\thangul \"github.com/suapapa/go_hangul\"\n", body)
}

// callTest is a replaying test for "call must print as want".
func callTest(call, want string) string {
	return rtest("\t\"fmt\"\n\n\thangul \"github.com/suapapa/go_hangul\"\n",
		fmt.Sprintf("\tif got, want := fmt.Sprint(%s), %q; got != want {\n\t\tt.Errorf(\"got %%s, want %%s\", got, want)\n\t}\n", call, want))
}

func splitTest(fn string, r, l, m, t rune) string {
	return htest(fmt.Sprintf("\tl, m, tt := hangul.%s(%d)\n\tif l != %d || m != %d || tt != %d {\n\t\tt.Errorf(\"got %%#x %%#x %%#x\", l, m, tt)\n\t}\n", fn, r, l, m, t))
}

// checkSplit checks Split and SplitCompat of any rune.
func checkSplit(w *Worker, r rune) {
	x := ref(r)
	l, m, t := hangul.Split(r)
	if l != x.l || m != x.m || t != x.t {
		w.Fail(int64(uint32(r)), fmt.Sprintf("Split(%#x)", r), fmt.Sprintf("%#x %#x %#x", x.l, x.m, x.t), fmt.Sprintf("%#x %#x %#x", l, m, t),
			func() bool { a, b, c := hangul.Split(r); return a != x.l || b != x.m || c != x.t }, splitTest("Split", r, x.l, x.m, x.t))
	}
	cl, cm, ct := ref(x.l).compat, ref(x.m).compat, ref(x.t).compat
	l, m, t = hangul.SplitCompat(r)
	if l != cl || m != cm || t != ct {
		w.Fail(int64(uint32(r)), fmt.Sprintf("SplitCompat(%#x)", r), fmt.Sprintf("%#x %#x %#x", cl, cm, ct), fmt.Sprintf("%#x %#x %#x", l, m, t),
			func() bool { a, b, c := hangul.SplitCompat(r); return a != cl || b != cm || c != ct }, splitTest("SplitCompat", r, cl, cm, ct))
	}
	w.Tick(x.flags&fSyll != 0)
}

func checkJoin(w *Worker, l, m, t rune) rune {
	want := refJoin(l, m, t)
	got := hangul.Join(l, m, t)
	if got != want {
		w.Fail(0, fmt.Sprintf("Join(%#x, %#x, %#x)", l, m, t), fmt.Sprintf("%#x", want), fmt.Sprintf("%#x", got),
			func() bool { return hangul.Join(l, m, t) != want }, callTest(fmt.Sprintf("hangul.Join(%d, %d, %d)", l, m, t), fmt.Sprint(want)))
	}
	w.Tick(want != fffd)
	return got
}

func H01(e *Eng) {
	e.rule = "one case per syllable or per letter triple in one choice of forms; enumerated without repetition; all are syllables"
	e.assume = []string{"the Unicode canonical decomposition in golang.org/x/text/unicode/norm, against which the reference is checked at start"}
	e.Par("split", "all 11,172 syllables, then Join of both triples", 11172, func(w *Worker, i int) {
		r := rune(0xAC00 + i)
		w.Desc(func() string { return fmt.Sprintf("Split/Join of %#x", r) })
		checkSplit(w, r)
		l, m, t := hangul.Split(r)
		cl, cm, ct := hangul.SplitCompat(r)
		for _, p := range [][3]rune{{l, m, t}, {cl, cm, ct}} {
			if checkJoin(w, p[0], p[1], p[2]) != r {
				w.Fail(int64(i), fmt.Sprintf("Join(Split(%#x))", r), fmt.Sprintf("%#x", r), "a different syllable", nil, "")
			}
		}
		if i%2800 == 0 {
			e.Sample(fmt.Sprintf("%c = %#x %#x %#x", r, l, m, t))
		}
	})
	eachRuneHistory(e, func(w *Worker, r rune) {
		checkSplit(w, r)
		if x := ref(r); x.flags == fSyll {
			checkJoin(w, x.l, x.m, x.t)
			checkJoin(w, ref(x.l).compat, ref(x.m).compat, ref(x.t).compat)
		}
	})
	joinHistories(e)
	e.Par("join", "all 19*21*28 triples, each letter in conjoining and compatibility form (8 variants), Split of the result", 19*21, func(w *Worker, i int) {
		var seen [28]rune
		for t := 0; t < 28; t++ {
			for v := 0; v < 8; v++ {
				l, m, tt := rune(0x1100+i/21), rune(0x1161+i%21), rune(0)
				if t > 0 {
					tt = rune(0x11A7 + t)
				}
				el, em, et := l, m, tt
				if v&1 != 0 {
					l = refTab[l].compat
				}
				if v&2 != 0 {
					m = refTab[m].compat
				}
				if v&4 != 0 && tt != 0 {
					tt = refTab[tt].compat
				} else if v&4 != 0 {
					continue
				}
				w.Desc(func() string { return fmt.Sprintf("Join(%#x, %#x, %#x)", l, m, tt) })
				s := checkJoin(w, l, m, tt)
				a, b, c := hangul.Split(s)
				if a != el || b != em || c != et {
					w.Fail(0, fmt.Sprintf("Split(Join(%#x, %#x, %#x))", l, m, tt), fmt.Sprintf("%#x %#x %#x", el, em, et), fmt.Sprintf("%#x %#x %#x", a, b, c), nil,
						splitTest("Split", s, el, em, et))
				}
				seen[t] = s
			}
			for u := 0; u < t; u++ {
				if seen[u] == seen[t] {
					w.Fail(0, fmt.Sprintf("two tails give %#x", seen[t]), "different syllables", "the same", nil, "")
				}
			}
		}
	})
}

func H02(e *Eng) {
	e.rule = "one case per rune triple, enumerated without repetition inside each harness; non-trivial if the triple composes"
	var set []rune
	have := map[rune]bool{}
	add := func(r rune) {
		if !have[r] {
			have[r] = true
			set = append(set, r)
		}
	}
	for r := rune(0x10F8); r <= 0x1208; r++ {
		add(r)
	}
	for r := rune(0x3128); r <= 0x3190; r++ {
		add(r)
	}
	for _, r := range []rune{0, 1, -1, 'A', 'x', 27, 28, 0xA97C, 0xABFF, 0xAC00, 0xAC01, 0xD7A3, 0xD7A4, 0xD7B0, 0xFFA1, 0xFFFD, 0x10FFFF, 0x110000, 0x7FFFFFFF, -0x80000000} {
		add(r)
	}
	for _, r := range []rune{0x1100, 0x1112, 0x1161, 0x1175, 0x11A8, 0x11C2, 0x3131, 0x314E, 0x314F, 0x3163, 0x3138, 0x3133} {
		for _, d := range []uint32{1 << 8, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31} {
			add(rune(uint32(r) + d))
			add(rune(uint32(r) - d))
			add(rune(uint32(r) ^ d))
		}
	}
	n := len(set)
	e.Par("cube", fmt.Sprintf("all triples over %d runes: both letter blocks with margins, syllables, aliases of letters modulo powers of two, extremes", n), n*n, func(w *Worker, i int) {
		l, m := set[i/n], set[i%n]
		var t rune
		w.Desc(func() string { return fmt.Sprintf("Join(%#x, %#x, %#x)", l, m, t) })
		for _, t = range set {
			checkJoin(w, l, m, t)
		}
	})
	e.Sample(fmt.Sprintf("Join(%#x, %#x, %#x) = %#x", 0x3131, 0x314F, 0x3138, hangul.Join(0x3131, 0x314F, 0x3138)))
	e.Sample(fmt.Sprintf("Join(%#x, %#x, %#x) = %#x", 0x3131, 0x314F, 0x3137, hangul.Join(0x3131, 0x314F, 0x3137)))
	one := func(w *Worker, r rune) {
		checkJoin(w, r, 0x1161, 0)
		checkJoin(w, r, 0x3163, 0x314E)
		checkJoin(w, 0x1100, r, 0)
		checkJoin(w, 0x314E, r, 0x11A8)
		checkJoin(w, 0x1100, 0x1161, r)
		checkJoin(w, 0x3145, 0x3157, r)
	}
	eachRune(e, "each position", one)
	eachRuneHistory(e, one)
	joinHistories(e)
}

func H03(e *Eng) {
	e.rule = "one case per rune value; non-trivial are the syllables met on the way, which must split"
	eachRune(e, "split", checkSplit)
	eachRuneHistory(e, checkSplit)
	for _, r := range []rune{'a', 0x3131, 0xABFF, 0xD7A4, -1} {
		l, m, t := hangul.Split(r)
		e.Sample(fmt.Sprintf("Split(%#x) = %d %d %d", r, l, m, t))
	}
}

func H04(e *Eng) {
	e.rule = "one case per rune value, all six predicates; non-trivial if one of them holds"
	one := func(w *Worker, r rune) {
		f := ref(r).flags
		bad := ""
		chk := func(name string, got, want bool) {
			if got != want {
				bad = name
			}
		}
		chk("IsLead", hangul.IsLead(r), f&fLead != 0)
		chk("IsMedial", hangul.IsMedial(r), f&fMedial != 0)
		chk("IsTail", hangul.IsTail(r), f&fTail != 0)
		chk("IsJaeum", hangul.IsJaeum(r), f&(fLead|fTail|fCompCons) != 0)
		chk("IsMoeum", hangul.IsMoeum(r), f&(fMedial|fCompVow) != 0)
		chk("IsHangul", hangul.IsHangul(r), f != 0)
		if bad != "" {
			fn := map[string]func(rune) bool{"IsLead": hangul.IsLead, "IsMedial": hangul.IsMedial, "IsTail": hangul.IsTail,
				"IsJaeum": hangul.IsJaeum, "IsMoeum": hangul.IsMoeum, "IsHangul": hangul.IsHangul}[bad]
			got := fn(r)
			w.Fail(int64(uint32(r)), fmt.Sprintf("%s(%#x)", bad, r), fmt.Sprint(!got), fmt.Sprint(got),
				func() bool { return fn(r) == got }, callTest(fmt.Sprintf("hangul.%s(%d)", bad, r), fmt.Sprint(!got)))
		}
		w.Tick(f != 0)
	}
	eachRune(e, "predicates", one)
	eachRuneHistory(e, one)
	for _, r := range []rune{0x10FF, 0x1100, 0x1112, 0x1113, 0x314E, 0x314F, 0xD7A3, 0xD7A4} {
		e.Sample(fmt.Sprintf("%#x lead=%v medial=%v tail=%v jaeum=%v moeum=%v hangul=%v", r, hangul.IsLead(r), hangul.IsMedial(r), hangul.IsTail(r), hangul.IsJaeum(r), hangul.IsMoeum(r), hangul.IsHangul(r)))
	}
}

var convs = []struct {
	name string
	f    func(rune) rune
	want func(*refRune) rune
}{
	{"CompatJamo", hangul.CompatJamo, func(x *refRune) rune { return x.compat }},
	{"Lead", hangul.Lead, func(x *refRune) rune { return x.lead }},
	{"Medial", hangul.Medial, func(x *refRune) rune { return x.medial }},
	{"Tail", hangul.Tail, func(x *refRune) rune { return x.tail }},
}

func H05(e *Eng) {
	e.rule = "one case per exported constant and per rune value (four conversions each); non-trivial if a conversion is not 0"
	e.assume = []string{"the Unicode character names in Python's unicodedata, from which the expected constants were generated"}
	e.Seq("constants", "all 119 exported letter constants", func(w *Worker) {
		for _, c := range letterConsts {
			if c.got != c.want {
				w.Fail(0, "constant "+c.name+" ("+c.uni+")", fmt.Sprintf("%#x", c.want), fmt.Sprintf("%#x", c.got), nil,
					callTest("rune(hangul."+c.name+")", fmt.Sprint(c.want)))
			}
			w.Tick(true)
		}
	})
	one := func(w *Worker, r rune) {
		x := ref(r)
		nz := false
		for i := range convs {
			c := &convs[i]
			want := c.want(x)
			got := c.f(r)
			if got != want {
				w.Fail(int64(uint32(r)), fmt.Sprintf("%s(%#x)", c.name, r), fmt.Sprintf("%#x", want), fmt.Sprintf("%#x", got),
					func() bool { return c.f(r) != want }, callTest(fmt.Sprintf("hangul.%s(%d)", c.name, r), fmt.Sprint(want)))
			}
			if got != 0 {
				nz = true
				if i > 0 && x.flags&(fCompCons|fCompVow) != 0 && hangul.CompatJamo(got) != r {
					w.Fail(int64(uint32(r)), fmt.Sprintf("CompatJamo(%s(%#x))", c.name, r), fmt.Sprintf("%#x", r), fmt.Sprintf("%#x", hangul.CompatJamo(got)),
						nil, callTest(fmt.Sprintf("hangul.CompatJamo(hangul.%s(%d))", c.name, r), fmt.Sprint(r)))
				}
			}
		}
		w.Tick(nz)
	}
	eachRune(e, "conversions", one)
	eachRuneHistory(e, one)
	for _, r := range []rune{0x3138, 0x1104, 0x11C2, 0x3163, 'a'} {
		e.Sample(fmt.Sprintf("%#x compat=%#x lead=%#x medial=%#x tail=%#x", r, hangul.CompatJamo(r), hangul.Lead(r), hangul.Medial(r), hangul.Tail(r)))
	}
}

func eqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkMulti(w *Worker, r rune) {
	x := ref(r)
	es, ok := hangul.SplitMultiElement(r)
	if ok != (x.elems != nil) || !eqRunes(es, x.elems) || (!ok && es != nil) {
		w.Fail(int64(uint32(r)), fmt.Sprintf("SplitMultiElement(%#x)", r), fmt.Sprintf("%#x %v", x.elems, x.elems != nil), fmt.Sprintf("%#x %v", es, ok),
			func() bool {
				es, ok := hangul.SplitMultiElement(r)
				return ok != (x.elems != nil) || !eqRunes(es, x.elems) || (!ok && es != nil)
			},
			htest(fmt.Sprintf("\tes, ok := hangul.SplitMultiElement(%d)\n\tif ok != %v || string(es) != %q {\n\t\tt.Errorf(\"got %%q %%v\", es, ok)\n\t}\n", r, x.elems != nil, string(x.elems))))
	}
	for _, c := range es {
		if _, ok := hangul.SplitMultiElement(c); ok {
			w.Fail(int64(uint32(r)), fmt.Sprintf("SplitMultiElement(%#x)", r), "basic letters", fmt.Sprintf("%#x, of which %#x splits again", es, c), nil,
				htest(fmt.Sprintf("\tes, _ := hangul.SplitMultiElement(%d)\n\tfor _, c := range es {\n\t\tif _, ok := hangul.SplitMultiElement(c); ok {\n\t\t\tt.Errorf(\"%%#x splits again\", c)\n\t\t}\n\t}\n", r)))
		}
	}
	w.Tick(ok)
}

func H06(e *Eng) {
	e.rule = "one case per rune value; non-trivial if the rune is a compound letter"
	eachRune(e, "compounds", checkMulti)
	eachRuneHistory(e, checkMulti)
	for _, r := range []rune{0x3133, 0x3159, 0x315E, 0x11AA, 0x1104, 0x3131} {
		es, ok := hangul.SplitMultiElement(r)
		e.Sample(fmt.Sprintf("%#x -> %q %v", r, string(es), ok))
	}
}

func H07(e *Eng) {
	e.rule = "one case per rune value; non-trivial if the count is not 0"
	one := func(w *Worker, r rune) {
		x := ref(r)
		got := hangul.Stroke(r)
		if got != x.stroke {
			w.Fail(int64(uint32(r)), fmt.Sprintf("Stroke(%#x)", r), fmt.Sprint(x.stroke), fmt.Sprint(got),
				func() bool { return hangul.Stroke(r) != x.stroke }, callTest(fmt.Sprintf("hangul.Stroke(%d)", r), fmt.Sprint(x.stroke)))
		}
		w.Tick(got != 0)
	}
	eachRune(e, "strokes", one)
	eachRuneHistory(e, one)
	e.Par("additivity", "all syllables: Stroke(s) against Stroke of the parts as the code gives them", 11172, func(w *Worker, i int) {
		r := rune(0xAC00 + i)
		x := ref(r)
		sum := hangul.Stroke(x.l) + hangul.Stroke(x.m)
		if x.t != 0 {
			sum += hangul.Stroke(x.t)
		}
		if got := hangul.Stroke(r); got != sum {
			w.Fail(int64(i), fmt.Sprintf("Stroke(%#x)", r), fmt.Sprint(sum), fmt.Sprint(got), func() bool { return hangul.Stroke(r) != sum },
				callTest(fmt.Sprintf("hangul.Stroke(%d)", r), fmt.Sprint(sum)))
		}
		w.Tick(true)
	})
	for _, r := range []rune{0xC138, 0x315E, 0xAF1F, 'a'} {
		e.Sample(fmt.Sprintf("Stroke(%#x) = %d", r, hangul.Stroke(r)))
	}
}

// ---- words ----

// refLast is the expected final consonant; free says a lone conjoining tail
// ends the word, where the property leaves 0 and that tail open.
func refLast(word string) (t rune, free bool) {
	if word == "" {
		return 0, false
	}
	r, _ := utf8.DecodeLastRuneInString(word)
	x := ref(r)
	if x.flags&fTail != 0 {
		return r, true
	}
	return x.t, false
}

func checkLast(w *Worker, word string) rune {
	want, free := refLast(word)
	got := hangul.LastConsonant(word)
	if got != want && !(free && got == 0) {
		w.Fail(int64(len(word)), fmt.Sprintf("LastConsonant(%q)", word), fmt.Sprintf("%#x", want), fmt.Sprintf("%#x", got),
			func() bool { return hangul.LastConsonant(word) == got }, callTest(fmt.Sprintf("hangul.LastConsonant(%q)", word), fmt.Sprint(want)))
	}
	if ends := hangul.EndsWithConsonant(word); ends != (got != 0) {
		w.Fail(int64(len(word)), fmt.Sprintf("EndsWithConsonant(%q)", word), fmt.Sprint(got != 0), fmt.Sprint(ends),
			func() bool { return hangul.EndsWithConsonant(word) == ends }, callTest(fmt.Sprintf("hangul.EndsWithConsonant(%q)", word), fmt.Sprint(got != 0)))
	}
	return got
}

func checkPost(w *Worker, word, with, without string, last rune) {
	p := without
	if last != 0 && !(last == 0x11AF && with == "으로") {
		p = with
	}
	got := hangul.AppendPostposition(word, with, without)
	if len(got) != len(word)+len(p) || got[:len(word)] != word || got[len(word):] != p {
		want := word + p
		w.Fail(int64(len(word)), fmt.Sprintf("AppendPostposition(%q, %q, %q)", word, with, without), fmt.Sprintf("%q", want), fmt.Sprintf("%q", got),
			func() bool { return hangul.AppendPostposition(word, with, without) != want },
			callTest(fmt.Sprintf("hangul.AppendPostposition(%q, %q, %q)", word, with, without), want))
	}
	w.Tick(last != 0)
}

var particles = []string{"", "으로", "로", "이", "가", "은", "는", "을", "를", "와", "과", "으", "으로 ", " 으로", "으로써", "으로서", "이랑", "랑",
	"으로", "\xec\x9c\xbc\xeb\xa1", "\xff", "a", "각"}

var wordTokens = []string{"a", " ", "\n", "각", "갈", "갉", "가", "힣", "하", "ㄱ", "ㅏ", "\u1100", "\u1161", "\u11af", "\u11a7", "\u11c3", "漢", "\U0001F600", "\U0002AC01", "\ufffd", "ﾡ", "\u0301",
	"\x00", "\x7f", "\x80", "\xac", "\xb0", "\xea", "\xea\xb0", "\xed\xa0\x80", "\xf0\x9f", "\xff", "\uabff", "\ud7ff", "퟿", "\U00020AC0"}

func H08(e *Eng) {
	e.rule = "one case per (word, particle pair); enumerated without repetition; non-trivial if the word ends in a final consonant"
	e.Par("last rune", "every rune value 0..0x10FFFF as last rune, after 8 kinds of beginnings, with 6 particle pairs", 0x1100, func(w *Worker, i int) {
		var word string
		w.Desc(func() string { return fmt.Sprintf("word %q", word) })
		pre := []string{"", "가", "각", "갈", "a", "\xff", "\xea\xb0", "漢字 "}
		pp := [][2]string{{"으로", "로"}, {"이", "가"}, {"으로", ""}, {"", "으로"}, {"로", "으로"}, {"은", "는"}}
		for j := 0; j < 256; j++ {
			r := rune(i*256 + j)
			for k, p := range pre {
				word = p + string(r)
				last := checkLast(w, word)
				if k < 2 {
					for _, q := range pp {
						checkPost(w, word, q[0], q[1], last)
					}
				} else {
					checkPost(w, word, "으로", "로", last)
				}
			}
		}
	})
	e.Par("particles", fmt.Sprintf("all 11,172 syllables and %d other endings with all %d*%d particle pairs", len(wordTokens), len(particles), len(particles)), 11172+len(wordTokens)+1, func(w *Worker, i int) {
		word := ""
		if i < 11172 {
			word = string(rune(0xAC00 + i))
		} else if i-11172 < len(wordTokens) {
			word = wordTokens[i-11172]
		}
		w.Desc(func() string { return fmt.Sprintf("word %q", word) })
		last := checkLast(w, word)
		for _, a := range particles {
			for _, b := range particles {
				checkPost(w, word, a, b, last)
			}
		}
	})
	depth := e.pick(4, 5)
	n := len(wordTokens)
	tot := 1
	for k := 0; k < 2; k++ {
		tot *= n
	}
	e.Par("words", fmt.Sprintf("all words of 1..%d tokens over %d tokens (scripts, letters, ill-formed and truncated UTF-8), 2 particle pairs", depth, n), tot, func(w *Worker, i int) {
		buf := []byte(nil)
		w.Desc(func() string { return fmt.Sprintf("word %q", buf) })
		// the last two tokens are fixed by i, the beginning varies
		tail := wordTokens[i%n] + wordTokens[i/n]
		if i/n == 0 {
			word := wordTokens[i%n]
			last := checkLast(w, word)
			checkPost(w, word, "으로", "로", last)
		}
		var rec func(d int, pre string)
		rec = func(d int, pre string) {
			word := pre + tail
			buf = append(buf[:0], word...)
			last := checkLast(w, word)
			checkPost(w, word, "으로", "로", last)
			checkPost(w, word, "을", "를", last)
			if d == 0 {
				return
			}
			for _, t := range wordTokens {
				rec(d-1, pre+t)
			}
		}
		rec(depth-2, "")
	})
	e.Par("long words", fmt.Sprintf("beginnings of every length 0..%d of 4 kinds before each of %d endings", e.pick(700, 5000), n), e.pick(700, 5000)+1, func(w *Worker, i int) {
		for _, unit := range []string{"a", "가", "각", "\xff"} {
			b := make([]byte, 0, i*len(unit)+8)
			for k := 0; k < i; k++ {
				b = append(b, unit...)
			}
			for _, t := range wordTokens {
				word := string(b) + t
				w.Desc(func() string { return fmt.Sprintf("%d times %q then %q", i, unit, t) })
				last := checkLast(w, word)
				checkPost(w, word, "으로", "로", last)
				checkPost(w, word, "이", "가", last)
			}
		}
	})
	e.Par("two syllables", "all 11,172^2 words of two syllables", 11172, func(w *Worker, i int) {
		word := ""
		w.Desc(func() string { return fmt.Sprintf("word %q", word) })
		for j := rune(0xAC00); j <= 0xD7A3; j++ {
			word = string([]rune{rune(0xAC00 + i), j})
			last := checkLast(w, word)
			checkPost(w, word, "으로", "로", last)
		}
	})
	postEndings(e)
	toks := []string{"으", "로", "이", "가", "라", "은", "는", "서", "써", "각", "갈", "ㄱ", "\u11af", " ", "(", ")", "/", "a", "漢", "\xff", "\xec", "\x00", "\u3161"}
	pd := e.pick(3, 4)
	e.Par("any particles", fmt.Sprintf("every string of 0..%d tokens over %d tokens, and every syllable alone, before and behind one, as the first, the second or either particle, after 7 words", pd, len(toks)), 11172+len(toks)*len(toks), func(w *Worker, i int) {
		var part string
		w.Desc(func() string { return fmt.Sprintf("particle %q", part) })
		words := []string{"서울", "집", "나", "Go", "", "말\xff", "갈\u11af"}
		try := func() {
			for _, word := range words {
				last := checkLast(w, word)
				checkPost(w, word, part, "로", last)
				checkPost(w, word, part, "", last)
				checkPost(w, word, part, part, last)
				checkPost(w, word, "으로", part, last)
				checkPost(w, word, "", part, last)
				checkPost(w, word, "이", part, last)
			}
		}
		if i < 11172 {
			s := string(rune(0xAC00 + i))
			for _, part = range []string{s, "으" + s, s + "로", "이" + s, s + "가", "으로" + s, s + "으로"} {
				try()
			}
			return
		}
		i -= 11172
		var rec func(d int, pre string)
		rec = func(d int, pre string) {
			part = pre
			try()
			for k := 0; d > 0 && k < len(toks); k++ {
				rec(d-1, pre+toks[k])
			}
		}
		if i == 0 {
			part = ""
			try()
		}
		if i%len(toks) == 0 {
			part = toks[i/len(toks)]
			try()
		}
		rec(pd-2, toks[i/len(toks)]+toks[i%len(toks)])
	})
	big := bigSizes(e.pick(20, 24))
	e.Par("large particles", fmt.Sprintf("particles of %d sizes, around powers of two up to 2^%d bytes, of 3 kinds, the first, the second and both, after words of three kinds", len(big), e.pick(20, 24)), len(big), func(w *Worker, i int) {
		for _, unit := range []string{"a", "로", "\xff"} {
			p := strings.Repeat(unit, big[len(big)-1-i]/len(unit))
			w.Desc(func() string { return fmt.Sprintf("a particle of %d bytes of %q", len(p), unit) })
			for _, word := range []string{"서울", "집", "나"} {
				last := checkLast(w, word)
				checkPost(w, word, p, "로", last)
				checkPost(w, word, "으로", p, last)
				checkPost(w, word, "이", p, last)
				checkPost(w, word, p, p, last)
				w.Poll()
			}
			checkPost(w, p, p, p, checkLast(w, p))
		}
	})
	inARow(e, "hangul.LastConsonant(%q)", []string{"a", "각", "갈", "가", "\xea\xb0"}, func(w *Worker, s string) {
		last := checkLast(w, s)
		checkPost(w, s, "으로", "로", last)
	})
	e.Par("sizes", fmt.Sprintf("beginnings of %d sizes, around powers of two up to 2^%d bytes, of 4 kinds before each of %d endings", len(big), e.pick(20, 24), n), len(big), func(w *Worker, i int) {
		for _, unit := range []string{"a", "가", "각", "\xff"} {
			b := strings.Repeat(unit, big[len(big)-1-i]/len(unit))
			for _, t := range wordTokens {
				word := b + t
				w.Desc(func() string { return fmt.Sprintf("%d bytes of %q then %q", len(b), unit, t) })
				last := checkLast(w, word)
				checkPost(w, word, "으로", "로", last)
				w.Poll()
			}
		}
	})
	for _, s := range []string{"서울", "Go", "강", "\xea\xb0", "ㄱ"} {
		e.Sample(fmt.Sprintf("%q + 으로/로 = %q", s, hangul.AppendPostposition(s, "으로", "로")))
	}
}
