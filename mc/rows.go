package main

// Histories of calls of one function: a result kept from an earlier call, under
// a key that does not tell its argument from another one, must not come back
// for that other one. All of it happens on one goroutine, in a fixed order.

import (
	"fmt"
	"strings"

	hangul "github.com/suapapa/go_hangul"
)

// letterArgs are all letters in conjoining and in compatibility form, by the
// position they can stand in.
func letterArgs() (l, m, t []rune) {
	for r, x := range refTab {
		if x.lead != 0 {
			l = append(l, rune(r))
		}
		if x.medial != 0 {
			m = append(m, rune(r))
		}
		if x.tail != 0 {
			t = append(t, rune(r))
		}
	}
	return l, m, append(t, 0)
}

// joinHistories calls Join on x, x', x for triples that differ in one letter,
// in the form of one or all letters, in one bit of one letter, or in order.
func joinHistories(e *Eng) {
	ls, ms, ts := letterArgs()
	e.Seq("join histories", fmt.Sprintf("all %d*%d*%d triples of letters in either form, in chains x, x', x with each x' that has one other letter, the other form of one or all letters, one bit flipped in one letter, two letters exchanged, or the same letter twice", len(ls), len(ms), len(ts)), func(w *Worker) {
		var cur [3][3]rune
		w.repeat = true
		w.Desc(func() string { return fmt.Sprintf("Join of %#x in sequence", cur) })
		call := func(x [3]rune) {
			want := refJoin(x[0], x[1], x[2])
			got := hangul.Join(x[0], x[1], x[2])
			if got != want {
				seq := cur
				w.Fail(0, fmt.Sprintf("Join of %#x, one after the other: %#x", seq, x), fmt.Sprintf("%#x", want), fmt.Sprintf("%#x", got), func() bool {
					for _, y := range seq {
						if hangul.Join(y[0], y[1], y[2]) != refJoin(y[0], y[1], y[2]) {
							return true
						}
					}
					return false
				}, joinSeqTest(seq[:]))
			}
			w.Tick(want != fffd)
		}
		other := func(r rune) rune { // the other form of a letter
			if c := ref(r).compat; c != r {
				return c
			}
			return r
		}
		for _, l := range ls {
			for _, m := range ms {
				for _, t := range ts {
					x := [3]rune{l, m, t}
					chain := func(y [3]rune) {
						cur = [3][3]rune{x, y, x}
						call(x)
						call(y)
						call(x)
					}
					for _, k := range ls {
						chain([3]rune{k, m, t})
					}
					for _, k := range ms {
						chain([3]rune{l, k, t})
					}
					for _, k := range ts {
						chain([3]rune{l, m, k})
					}
					chain([3]rune{other(l), other(m), other(t)})
					chain([3]rune{t, m, l})
					chain([3]rune{m, l, t})
					chain([3]rune{l, t, m})
					chain([3]rune{l, l, l})
					for b := uint(0); b < 32; b++ {
						for k := range x {
							y := x
							y[k] = rune(uint32(y[k]) ^ 1<<b)
							chain(y)
						}
					}
				}
				w.Poll()
			}
		}
	})
}

func joinSeqTest(seq [][3]rune) string {
	var b strings.Builder
	for _, x := range seq {
		fmt.Fprintf(&b, "\tif r := hangul.Join(%#x, %#x, %#x); r != %#x {\n\t\tt.Errorf(\"%%#x\", r)\n\t}\n", x[0], x[1], x[2], refJoin(x[0], x[1], x[2]))
	}
	return htest(b.String())
}

// rowWords are words that are hard to tell apart: of few lengths, alike at the
// beginning, at the end, in the middle, in their sums, or in all but one place.
func rowWords(tokens []string, depth int) (words []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			words = append(words, s)
		}
	}
	var rec func(d int, s string)
	rec = func(d int, s string) {
		add(s)
		if d == 0 {
			return
		}
		for _, t := range tokens {
			rec(d-1, s+t)
		}
	}
	rec(depth, "")
	for _, n := range []int{7, 8, 9, 16, 17, 33, 65, 130, 300} {
		for _, u := range tokens {
			base := make([]string, n)
			for i := range base {
				base[i] = u
			}
			add(strings.Join(base, ""))
			for _, p := range []int{0, 1, 2, 4, 7, n / 2, n - 2, n - 1} {
				if p >= n {
					continue
				}
				for _, v := range tokens {
					base[p] = v
					add(strings.Join(base, ""))
				}
				base[p] = u
			}
		}
	}
	return words
}

// inARow runs f on every ordered pair of the words.
//
// call is the Go call it makes, with %q for the word.
func inARow(e *Eng, call string, tokens []string, f func(w *Worker, s string)) {
	words := rowWords(tokens, 3)
	if e.thorough() {
		words = rowWords(tokens, 4)
	}
	long := 0
	for _, s := range words {
		if len(s) > 64 {
			long++
		}
	}
	// long ones meet long ones of the next few hundred only
	e.Seq("in a row", fmt.Sprintf("%d words over %d tokens, alike in length, beginning, end or in all but one place: every ordered pair one after the other, of the %d longer than 64 bytes those up to 200 apart", len(words), len(tokens), long), func(w *Worker) {
		w.repeat = true
		a, b := "", ""
		w.Desc(func() string { return fmt.Sprintf("calls with %q, %q, %q in sequence", clip(a), clip(b), clip(a)) })
		w.before = func() (string, string) {
			return fmt.Sprintf(", called with %q and %q in turn", clip(a), clip(b)), fmt.Sprintf("\t"+call+"\n\t"+call+"\n\t"+call+"\n", a, b, a)
		}
		defer func() { w.before = nil }()
		for i := range words {
			a = words[i]
			for j := range words {
				b = words[j]
				if d := j - i; (len(a) > 64 || len(b) > 64) && (d > 200 || d < -200) {
					continue
				}
				f(w, a)
				f(w, b)
			}
			f(w, a)
			w.Poll()
		}
	})
}
