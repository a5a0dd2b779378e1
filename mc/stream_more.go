package main

// Longer streams: runs, periodic environments, many empty reads or failures
// in a row, and sizes around the powers of two.

import (
	"fmt"
	"io"
	"strings"
)

// streamSizes are lengths around the powers of two up to 2^20 (thorough 2^22).
func streamSizes(e *Eng) (l []int) {
	for k := uint(9); k <= uint(e.pick(20, 22)); k++ {
		for _, d := range []int{-2, -1, 0, 1, 2, 1 << k / 2} {
			l = append(l, 1<<k+d)
		}
	}
	return
}

// moreReader explores the reader beyond short streams.
func moreReader(e *Eng, ends []error, trunc bool) {
	tok := decStreamTokens
	k := e.pick(10, 20)
	e.Par("runs", fmt.Sprintf("streams a^i b^j, a and b any of %d tokens, i and j 0..%d, in chunks of 1..8, caller buffers of 1..8", len(tok), k), (k+1)*(k+1), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		for _, a := range tok {
			for _, b := range tok {
				d := []byte(strings.Repeat(a, it/(k+1)) + strings.Repeat(b, it%(k+1)))
				if trunc {
					d = append(d, 0xB0)
				}
				for _, end := range ends {
					for c := 1; c <= 8; c++ {
						*p = plan{data: d, end: end, chunks: fixed(len(d), c), with: c&1 == 0}
						for s := 1; s <= 8; s++ {
							p.def = s
							x.check(w, p)
						}
					}
				}
			}
		}
	})
	units := []string{"\xb0\xa1", "A\xb0\xa1", "A", "\xa1\xd7\xc9\xfe\xb0\xa1A"}
	n := e.pick(5, 6)
	e.Par("periodic", fmt.Sprintf("streams of 60..63 bytes of %d periods; chunk sizes of every cycle of 3 of 0..%d, buffer sizes of every cycle of 3 of 0..%d", len(units), n, n), (n+1)*(n+1)*(n+1), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		cc := [3]int{it % (n + 1), it / (n + 1) % (n + 1), it / (n + 1) / (n + 1)}
		if cc[0]+cc[1]+cc[2] == 0 {
			return
		}
		for ui, u := range units {
			d := cut(u, 60+ui, trunc)
			var chunks []int
			for left, i := len(d), 0; left > 0; i++ {
				c := cc[i%3]
				if c > left {
					c = left
				}
				chunks = append(chunks, c)
				left -= c
			}
			for _, end := range ends {
				*p = plan{data: d, end: end, chunks: chunks, with: ui&1 == 0}
				for b := 1; b < (n+1)*(n+1)*(n+1); b++ {
					p.cyc = []int{b % (n + 1), b / (n + 1) % (n + 1), b / (n + 1) / (n + 1)}
					x.check(w, p)
				}
			}
		}
	})
	e.Par("sequences", fmt.Sprintf("streams of up to 3 of %d sequences with a meaning of their own elsewhere, in chunks of 1, 2, 3 and all, buffers of 1, 4, 64", len(decSpecial)), len(decSpecial)*len(decSpecial), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		ab := decSpecial[it/len(decSpecial)] + decSpecial[it%len(decSpecial)]
		for _, c := range append([]string{""}, decSpecial...) {
			d := []byte(ab + c)
			if trunc {
				d = append(d, 0xA4)
			}
			for _, end := range ends {
				for _, ch := range []int{1, 2, 3, 64} {
					*p = plan{data: d, end: end, chunks: fixed(len(d), ch), with: ch == 2}
					for _, s := range []int{1, 4, 64} {
						p.def = s
						x.check(w, p)
					}
				}
			}
		}
	})
	e.Par("two ASCII bytes", "every two ASCII bytes before, between and after Hangul, in chunks of 1 and all, a buffer of 64", 128, func(w *Worker, it int) {
		var x rrun
		p := &plan{def: 64}
		w.Desc(func() string { return p.String() })
		for b := 0; b < 128; b++ {
			for _, d := range []string{string([]byte{byte(it), byte(b)}), string([]byte{byte(it), byte(b), 0xB0, 0xA1, byte(it), byte(b), 0xB0, 0xA1, byte(it), byte(b)})} {
				if trunc {
					d += "\xa4"
				}
				for _, end := range ends {
					for _, ch := range []int{1, 64} {
						p.data, p.end, p.chunks = []byte(d), end, fixed(len(d), ch)
						x.check(w, p)
					}
				}
			}
		}
	})
	e.Par("every three bytes", "every string of 3 bytes that is complete or not, as the harness wants, in chunks of 1 and of 2, a buffer of 2 or 64", 0x10000, func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		d := make([]byte, 3)
		w.Desc(func() string { return p.String() })
		for b := 0; b < 256; b++ {
			d[0], d[1], d[2] = byte(it>>8), byte(it), byte(b)
			if !e.thorough() && d[0] < 0x80 && d[0] != 'A' && (d[1] < 0x80 || b&7 != 0) {
				continue
			}
			if open := b >= 0x80 && (d[0] >= 0x80 || d[1] < 0x80); open != trunc {
				continue
			}
			for _, end := range ends {
				*p = plan{data: d, end: end, chunks: []int{1, 1, 1}, with: b&1 == 0, def: 64}
				x.check(w, p)
				*p = plan{data: d, end: end, chunks: []int{2, 1}, with: b&1 != 0, def: 2}
				x.check(w, p)
			}
		}
	})
	classes := []string{"\x00", "A", "\x7f", "\x80", "\x81", "\xa1", "\xb0", "\xc6", "\xc9", "\xfe", "\xff"}
	cls := dedup(inputs(classes, e.pick(4, 5), false))
	e.Par("class bytes", fmt.Sprintf("%d strings of up to %d of %d bytes, split in every way, end of file with and after the last bytes, buffers %v", len(cls), e.pick(4, 5), len(classes), bufMenu), len(cls), func(w *Worker, it int) {
		if _, ok := refFrom(nil, cls[it]); ok == trunc {
			return
		}
		for _, end := range ends {
			exploreReader(e, w, cls[it], end, 0, 0)
		}
	})
	steps := e.pick(140000, 1100000)
	e.Par("many steps", fmt.Sprintf("streams of %d bytes and 0..2 more of %d periods, in chunks of 1, 2 and 3, buffers of 1, 2 and 3: as many reads by one reader", steps, len(units)), 9*len(units), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		ch, s := it%3+1, it/3%3+1
		d := cut(units[it/9], steps+ch-1, trunc)
		for _, end := range ends {
			*p = plan{data: d, end: end, chunks: fixed(len(d), ch), with: s&1 == 0, def: s}
			x.check(w, p)
			w.Poll()
		}
	})
	many := []int{2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096}
	small := inputs(decStreamTokens, 4, trunc)
	e.Par("many empty reads", fmt.Sprintf("%d short streams; %v empty reads of the source in a row at every place, chunks of 1 and 2, buffers of 1, 3, 64", len(small), many), len(small), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		d := small[it]
		if _, ok := refFrom(nil, d); ok == trunc {
			return
		}
		for _, c := range []int{1, 2} {
			ch := fixed(len(d), c)
			for _, m := range many {
				for at := 0; at <= len(ch); at++ {
					*p = plan{data: d, chunks: append(append(append([]int(nil), ch[:at]...), make([]int, m)...), ch[at:]...), with: at < len(ch)}
					for _, end := range ends {
						p.end = end
						for _, s := range []int{1, 3, 64} {
							p.def = s
							x.check(w, p)
						}
					}
				}
			}
		}
	})
	lens := streamSizes(e)
	chunks := []int{4096, 65535, 65536, 65537, 1 << 30}
	bufs := []int{512, 4096, 65535, 65536, 1 << 18, 1 << 20, 1<<20 + 1, 1 << 21}
	e.Par("very large", fmt.Sprintf("streams of %d lengths around 2^9..2^%d of %d periods, in chunks of %v, buffers of %v", len(lens), e.pick(20, 22), len(units), chunks, bufs), len(lens)*len(units), func(w *Worker, it int) {
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		it = len(lens)*len(units) - 1 - it
		d := cut(units[it%len(units)], lens[it/len(units)], trunc)
		for _, end := range ends {
			for ci, c := range chunks {
				if ci > 0 && ci+1 < len(chunks) && c > len(d)+1 {
					continue
				}
				*p = plan{data: d, end: end, chunks: fixed(len(d), c), with: ci&1 == 1}
				for _, s := range bufs {
					p.def = s
					x.check(w, p)
					w.Poll()
				}
			}
		}
	})
}

// readerErrors ends short streams with every kind of error.
func readerErrors(e *Eng) {
	all := allErrs(io.EOF)
	small := inputs(decStreamTokens, e.pick(4, 5), true)
	e.Par("error values", fmt.Sprintf("%d short sources, complete or not, that end with each of %d errors: every split into chunks, alone and with the last bytes, buffers %v", len(small), len(all), bufMenu), len(small), func(w *Worker, i int) {
		for _, end := range all {
			exploreReader(e, w, small[i], end, 0, 1)
		}
	})
}

// moreWriter explores the writer beyond short texts.
func moreWriter(e *Eng) {
	tok := encStreamTokens
	k := e.pick(9, 16)
	e.Par("runs", fmt.Sprintf("texts a^i b^j, a and b any of %d tokens, i and j 0..%d, in writes of 1..8", len(tok), k), (k+1)*(k+1), func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		for _, a := range tok {
			for _, b := range tok {
				p.data = []byte(strings.Repeat(a, it/(k+1)) + strings.Repeat(b, it%(k+1)))
				for c := 1; c <= 8; c++ {
					p.parts = fixed(len(p.data), c)
					x.check(w, p)
				}
			}
		}
	})
	units := []string{"가", "A", "A가", "§\U0001F600\ufffdB", "\xff\xea", "\xf0\x9f\x98가", "\U0002AC00"}
	n := e.pick(9, 12)
	e.Par("periodic", fmt.Sprintf("texts of 120 bytes of %d periods, in writes of every cycle of 3 sizes of 0..%d", len(units), n), (n+1)*(n+1)*(n+1), func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		cc := [3]int{it % (n + 1), it / (n + 1) % (n + 1), it / (n + 1) / (n + 1)}
		if cc[0]+cc[1]+cc[2] == 0 {
			return
		}
		for _, u := range units {
			p.data = []byte(strings.Repeat(u, 120/len(u)+1))[:120]
			p.parts = nil
			for left, i := len(p.data), 0; left > 0; i++ {
				c := cc[i%3]
				if c > left {
					c = left
				}
				p.parts = append(p.parts, c)
				left -= c
			}
			x.check(w, p)
		}
	})
	e.Par("sequences", fmt.Sprintf("texts of up to 3 of %d sequences with a meaning of their own elsewhere, in writes of 1, 2, 3, 4 and all", len(encSpecial)), len(encSpecial)*len(encSpecial), func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		ab := encSpecial[it/len(encSpecial)] + encSpecial[it%len(encSpecial)]
		for _, c := range append([]string{""}, encSpecial...) {
			p.data = []byte(ab + c)
			for _, ch := range []int{1, 2, 3, 4, 64} {
				p.parts = fixed(len(p.data), ch)
				x.check(w, p)
			}
		}
	})
	e.Par("two ASCII bytes", "every two ASCII bytes before, between and after Hangul, in writes of 1 and all", 128, func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		for b := 0; b < 128; b++ {
			ab := string([]byte{byte(it), byte(b)})
			for _, d := range []string{ab, ab + "가" + ab + "§" + ab} {
				p.data = []byte(d)
				for _, ch := range []int{1, 64} {
					p.parts = fixed(len(d), ch)
					x.check(w, p)
				}
			}
		}
	})
	e.Par("every three bytes", "every string of 3 bytes from C0 up (thorough: from 80), before an A and a FF, in writes of 1, and of 2, 1, 1, 1", 0x10000, func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		if it>>8 < e.pick(0xC0, 0x80) {
			return
		}
		for b := 0; b < 256; b++ {
			p.data = []byte{byte(it >> 8), byte(it), byte(b), 'A', 0xFF}
			p.parts = []int{1, 1, 1, 1, 1}
			x.check(w, p)
			p.parts = []int{2, 1, 1, 1}
			x.check(w, p)
		}
	})
	lens := streamSizes(e)
	parts := []int{1, 2, 3, 4096, 65535, 65536, 65537, 1 << 30}
	e.Par("very large", fmt.Sprintf("texts of %d lengths around 2^9..2^%d of %d periods, in writes of %v, and of everything but the last byte", len(lens), e.pick(20, 22), len(units), parts), len(lens)*len(units), func(w *Worker, it int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		it = len(lens)*len(units) - 1 - it
		size := lens[it/len(units)]
		u := units[it%len(units)]
		p.data = []byte(strings.Repeat(u, size/len(u)+1))[:size]
		for _, c := range parts {
			if c < 4 && size&7 != 0 && !e.thorough() {
				continue
			}
			p.parts = fixed(size, c)
			x.check(w, p)
			w.Poll()
		}
		p.parts = []int{size - 1, 0, 1}
		x.check(w, p)
		p.parts = []int{1, size - 2, 1}
		x.check(w, p)
	})
}

// writerErrors fails the sink with every kind of error, and many times.
func writerErrors(e *Eng) {
	all := allErrs()
	small := dedup(inputs([]string{"A", "가", "\xea", "\xf0\x9f\x98"}, e.pick(6, 7), false))
	e.Par("error values", fmt.Sprintf("%d short texts in every split into writes, any one sink call failing with each of %d errors, the write repeated or abandoned", len(small), len(all)), len(small), func(w *Worker, i int) {
		var x wrun
		p := &wplan{data: small[i]}
		w.Desc(func() string { return p.String() })
		compositions(len(p.data), func(parts []int) {
			p.parts = parts
			for _, err := range all {
				p.err = err
				for f := 0; f < len(parts); f++ {
					p.fail = []int{f}
					for p.giveUp = 0; p.giveUp < 2; p.giveUp++ {
						x.check(w, p)
					}
				}
			}
			p.giveUp = 0
		})
	})
	many := []int{3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024}
	e.Par("many failures", fmt.Sprintf("%d short texts in every split into writes, the sink failing %v times in a row from any call on, the write repeated until it succeeds", len(small), many), len(small), func(w *Worker, i int) {
		var x wrun
		p := &wplan{data: small[i], err: errSink}
		w.Desc(func() string { return p.String() })
		if len(p.data) > 5 && !e.thorough() {
			return
		}
		compositions(len(p.data), func(parts []int) {
			p.parts = parts
			for f := 0; f < len(parts); f++ {
				for _, m := range many {
					p.fail = p.fail[:0]
					for k := 0; k < m; k++ {
						p.fail = append(p.fail, f+k)
					}
					x.check(w, p)
				}
			}
		})
	})
	e.Par("every failure pattern", fmt.Sprintf("texts of 2 periods in 1..%d writes of 1, 2 or 4 bytes, every subset of the first %d sink calls failing, repeated", e.pick(10, 14), e.pick(10, 14)), 1<<uint(e.pick(10, 14)), func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		n := e.pick(10, 14)
		for k := 0; k < n; k++ {
			if i>>uint(k)&1 != 0 {
				p.fail = append(p.fail, k)
			}
		}
		for _, u := range []string{"A가", "\U0001F600§"} {
			for _, c := range []int{1, 2, 4} {
				p.data = []byte(strings.Repeat(u, n*c))[:n*c]
				p.parts = fixed(n*c, c)
				p.giveUp = 0
				x.check(w, p)
				p.giveUp = ^uint64(0)
				x.check(w, p)
			}
		}
	})
	sizes := []int{100, 1000, 4096, 5000, 65536, 70000, 200000}
	e.Par("large failing writes", fmt.Sprintf("texts of %v bytes and one byte less in two or three writes, any of the sink calls failing once or twice", sizes), len(sizes)*2, func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink}
		w.Desc(func() string { return p.String() })
		size := sizes[i/2] - i%2
		for _, u := range []string{"가", "A", "§\U0001F600\ufffdB"} {
			p.data = []byte(strings.Repeat(u, size/len(u)+1))[:size]
			for _, parts := range [][]int{{size}, {size / 2, size - size/2}, {1, size - 1}, {size - 1, 1}, {2, size - 4, 2}} {
				p.parts = parts
				for f := 0; f < len(parts); f++ {
					p.fail = []int{f}
					x.check(w, p)
					p.fail = []int{f, f + 1}
					x.check(w, p)
					p.giveUp = 1
					x.check(w, p)
					p.giveUp = 0
				}
				w.Poll()
			}
		}
	})
}
