package main

// Texts that code which guesses could take for something else: Korean in other
// encodings, escapes and containers. They are bytes like any others.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"unicode/utf16"

	"golang.org/x/text/transform"
	"golang.org/x/text/unicode/norm"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

var foreignBase = []string{
	"가", "한글", "안녕하세요", "대한민국 만세", "동해물과 백두산이 마르고 닳도록 하느님이 보우하사 우리나라 만세.", "ㅋㅋㅋ", "ㅎㅎ!", "ㄱㄴㄷ", "똠방각하", "뷁", "펲시콜라 찦차", "믜틔", "大韓民國", "漢字와 한글", "日本語 テスト", "中文", "Ünïcödé", "Привет", "Ελλάδα", "123,456원", "₩1,000", "①②③", "㈜회사", "™©®", "a가b나c", "\"인용\" ‘문장’…", "한글\n두 번째 줄\n", "한글\r\n두 번째 줄\r\n", "\t들여\t쓰기", "😀 웃음", "가\u0301", "이메일: a@b.kr", "http://한글.한국/경로?질문=답", "C:\\한글\\파일.txt", "plain ASCII text", "~~", "",
}

// isoKR is ISO-2022-KR.
func isoKR(s string) string {
	b, _ := refTo(nil, []byte(s), false)
	out, in := []byte("\x1b$)C"), false
	for k := 0; k < len(b); k++ {
		if two := b[k] >= 0xA1 && k+1 < len(b) && b[k+1] >= 0xA1; two != in {
			in = two
			if in {
				out = append(out, 0x0E)
			} else {
				out = append(out, 0x0F)
			}
		}
		if out = append(out, b[k]&0x7F); in {
			k++
			out = append(out, b[k]&0x7F)
		}
	}
	if in {
		out = append(out, 0x0F)
	}
	return string(out)
}

func u16(s string, big bool) string {
	var o []byte
	for _, u := range utf16.Encode([]rune(s)) {
		if big {
			o = append(o, byte(u>>8), byte(u))
		} else {
			o = append(o, byte(u), byte(u>>8))
		}
	}
	return string(o)
}

func eachUnit(s, f string) string {
	var o strings.Builder
	for _, r := range s {
		if r < 0x80 {
			o.WriteRune(r)
		} else {
			fmt.Fprintf(&o, f, r)
		}
	}
	return o.String()
}

func latin1(s string) string {
	var o []rune
	for i := 0; i < len(s); i++ {
		o = append(o, rune(s[i]))
	}
	return string(o)
}

func cp(s string) string {
	b, _ := refTo(nil, []byte(s), false)
	return string(b)
}

func read949(s string) string {
	b, _ := refFrom(nil, []byte(s))
	return string(b)
}

// foreign are ways to write a text down.
var foreign = []struct {
	name string
	f    func(s string) string
}{
	{"UTF-8", func(s string) string { return s }},
	{"UTF-8 with BOM", func(s string) string { return "\xef\xbb\xbf" + s }},
	{"UTF-16LE", func(s string) string { return u16(s, false) }},
	{"UTF-16BE", func(s string) string { return u16(s, true) }},
	{"UTF-16LE with BOM", func(s string) string { return "\xff\xfe" + u16(s, false) }},
	{"UTF-16BE with BOM", func(s string) string { return "\xfe\xff" + u16(s, true) }},
	{"CP949", cp},
	{"CP949 after a UTF-8 BOM", func(s string) string { return "\xef\xbb\xbf" + cp(s) }},
	{"CP949 with NUL", func(s string) string { return cp(s) + "\x00" }},
	{"CP949 with ^Z", func(s string) string { return cp(s) + "\x1a" }},
	{"decomposed UTF-8", norm.NFD.String},
	{"compatibility-decomposed UTF-8", norm.NFKD.String},
	{"ISO-2022-KR", isoKR},
	{"decimal entities", func(s string) string { return eachUnit(s, "&#%d;") }},
	{"hexadecimal entities", func(s string) string { return eachUnit(s, "&#x%X;") }},
	{"Java escapes", func(s string) string { return eachUnit(s, "\\u%04x") }},
	{"U+ notation", func(s string) string { return eachUnit(s, "U+%04X") }},
	{"URL", url.QueryEscape},
	{"URL of CP949", func(s string) string { return url.QueryEscape(cp(s)) }},
	{"base64", func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }},
	{"hex", func(s string) string { return hex.EncodeToString([]byte(cp(s))) }},
	{"quoted", func(s string) string { return fmt.Sprintf("%q", s) }},
	{"MIME word", func(s string) string {
		return "=?euc-kr?B?" + base64.StdEncoding.EncodeToString([]byte(cp(s))) + "?="
	}},
	{"UTF-7", func(s string) string {
		return "+" + strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(u16(s, true))), "=") + "-"
	}},
	{"XML, CP949", func(s string) string { return "<?xml version=\"1.0\" encoding=\"euc-kr\"?>" + cp(s) }},
	{"XML, UTF-8", func(s string) string { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + s }},
	{"HTML, CP949", func(s string) string { return "<meta charset=\"cp949\">" + cp(s) }},
	{"HTML, UTF-8", func(s string) string { return "<meta charset=utf-8>" + s }},
	{"mojibake: UTF-8 taken for Latin-1", latin1},
	{"mojibake: CP949 taken for Latin-1", func(s string) string { return latin1(cp(s)) }},
	{"mojibake: UTF-8 taken for CP949", read949},
	{"UTF-8 twice", func(s string) string { return latin1(latin1(s)) }},
	{"CP949 and UTF-8 mixed", func(s string) string { return cp(s) + s + cp(s) }},
	{"CP949, bytes swapped", func(s string) string {
		b := []byte(cp(s))
		for k := 0; k+1 < len(b); k += 2 {
			b[k], b[k+1] = b[k+1], b[k]
		}
		return string(b)
	}},
	{"CP949, half a character at the end", func(s string) string { return cp(s) + "\xb0" }},
	{"UTF-8, a part of a character at the end", func(s string) string { return s + "\xea\xb0" }},
}

var foreignOnce sync.Once
var foreignAll []string

// foreignTexts are the texts in all these ways, once and repeated, alone and
// after and before something.
func foreignTexts() []string {
	foreignOnce.Do(func() {
		had := map[string]bool{}
		for _, enc := range foreign {
			for _, b := range foreignBase {
				for _, n := range []int{1, 2, 30} {
					for _, t := range []string{enc.f(strings.Repeat(b, n)), "x" + enc.f(strings.Repeat(b, n)), enc.f(strings.Repeat(b, n)) + "\n", "\xb0\xa1" + enc.f(b)} {
						if !had[t] {
							had[t] = true
							foreignAll = append(foreignAll, t)
						}
					}
				}
			}
		}
	})
	return foreignAll
}

func foreignSpace(n int) string {
	return fmt.Sprintf("%d texts: %d Korean and other texts in %d encodings, escapes and containers (UTF-8, UTF-16, ISO-2022-KR, entities, mojibake ...), once and repeated, after and before something", n, len(foreignBase), len(foreign))
}

// foreignWords runs f on the texts.
func foreignWords(e *Eng, f func(c *coder, in []byte)) {
	ts := foreignTexts()
	e.Par("other encodings", foreignSpace(len(ts)), len(ts), func(w *Worker, i int) {
		f(newCoder(w), []byte(ts[i]))
	})
}

func foreignReader(e *Eng, ends []error, trunc bool) {
	ts := foreignTexts()
	e.Par("other encodings", foreignSpace(len(ts))+"; those complete or not, as the harness wants, in chunks of 1, 2, 7, 512 and all, buffers of 1, 5, 512", len(ts), func(w *Worker, i int) {
		d := []byte(ts[i])
		if _, ok := refFrom(nil, d); ok == trunc {
			return
		}
		var x rrun
		p := &plan{}
		w.Desc(func() string { return p.String() })
		for _, end := range ends {
			for k, ch := range []int{1, 2, 7, 512, 1 << 20} {
				for _, s := range []int{1, 5, 512} {
					*p = plan{data: d, end: end, chunks: fixed(len(d), ch), with: k&1 == 0, def: s}
					x.check(w, p)
				}
			}
		}
	})
}

func foreignWriter(e *Eng) {
	ts := foreignTexts()
	e.Par("other encodings", foreignSpace(len(ts))+"; in writes of 1, 2, 3, 4, 5, 512 and all", len(ts), func(w *Worker, i int) {
		var x wrun
		p := &wplan{err: errSink, data: []byte(ts[i])}
		w.Desc(func() string { return p.String() })
		for _, ch := range []int{1, 2, 3, 4, 5, 512, 1 << 20} {
			p.parts = fixed(len(p.data), ch)
			x.check(w, p)
		}
	})
}

func foreignTransform(e *Eng, c *codec) {
	ts := foreignTexts()
	e.Par("other encodings", foreignSpace(len(ts))+"; constant windows and rooms of 4, 16 and everything", len(ts), func(w *Worker, i int) {
		x := &trun{c: c, in: []byte(ts[i])}
		w.Desc(func() string { return fmt.Sprintf("%s, input %q", c.name, clip(string(x.in))) })
		for _, win := range []int{4, 16, 1 << 14} {
			for _, d := range []int{4, 16, 1 << 14} {
				x.geometry(w, win, d)
			}
		}
	})
}

func foreignThrough(e *Eng) {
	ts := foreignTexts()
	e.Par("other encodings", foreignSpace(len(ts))+fmt.Sprintf("; decoded and encoded by %d ways through x/text", len(throughs)), len(ts), func(w *Worker, i int) {
		in := []byte(ts[i])
		enc := cp949.NewCP949Encoding()
		for dir := 0; dir < 2; dir++ {
			want, ok := refFrom(nil, in)
			if dir == 1 {
				want, _ = refTo(nil, in, false)
				ok = true
			}
			for _, th := range throughs {
				w.Desc(func() string { return fmt.Sprintf("%s of %q", th.name, clip(ts[i])) })
				var t transform.Transformer = enc.NewDecoder()
				if dir == 1 {
					t = enc.NewEncoder()
				}
				got, err := th.f(t, in)
				if !sameOut(got, err, want, ok, th.partial) {
					w.Fail(int64(len(in)), fmt.Sprintf("%s of %q", th.name, clip(ts[i])), fmt.Sprintf("%q, truncated %v", clip(string(want)), !ok), fmt.Sprintf("%q, %v", clip(string(got)), err), nil, "")
				}
				w.traces++
				w.trans++
				w.Tick(true)
			}
		}
	})
}
