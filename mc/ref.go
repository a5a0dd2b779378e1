package main

// Reference models, written independently of the code under test.

import (
	_ "embed"
	"encoding/binary"
	"fmt"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

const fffd = 0xFFFD

// ---- letters ----

// compatibility letters that can lead and close a syllable, in Unicode order.
var refLeads = []rune{0x3131, 0x3132, 0x3134, 0x3137, 0x3138, 0x3139, 0x3141, 0x3142, 0x3143, 0x3145,
	0x3146, 0x3147, 0x3148, 0x3149, 0x314A, 0x314B, 0x314C, 0x314D, 0x314E}
var refTails = []rune{0x3131, 0x3132, 0x3133, 0x3134, 0x3135, 0x3136, 0x3137, 0x3139, 0x313A, 0x313B, 0x313C,
	0x313D, 0x313E, 0x313F, 0x3140, 0x3141, 0x3142, 0x3144, 0x3145, 0x3146, 0x3147, 0x3148, 0x314A, 0x314B,
	0x314C, 0x314D, 0x314E}

const nMedial = 21

const (
	fLead = 1 << iota
	fMedial
	fTail
	fCompCons
	fCompVow
	fSyll
)

// refRune is what the model knows about a rune of the BMP.
type refRune struct {
	flags                      uint8
	compat, lead, medial, tail rune
	l, m, t                    rune // parts of a syllable
	stroke                     int
	elems                      []rune
}

var refTab [0x10000]refRune
var refZero refRune
var joinTab [19][21][28]rune

func ref(r rune) *refRune {
	if r < 0 || r > 0xFFFF {
		return &refZero
	}
	return &refTab[r]
}

// basic letters and stroke counts
var refStroke = map[rune]int{
	'ㄱ': 1, 'ㄴ': 1, 'ㅇ': 1, 'ㅡ': 1, 'ㅣ': 1,
	'ㄷ': 2, 'ㅅ': 2, 'ㅋ': 2, 'ㅏ': 2, 'ㅓ': 2, 'ㅗ': 2, 'ㅜ': 2,
	'ㄹ': 3, 'ㅁ': 3, 'ㅈ': 3, 'ㅌ': 3, 'ㅎ': 3, 'ㅑ': 3, 'ㅕ': 3, 'ㅛ': 3, 'ㅠ': 3,
	'ㅂ': 4, 'ㅊ': 4, 'ㅍ': 4,
}

var refElems = map[rune]string{
	'ㄲ': "ㄱㄱ", 'ㄳ': "ㄱㅅ", 'ㄵ': "ㄴㅈ", 'ㄶ': "ㄴㅎ", 'ㄸ': "ㄷㄷ", 'ㄺ': "ㄹㄱ", 'ㄻ': "ㄹㅁ",
	'ㄼ': "ㄹㅂ", 'ㄽ': "ㄹㅅ", 'ㄾ': "ㄹㅌ", 'ㄿ': "ㄹㅍ", 'ㅀ': "ㄹㅎ", 'ㅃ': "ㅂㅂ", 'ㅄ': "ㅂㅅ",
	'ㅆ': "ㅅㅅ", 'ㅉ': "ㅈㅈ",
	'ㅐ': "ㅏㅣ", 'ㅒ': "ㅑㅣ", 'ㅔ': "ㅓㅣ", 'ㅖ': "ㅕㅣ", 'ㅘ': "ㅗㅏ", 'ㅙ': "ㅗㅏㅣ", 'ㅚ': "ㅗㅣ",
	'ㅝ': "ㅜㅓ", 'ㅞ': "ㅜㅓㅣ", 'ㅟ': "ㅜㅣ", 'ㅢ': "ㅡㅣ",
}

func init() {
	leadIx, tailIx := map[rune]int{}, map[rune]int{}
	for i, c := range refLeads {
		leadIx[c] = i
	}
	for i, c := range refTails {
		tailIx[c] = i
	}
	set := func(r, compat rune, flag uint8) {
		x := &refTab[r]
		x.flags |= flag
		x.compat = compat
		if i, ok := leadIx[compat]; ok {
			x.lead = 0x1100 + rune(i)
		}
		if i, ok := tailIx[compat]; ok {
			x.tail = 0x11A8 + rune(i)
		}
		if compat >= 0x314F && compat <= 0x3163 {
			x.medial = 0x1161 + compat - 0x314F
		}
		if e, ok := refElems[compat]; ok {
			x.elems = []rune(e)
			for _, c := range x.elems {
				x.stroke += refStroke[c]
			}
		} else {
			x.stroke = refStroke[compat]
		}
		if x.stroke == 0 {
			panic("reference: no stroke count")
		}
	}
	for c := rune(0x3131); c <= 0x314E; c++ {
		set(c, c, fCompCons)
	}
	for c := rune(0x314F); c <= 0x3163; c++ {
		set(c, c, fCompVow)
	}
	for i, c := range refLeads {
		set(0x1100+rune(i), c, fLead)
	}
	for i := rune(0); i < nMedial; i++ {
		set(0x1161+i, 0x314F+i, fMedial)
	}
	for i, c := range refTails {
		set(0x11A8+rune(i), c, fTail)
	}
	// a conjoining letter is only convertible in its own role ("compatibility
	// letter to lead"): what is already in the target form stays, the other
	// roles are not reachable from a conjoining letter.
	for r := rune(0x1100); r < 0x1200; r++ {
		x := &refTab[r]
		if x.flags&fLead == 0 {
			x.lead = 0
		}
		if x.flags&fMedial == 0 {
			x.medial = 0
		}
		if x.flags&fTail == 0 {
			x.tail = 0
		}
	}
	// syllables, by counting
	s := rune(0xAC00)
	for l := rune(0); l < 19; l++ {
		for m := rune(0); m < 21; m++ {
			for t := rune(0); t < 28; t++ {
				x := &refTab[s]
				x.flags = fSyll
				x.l, x.m = 0x1100+l, 0x1161+m
				if t > 0 {
					x.t = 0x11A7 + t
				}
				x.stroke = refTab[x.l].stroke + refTab[x.m].stroke
				if t > 0 {
					x.stroke += refTab[x.t].stroke
				}
				joinTab[l][m][t] = s
				s++
			}
		}
	}
}

// refJoin is the reference composition.
func refJoin(l, m, t rune) rune {
	a, b := ref(l), ref(m)
	if a.lead == 0 || b.medial == 0 {
		return fffd
	}
	ti := rune(0)
	if t != 0 {
		c := ref(t)
		if c.tail == 0 {
			return fffd
		}
		ti = c.tail - 0x11A7
	}
	return joinTab[a.lead-0x1100][b.medial-0x1161][ti]
}

// selfTest checks the reference against the Unicode data of x/text.
func selfTest() error {
	if refTab[0xD7A3].flags != fSyll || refTab[0xD7A4].flags != 0 {
		return fmt.Errorf("syllable block")
	}
	for s := rune(0xAC00); s <= 0xD7A3; s++ {
		x := &refTab[s]
		want := string(x.l) + string(x.m)
		if x.t != 0 {
			want += string(x.t)
		}
		if norm.NFD.String(string(s)) != want {
			return fmt.Errorf("NFD of %U", s)
		}
	}
	for c := rune(0x3131); c <= 0x3163; c++ {
		x := &refTab[c]
		n := norm.NFKD.String(string(c))
		r, _ := utf8.DecodeRuneInString(n)
		if r > 0x1112 && r < 0x1161 {
			continue // an archaic lead cluster, which this package does not have
		}
		if r != x.lead && r != x.medial && r != x.tail {
			return fmt.Errorf("NFKD of %U is %U", c, r)
		}
	}
	if len(cpPairs) != 17048 || len(hanjaKeys) != 27496 {
		return fmt.Errorf("reference data sizes")
	}
	return nil
}

// ---- CP949 ----

//go:embed data/cp949.bin
var cpBin []byte

type cpPair struct {
	code uint16
	r    rune
}

var cpPairs []cpPair
var cpDec [0x10000]rune   // pair -> rune, 0 if none
var cpEnc [0x10000]uint16 // BMP rune -> pair, 0 if none
var cpOut [0x10000]struct {
	n uint8
	b [3]byte
} // UTF-8 of the decoded pair

func init() {
	for i := 0; i+4 <= len(cpBin); i += 4 {
		p := cpPair{binary.BigEndian.Uint16(cpBin[i:]), rune(binary.BigEndian.Uint16(cpBin[i+2:]))}
		cpPairs = append(cpPairs, p)
		cpDec[p.code] = p.r
		cpEnc[p.r] = p.code
	}
	for c := range cpOut {
		r := cpDec[c]
		if r == 0 {
			r = fffd
		}
		cpOut[c].n = uint8(utf8.EncodeRune(cpOut[c].b[:], r))
	}
}

// refFrom appends the decoding of in to dst; ok is false if in is truncated,
// and then dst has everything before the truncated pair.
func refFrom(dst, in []byte) (out []byte, ok bool) {
	for i := 0; i < len(in); {
		if in[i] < 0x80 {
			dst = append(dst, in[i])
			i++
			continue
		}
		if i+1 == len(in) {
			return dst, false
		}
		o := &cpOut[uint16(in[i])<<8|uint16(in[i+1])]
		dst = append(dst, o.b[:o.n]...)
		i += 2
	}
	return dst, true
}

// refTo appends the encoding of in to dst. If stream, it stops before an
// unfinished character at the end. n is what it consumed.
func refTo(dst, in []byte, stream bool) (out []byte, n int) {
	for i := 0; i < len(in); {
		size, r := refRuneAt(in[i:])
		if size == 0 { // unfinished
			if stream {
				return dst, i
			}
			dst = append(dst, '?')
			i++
			continue
		}
		switch {
		case r < 0:
			dst = append(dst, '?')
		case r < 0x80:
			dst = append(dst, byte(r))
		case r <= 0xFFFF && cpEnc[r] != 0:
			dst = append(dst, byte(cpEnc[r]>>8), byte(cpEnc[r]))
		default:
			dst = append(dst, '?')
		}
		i += size
	}
	return dst, len(in)
}

// refRuneAt reads one character by the well-formedness table of the Unicode
// standard (Table 3-7): size 0 means unfinished, r = -1 an ill-formed byte.
func refRuneAt(p []byte) (size int, r rune) {
	b := p[0]
	var n int
	lo, hi := byte(0x80), byte(0xBF)
	switch {
	case b < 0x80:
		return 1, rune(b)
	case b >= 0xC2 && b <= 0xDF:
		n, r = 2, rune(b&0x1F)
	case b >= 0xE0 && b <= 0xEF:
		n, r = 3, rune(b&0x0F)
		if b == 0xE0 {
			lo = 0xA0
		}
		if b == 0xED {
			hi = 0x9F
		}
	case b >= 0xF0 && b <= 0xF4:
		n, r = 4, rune(b&0x07)
		if b == 0xF0 {
			lo = 0x90
		}
		if b == 0xF4 {
			hi = 0x8F
		}
	default:
		return 1, -1
	}
	for k := 1; k < n; k++ {
		if k == len(p) {
			return 0, 0
		}
		c := p[k]
		if c < lo || c > hi {
			return 1, -1
		}
		lo, hi = 0x80, 0xBF
		r = r<<6 | rune(c&0x3F)
	}
	return n, r
}

// ---- Hanja ----

//go:embed data/hanja.bin
var hanjaBin []byte

var hanjaKeys []rune
var hanjaTab [0x10000]rune

func init() {
	for i := 0; i+4 <= len(hanjaBin); i += 4 {
		k := rune(binary.BigEndian.Uint16(hanjaBin[i:]))
		hanjaKeys = append(hanjaKeys, k)
		hanjaTab[k] = rune(binary.BigEndian.Uint16(hanjaBin[i+2:]))
	}
}

// refIsHanja is the set named by the property, not the data file.
func refIsHanja(r rune) bool {
	switch {
	case r >= 0x3400 && r <= 0x4DB5, r >= 0x4E00 && r <= 0x9FA5:
		return true
	}
	switch r {
	case 0xFA0E, 0xFA0F, 0xFA11, 0xFA13, 0xFA14, 0xFA1F, 0xFA21, 0xFA23, 0xFA24, 0xFA27, 0xFA28, 0xFA29:
		return true
	}
	return false
}

func refReading(r rune) rune {
	if r < 0 || r > 0xFFFF {
		return 0
	}
	return hanjaTab[r]
}

// refConvert handles well-formed text.
func refConvert(dst []byte, s string) []byte {
	for _, r := range s {
		if h := refReading(r); h != 0 {
			r = h
		}
		dst = utf8.AppendRune(dst, r)
	}
	return dst
}

func hash64(bs ...[]byte) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range bs {
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = (h ^ 0x1FF) * 1099511628211
	}
	return h
}
