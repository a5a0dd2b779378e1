package main

// X04: totality. No argument makes a call panic, hang or blow up.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// totEntry is one way to put bytes into the packages. It says how many bytes
// came out; more than max per byte in is too much.
type totEntry struct {
	name string
	max  int
	f    func(in []byte) (out int, bad string)
}

// deadSrc never has anything, and never ends.
type deadSrc struct{ n int }

var errDead = errors.New("a source with nothing to read is read for ever")

func (s *deadSrc) Read(p []byte) (int, error) {
	if s.n++; s.n > 100000 {
		panic(errDead)
	}
	return 0, nil
}

// drain reads r with buffers of size until an error, and insists on progress.
func drain(r io.Reader, size, in int) (out int, bad string) {
	buf := make([]byte, size)
	idle := 0
	for {
		n, err := r.Read(buf)
		if n < 0 || n > size {
			return out, fmt.Sprintf("Read into %d bytes returned %d", size, n)
		}
		out += n
		if err != nil {
			return out, ""
		}
		if n == 0 {
			if idle++; idle > in+100 {
				return out, "Read makes no progress and returns no error"
			}
		}
		if out > 3*in+100 {
			return out, "Read delivers without end"
		}
	}
}

// stepTransform drives a transformer with windows and rooms of fixed sizes.
func stepTransform(t transform.Transformer, in []byte, win, room int) (out int, bad string) {
	dst := make([]byte, room)
	idle := 0
	for pos := 0; ; {
		end := pos + win
		eof := false
		if end >= len(in) {
			end, eof = len(in), true
		}
		nd, ns, err := t.Transform(dst, in[pos:end], eof)
		if nd < 0 || nd > room || ns < 0 || ns > end-pos {
			return out, fmt.Sprintf("Transform returned %d, %d, %v", nd, ns, err)
		}
		out += nd
		pos += ns
		switch err {
		case nil:
			if pos == len(in) {
				return out, ""
			}
			if pos < end {
				return out, "Transform left something and gave no reason"
			}
		case transform.ErrShortDst:
		case transform.ErrShortSrc:
			if eof {
				return out, "Transform asks for more at the end of the input"
			}
		default:
			return out, ""
		}
		if nd == 0 && ns == 0 {
			if room < 3 {
				return out, "" // may be too small for a character
			}
			if err == transform.ErrShortSrc && win < 8 {
				win++ // what a caller does
			} else if idle++; idle > 8 {
				return out, "Transform makes no progress"
			}
		} else {
			idle = 0
		}
	}
}

func noBad(n int) (int, string) { return n, "" }

var entries = []totEntry{
	{"cp949.From", 3, func(in []byte) (int, string) { b, _ := cp949.From(in); return noBad(len(b)) }},
	{"cp949.To", 3, func(in []byte) (int, string) { b, _ := cp949.To(in); return noBad(len(b)) }},
	{"hanja.Convert", 3, func(in []byte) (int, string) { return noBad(len(hanja.Convert(string(in)))) }},
	{"hangul.LastConsonant", 3, func(in []byte) (int, string) {
		hangul.LastConsonant(string(in))
		hangul.EndsWithConsonant(string(in))
		return 0, ""
	}},
	{"hangul.AppendPostposition (word)", 3, func(in []byte) (int, string) {
		return noBad(len(hangul.AppendPostposition(string(in), "", "")))
	}},
	{"hangul.AppendPostposition (particles)", 3, func(in []byte) (int, string) {
		n := len(hangul.AppendPostposition("말", string(in), "")) + len(hangul.AppendPostposition("마", "", string(in)))
		if n > 2*len(in)+6 {
			return 0, "more than the word and one particle"
		}
		return 0, ""
	}},
	{"NewReader, buffers of 4096", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(bytes.NewReader(in))
		return drain(r, 4096, len(in))
	}},
	{"NewReader, buffers of 1", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(bytes.NewReader(in))
		return drain(r, 1, len(in))
	}},
	{"NewReader, bytes one at a time into 64", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(&onebyte{in})
		return drain(r, 64, len(in))
	}},
	{"NewWriter, at once", 3, func(in []byte) (int, string) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		n, err := w.Write(in)
		if err != nil || n != len(in) {
			return 0, fmt.Sprintf("Write returned %d, %v", n, err)
		}
		return noBad(sink.Len())
	}},
	{"NewWriter, byte by byte", 3, func(in []byte) (int, string) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		for i := range in {
			if n, err := w.Write(in[i : i+1]); err != nil || n != 1 {
				return 0, fmt.Sprintf("Write returned %d, %v", n, err)
			}
		}
		return noBad(sink.Len())
	}},
	{"NewDecoder().Bytes", 3, func(in []byte) (int, string) {
		b, _ := cp949.NewCP949Encoding().NewDecoder().Bytes(in)
		return noBad(len(b))
	}},
	{"NewEncoder().Bytes", 3, func(in []byte) (int, string) {
		b, _ := cp949.NewCP949Encoding().NewEncoder().Bytes(in)
		return noBad(len(b))
	}},
	{"NewDecoder().Reader", 3, func(in []byte) (int, string) {
		return drain(cp949.NewCP949Encoding().NewDecoder().Reader(bytes.NewReader(in)), 512, len(in))
	}},
	{"NewEncoder().Writer", 3, func(in []byte) (int, string) {
		var sink bytes.Buffer
		w := cp949.NewCP949Encoding().NewEncoder().Writer(&sink)
		for p := in; len(p) > 0; {
			k := 7
			if k > len(p) {
				k = len(p)
			}
			if _, err := w.Write(p[:k]); err != nil {
				return sink.Len(), ""
			}
			p = p[k:]
		}
		if c, ok := w.(io.Closer); ok {
			c.Close()
		}
		return noBad(sink.Len())
	}},
	{"NewReader, bytes one at a time into 1", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(&onebyte{in})
		return drain(r, 1, len(in))
	}},
	{"NewReader, everything at once and an error with it", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(&allAtOnce{in})
		return drain(r, 3, len(in))
	}},
	{"NewReader, nothing every other time", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(&hesitant{b: in})
		return drain(r, 100, 2*len(in))
	}},
	{"NewWriter, parts of 5, each failing once", 3, func(in []byte) (int, string) {
		sink := &everyOther{}
		w, _ := cp949.NewWriter(sink)
		for p := in; len(p) > 0; {
			k := 5
			if k > len(p) {
				k = len(p)
			}
			n, err := w.Write(p[:k])
			if err == nil && n != k || err != nil && n != 0 {
				return 0, fmt.Sprintf("Write returned %d, %v", n, err)
			}
			if err == nil {
				p = p[k:]
			}
		}
		return noBad(sink.Len())
	}},
	{"NewDecoder().String", 3, func(in []byte) (int, string) {
		s, _ := cp949.NewCP949Encoding().NewDecoder().String(string(in))
		return noBad(len(s))
	}},
	{"NewEncoder().String", 3, func(in []byte) (int, string) {
		s, _ := cp949.NewCP949Encoding().NewEncoder().String(string(in))
		return noBad(len(s))
	}},
	{"decoder, windows of 16, room 8", 3, func(in []byte) (int, string) {
		return stepTransform(cp949.NewCP949Encoding().NewDecoder(), in, 16, 8)
	}},
	{"encoder, windows of 16, room 8", 3, func(in []byte) (int, string) {
		return stepTransform(cp949.NewCP949Encoding().NewEncoder(), in, 16, 8)
	}},
	{"decoder, window and room of everything", 3, func(in []byte) (int, string) {
		return stepTransform(cp949.NewCP949Encoding().NewDecoder(), in, len(in), 3*len(in)+3)
	}},
	{"encoder, window and room of everything", 3, func(in []byte) (int, string) {
		return stepTransform(cp949.NewCP949Encoding().NewEncoder(), in, len(in), 3*len(in)+3)
	}},
	{"NewReader, half of it in one Read, then buffers of 1", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(bytes.NewReader(in))
		n, err := r.Read(make([]byte, len(in)/2))
		if n < 0 || n > len(in)/2 {
			return n, "Read returned more than fits"
		}
		if err != nil {
			return noBad(n)
		}
		m, bad := drain(r, 1, len(in))
		return n + m, bad
	}},
	{"NewReader, buffers of 1, 2, 3 and so on", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(bytes.NewReader(in))
		buf := make([]byte, len(in)+2000)
		out, idle := 0, 0
		for k := 1; ; k++ {
			n, err := r.Read(buf[:k%len(buf)])
			if out += n; err != nil {
				return noBad(out)
			}
			if n == 0 {
				idle++
			}
			if idle > len(in)+100 || out > 3*len(in)+100 {
				return out, "Read has no end"
			}
		}
	}},
	{"NewReader, an empty Read before each of 3", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(bytes.NewReader(in))
		return drain(readFunc(func(p []byte) (int, error) {
			if n, err := r.Read(p[:0]); n != 0 || err != nil {
				return n, err
			}
			return r.Read(p)
		}), 3, len(in))
	}},
	{"NewWriter, half of it at once, then byte by byte", 3, func(in []byte) (int, string) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		for i := 0; i < len(in); {
			k := i + 1
			if i == 0 && len(in) > 1 {
				k = len(in) / 2
			}
			if n, err := w.Write(in[i:k]); err != nil || n != k-i {
				return 0, fmt.Sprintf("Write returned %d, %v", n, err)
			}
			i = k
		}
		return noBad(sink.Len())
	}},
	{"NewWriter, an empty Write before each byte", 3, func(in []byte) (int, string) {
		var sink bytes.Buffer
		w, _ := cp949.NewWriter(&sink)
		for i := range in {
			w.Write(nil)
			if n, err := w.Write(in[i : i+1]); err != nil || n != 1 {
				return 0, fmt.Sprintf("Write returned %d, %v", n, err)
			}
		}
		return noBad(sink.Len())
	}},
	{"NewWriter, at once, the sink failing nine times", 3, func(in []byte) (int, string) {
		sink := &failFirst{fails: 9}
		w, _ := cp949.NewWriter(sink)
		for k := 0; k < 20; k++ {
			if n, err := w.Write(in); err == nil {
				if n != len(in) {
					return 0, fmt.Sprintf("Write returned %d, %v", n, err)
				}
				return noBad(sink.Len())
			}
		}
		return 0, "Write never succeeds"
	}},
	{"decoder, the same window with rooms 0, 1, 2 and so on", 3, func(in []byte) (int, string) {
		return growRoom(cp949.NewCP949Encoding().NewDecoder(), in)
	}},
	{"encoder, the same window with rooms 0, 1, 2 and so on", 3, func(in []byte) (int, string) {
		return growRoom(cp949.NewCP949Encoding().NewEncoder(), in)
	}},
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// failFirst is a sink whose first calls fail.
type failFirst struct {
	bytes.Buffer
	fails int
}

func (s *failFirst) Write(p []byte) (int, error) {
	if s.fails > 0 {
		s.fails--
		return 0, errSink
	}
	return s.Buffer.Write(p)
}

// growRoom gives everything that is left and a little more room each time.
func growRoom(t transform.Transformer, in []byte) (out int, bad string) {
	dst := make([]byte, 3*len(in)+8)
	pos := 0
	for k := 0; ; k++ {
		nd, ns, err := t.Transform(dst[:k%len(dst)], in[pos:], true)
		if nd < 0 || nd > k%len(dst) || ns < 0 || ns > len(in)-pos {
			return out, fmt.Sprintf("Transform returned %d, %d, %v", nd, ns, err)
		}
		out, pos = out+nd, pos+ns
		if err != transform.ErrShortDst {
			if err == nil && pos < len(in) || err == transform.ErrShortSrc {
				bad = fmt.Sprintf("Transform ended with %v and %d bytes left", err, len(in)-pos)
			}
			return out, bad
		}
	}
}

// allAtOnce gives as much as it can, and its error with the last of it.
type allAtOnce struct{ b []byte }

func (s *allAtOnce) Read(p []byte) (int, error) {
	n := copy(p, s.b)
	if s.b = s.b[n:]; len(s.b) == 0 {
		return n, errSource
	}
	return n, nil
}

// hesitant gives nothing every other time.
type hesitant struct {
	b []byte
	n int
}

func (s *hesitant) Read(p []byte) (int, error) {
	if s.n++; s.n&1 == 1 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 7
	if n > len(s.b) {
		n = len(s.b)
	}
	n = copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

// everyOther call fails.
type everyOther struct {
	bytes.Buffer
	n int
}

func (s *everyOther) Write(p []byte) (int, error) {
	if s.n++; s.n&1 == 1 {
		return 0, errSink
	}
	return s.Buffer.Write(p)
}

// more entries, for short inputs only
var shortEntries = []totEntry{
	{"NewReader, all small buffers", 3, func(in []byte) (int, string) {
		out := 0
		for size := 1; size <= 4; size++ {
			r, _ := cp949.NewReader(&onebyte{in})
			r.Read(nil)
			n, bad := drain(r, size, len(in))
			r.Read(nil)
			if bad != "" {
				return n, bad
			}
			out = n
		}
		return out, ""
	}},
	{"decoder, all small windows and rooms", 3, func(in []byte) (int, string) {
		for win := 0; win <= 3; win++ {
			for room := 0; room <= 4; room++ {
				if win == 0 && len(in) > 0 {
					t := cp949.NewCP949Encoding().NewDecoder()
					t.Transform(make([]byte, room), nil, false)
					t.Transform(make([]byte, room), in, true)
					continue
				}
				if n, bad := stepTransform(cp949.NewCP949Encoding().NewDecoder(), in, win, room); bad != "" {
					return n, bad
				}
			}
		}
		return 0, ""
	}},
	{"encoder, all small windows and rooms", 3, func(in []byte) (int, string) {
		for win := 0; win <= 4; win++ {
			for room := 0; room <= 4; room++ {
				if win == 0 && len(in) > 0 {
					t := cp949.NewCP949Encoding().NewEncoder()
					t.Transform(make([]byte, room), nil, false)
					t.Transform(make([]byte, room), in, true)
					continue
				}
				if n, bad := stepTransform(cp949.NewCP949Encoding().NewEncoder(), in, win, room); bad != "" {
					return n, bad
				}
			}
		}
		return 0, ""
	}},
	{"NewWriter, a sink that always fails", 3, func(in []byte) (int, string) {
		w, _ := cp949.NewWriter(brokenSink{})
		for k := 0; k < 3; k++ {
			w.Write(nil)
			n, err := w.Write(in)
			if n < 0 || n > len(in) || err == nil && n < len(in) {
				return 0, fmt.Sprintf("Write returned %d, %v", n, err)
			}
		}
		return 0, ""
	}},
	{"NewReader, a source with nothing after the input", 3, func(in []byte) (int, string) {
		r, _ := cp949.NewReader(io.MultiReader(bytes.NewReader(in), &deadSrc{}))
		buf := make([]byte, 16)
		n := 0
		for k := 0; k < 4; k++ {
			m, err := r.Read(buf)
			n += m
			if err != nil {
				break
			}
		}
		return noBad(n)
	}},
}

type brokenSink struct{}

func (brokenSink) Write(p []byte) (int, error) { return 0, errSink }

// artTotal is the artefact of X04: an entry point and the input for it, or
// the unit whose repetition costs too much.
type artTotal struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Input    []byte `json:"input,omitempty"`
	Growth   []int  `json:"growth,omitempty"`
	Got      string `json:"got"`
}

func totCheck(n *totEntry, in []byte) string {
	out, bad := n.f(in)
	if bad == "" && out > n.max*len(in) {
		bad = fmt.Sprintf("%d bytes of output", out)
	}
	return bad
}

func (g *growth) bad() string {
	switch {
	case g.Bad != "":
		return g.Bad
	case g.Steps[2] > 40*g.Steps[0]+2000:
		return fmt.Sprintf("%v steps for %v bytes", g.Steps, g.Sizes)
	case g.Alloc[2] > 40*g.Alloc[0]+1<<20:
		return fmt.Sprintf("%v bytes allocated for %v bytes", g.Alloc, g.Sizes)
	}
	return ""
}

func init() {
	// -replaytotal FILE plays an artefact
	modes["-replaytotal"] = func(a []string) {
		var art artTotal
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		bad := ""
		if art.Growth != nil {
			g := growthChild(nil, buildInst().Bin, art.Growth[0], art.Growth[1], art.Growth[1]+1)
			bad = g.bad()
		} else {
			for _, l := range [][]totEntry{entries, shortEntries} {
				for k := range l {
					if l[k].name == art.Entry {
						bad = totCheck(&l[k], art.Input)
					}
				}
			}
		}
		fmt.Println(art.Entry, art.Got)
		if bad != "" {
			fmt.Println("broken:", bad)
			os.Exit(1)
		}
		fmt.Println("held")
	}
}

// growth is one measurement by the instrumented copy.
type growth struct {
	Entry   string   `json:"entry"`
	Pattern int      `json:"pattern"`
	Unit    string   `json:"unit"`
	Count   int64    `json:"count"`
	Sizes   [3]int   `json:"sizes"`
	Steps   [3]int64 `json:"steps"`
	Alloc   [3]int64 `json:"alloc"`
	Bad     string   `json:"bad,omitempty"`
	Done    bool     `json:"done"`
}

// growthPattern makes long inputs of one kind.
type growthPattern struct {
	name string
	f    func(size int) []byte
}

// growthPatterns are the units repeated, pairs of units repeated, a run of
// one unit followed by a run of another, a unit in front of a run, and two
// units that take turns in ever longer runs.
func growthPatterns() (l []growthPattern) {
	u := growthUnits
	for _, x := range u {
		x := x
		l = append(l, growthPattern{fmt.Sprintf("%q repeated", x), func(n int) []byte { return repeatTo(x, n) }})
	}
	for _, x := range u {
		for _, y := range u {
			if x == y {
				continue
			}
			x, y := x, y
			l = append(l,
				growthPattern{fmt.Sprintf("%q repeated", x+y), func(n int) []byte { return repeatTo(x+y, n) }},
				growthPattern{fmt.Sprintf("%q repeated, then %q repeated", x, y), func(n int) []byte {
					return append(repeatTo(x, n/2), repeatTo(y, n-n/2)...)
				}},
				growthPattern{fmt.Sprintf("%q, then %q repeated", x, y), func(n int) []byte {
					return append([]byte(x), repeatTo(y, n)...)[:n]
				}},
				growthPattern{fmt.Sprintf("%q repeated, then %q", x, y), func(n int) []byte {
					return append(repeatTo(x, n), y...)
				}},
				growthPattern{fmt.Sprintf("runs of %q and %q in turn, each longer than the one before", x, y), func(n int) (b []byte) {
					for k := 1; len(b) < n; k++ {
						b = append(b, bytes.Repeat([]byte(x), k)...)
						b = append(b, bytes.Repeat([]byte(y), k)...)
					}
					return b[:n]
				}},
			)
		}
	}
	return
}

var growthUnits = []string{"a", "\xb0\xa1", "가", "\xff", "\xc9\xfe", "大", "\xf0\x9f\x98\x80", "\xe0", "a\xb0\xa1", "가a", "\xed\xa0\x80", "\x80", "닭ㄱ", "\n", "\x00"}

func X04(e *Eng) {
	e.rule = "one case per (entry point, input) or rune, enumerated without repetition per harness; non-trivial if the input is not empty, or the rune is not ASCII"
	e.assume = []string{"work is counted in statements executed and bytes moved and allocated by the three packages, on an instrumented copy", "sources and sinks keep the contracts of io.Reader and io.Writer"}
	one := func(w *Worker, n *totEntry, in []byte) {
		w.Desc(func() string { return fmt.Sprintf("%s with %q", n.name, clip(string(in))) })
		if bad := totCheck(n, in); bad != "" {
			in := append([]byte(nil), in...)
			w.artefact = &artefact{"X04_input.json", artTotal{Property: "X04", Entry: n.name, Input: in, Got: bad}}
			w.Fail(int64(len(in)), fmt.Sprintf("%s with %q", n.name, clip(string(in))), fmt.Sprintf("an end, without panic, after at most %d bytes", n.max*len(in)), bad,
				func() bool { return totCheck(n, in) != "" }, "")
		}
		w.Tick(len(in) > 0)
	}
	all := func(w *Worker, in []byte) {
		for k := range entries {
			one(w, &entries[k], in)
		}
		for k := range shortEntries {
			one(w, &shortEntries[k], in)
		}
	}

	eachRune(e, "runes", func(w *Worker, r rune) {
		hangul.Split(r)
		hangul.SplitCompat(r)
		hangul.IsHangul(r)
		hangul.IsJaeum(r)
		hangul.IsMoeum(r)
		hangul.IsLead(r)
		hangul.IsMedial(r)
		hangul.IsTail(r)
		hangul.CompatJamo(r)
		hangul.Lead(r)
		hangul.Medial(r)
		hangul.Tail(r)
		hangul.SplitMultiElement(r)
		hangul.Stroke(r)
		hangul.Join(r, 'ㅏ', 0)
		hangul.Join('ㄱ', r, 0)
		hangul.Join('ㄱ', 'ㅏ', r)
		hangul.Join(r, r, r)
		hanja.IsHanja(r)
		w.Tick(r > 127 || r < 0)
	})
	encodingValues(e, false)
	e.Par("two bytes", "all inputs of up to two bytes, every entry point", 257, func(w *Worker, i int) {
		if i == 256 {
			all(w, nil)
			all(w, []byte{})
			for c := 0; c < 256; c++ {
				all(w, []byte{byte(c)})
			}
			return
		}
		for c := 0; c < 256; c++ {
			all(w, []byte{byte(i), byte(c)})
		}
	})
	if e.thorough() {
		e.Par("three bytes", "all inputs of three bytes, every entry point", 65536, func(w *Worker, i int) {
			for c := 0; c < 256; c++ {
				all(w, []byte{byte(i >> 8), byte(i), byte(c)})
			}
		})
	}
	// bytes at the edges of the classes of UTF-8, CP949 and ASCII
	class := []byte{0x00, 'A', 0x7F, 0x80, 0x9F, 0xA0, 0xA1, 0xB0, 0xBF, 0xC0, 0xC2, 0xC9, 0xDF, 0xE0, 0xEA, 0xED, 0xF0, 0xF4, 0xF5, 0xFD, 0xFE, 0xFF}
	depth := e.pick(4, 6)
	for d := 3; d <= depth; d++ {
		d := d
		e.Par(fmt.Sprintf("class strings of %d", d), fmt.Sprintf("all inputs of %d bytes from %d bytes at the edges of the classes, every entry point", d, len(class)), len(class)*len(class), func(w *Worker, i int) {
			in := make([]byte, d)
			in[0], in[1] = class[i/len(class)], class[i%len(class)]
			var rec func(k int)
			rec = func(k int) {
				if k == d {
					all(w, in)
					return
				}
				for _, c := range class {
					in[k] = c
					rec(k + 1)
				}
			}
			rec(2)
		})
	}
	// how the work grows
	in := buildInst()
	e.extra["instrumented_files"] = in.Files
	if in.Coarse != "" {
		e.extra["work"] = "bytes allocated only, as " + in.Coarse
	}
	ps := growthPatterns()
	const per = 60
	parts := (len(ps) + per - 1) / per
	e.Par("growth of work", fmt.Sprintf("%d entry points, %d patterns (%d units repeated, and five patterns of every two): statements, bytes looked at, moved and allocated at 2^12, 2^14 and 2^16 bytes; a factor of 16 in length may cost at most a factor of 40; the units at every length to 300 and around powers of two to 2^13, at no more than 8 times the cost per byte", len(entries), len(ps), len(growthUnits)), len(entries)*parts, func(w *Worker, i int) {
		k, lo := i%len(entries), i/len(entries)*per
		hi := lo + per
		if hi > len(ps) {
			hi = len(ps)
		}
		w.Desc(func() string { return fmt.Sprintf("%s with %s and the following", entries[k].name, ps[lo].name) })
		g := growthChild(w, in.Bin, k, lo, hi)
		w.evals += g.Count
		w.nontriv += g.Count
		if i%37 == 0 {
			e.Sample(fmt.Sprintf("%s with %s to %v bytes: %v steps, %v bytes allocated", g.Entry, g.Unit, g.Sizes, g.Steps, g.Alloc))
		}
		if bad := g.bad(); bad != "" {
			p := g.Pattern
			if p < lo || p >= hi {
				p = lo
			}
			w.artefact = &artefact{"X04_input.json", artTotal{Property: "X04", Entry: entries[k].name, Growth: []int{k, p}, Got: ps[p].name + ": " + bad}}
			w.Fail(int64(i), fmt.Sprintf("%s with %s", entries[k].name, ps[p].name), "work proportional to the input", bad,
				func() bool {
					h := growthChild(w, in.Bin, k, p, p+1)
					return h.bad() != ""
				}, "")
		}
	})
	sizes := []int{255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 20}
	if e.thorough() {
		sizes = append(sizes, 1<<22, 1<<24)
	}
	e.Par("long inputs", fmt.Sprintf("%d units repeated to %d lengths up to %d, every entry point", len(growthUnits), len(sizes), sizes[len(sizes)-1]), len(growthUnits)*len(sizes)*len(entries), func(w *Worker, i int) {
		n := &entries[i%len(entries)]
		i /= len(entries)
		unit, size := growthUnits[i%len(growthUnits)], sizes[i/len(growthUnits)]
		one(w, n, repeatTo(unit, size))
	})
}

func repeatTo(unit string, size int) []byte {
	return bytes.Repeat([]byte(unit), size/len(unit)+1)[:size]
}

func growthChild(w *Worker, bin string, k, lo, hi int) (g growth) {
	c := exec.Command(bin, "-growth", strconv.Itoa(k), strconv.Itoa(lo), strconv.Itoa(hi))
	var errb tail
	c.Stderr = &errb
	p, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err == nil {
		sc := bufio.NewScanner(p)
		for sc.Scan() {
			g = growth{}
			json.Unmarshal(sc.Bytes(), &g)
			if w != nil {
				w.ticks.Add(1)
			}
		}
		err = c.Wait()
	}
	if err != nil || !g.Done && g.bad() == "" {
		if what, ours := crashed(errb.b.String()); ours {
			g.Bad = "crash: " + what
			return g
		}
		fmt.Println("child failed:", k, lo, err, clip(errb.b.String()))
		os.Exit(2)
	}
	return g
}
