package main

// X05: what the packages hold on to. A long-running program makes more and
// more calls, with more and more different arguments, opens and abandons
// streams, and keeps some open for ever; none of this may make the memory in
// use grow without bound. Each plan is one op, or two in turn, made K times,
// and K times again, and so on; after each row the garbage collector runs and
// what is still in use is read off. What grows is looked at again in a longer
// run: a table or cache which is full some day is no violation.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// memSizes are the sizes of texts, and memRow how many calls are in a row
// with texts of each; the first is one character.
var memSizes = []int{0, 24, 400, 6000, 70000}
var memRow = []int{16384, 8192, 2048, 256, 32}

const memPairRow = 2048 // for two ops in turn
const memAllowed = 128 << 10

// memArg is the i-th argument: i is told by what is in front.
type memArg struct {
	i    int
	size int
}

func (a memArg) r() rune {
	r := rune(uint64(a.i) * 7919 % 0x110000)
	if 0xD800 <= r && r < 0xE000 {
		r = 0xAC00 + r&0x7FF
	}
	return r
}

var memFill = strings.Repeat("아름다운 大韓民國 abc, 똠방각하 펲시콜라 ㄱㄴㄷ. ", 1300)

func (a memArg) utf8() []byte {
	if a.size == 0 {
		return []byte(string(a.r()))
	}
	b := make([]byte, 0, a.size+16)
	b = append(b, string(rune(0xAC00+a.i%11172))...)
	b = append(b, string(rune(0x4E00+a.i*7%20000))...)
	b = strconv.AppendInt(b, int64(a.i), 36)
	for n := a.size - len(b); n > 0; n = 0 {
		for n > 0 && memFill[n]&0xC0 == 0x80 {
			n--
		}
		b = append(b, memFill[:n]...)
	}
	return b
}

func (a memArg) cp949() []byte {
	if a.size == 0 {
		n := a.i % 0x7FFF
		return []byte{byte(0x81 + n>>8), byte(n)}
	}
	out, _ := refTo(nil, a.utf8(), false)
	return out
}

func (a memArg) str() string { return string(a.utf8()) }

// memOp is one way of using the packages again and again.
type memOp struct {
	name  string
	text  bool // with texts of each size
	alone bool // not in pairs
	open  func() func(a memArg)
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// memSrc gives data in chunks, then an error, with empty reads in between.
type memSrc struct {
	data  []byte
	chunk int
	empty bool
	turn  bool
	end   error
}

func (s *memSrc) Read(p []byte) (int, error) {
	if s.empty {
		if s.turn = !s.turn; s.turn {
			return 0, nil
		}
	}
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := s.chunk
	if n > len(s.data) {
		n = len(s.data)
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

// memReads reads until an error, or max times.
func memReads(r io.Reader, size, max int) {
	b := make([]byte, size)
	for k := 0; k < max; k++ {
		if _, err := r.Read(b); err != nil {
			return
		}
	}
}

func recovered(f func()) {
	defer func() { recover() }()
	f()
}

type panicky struct{}

func (panicky) Read(p []byte) (int, error)  { panic("source") }
func (panicky) Write(p []byte) (int, error) { panic("sink") }

// forever is a source without end: the numbers in turn.
type forever struct {
	i, chunk int
	buf      []byte
	fail     bool
	failed   bool
}

func (s *forever) Read(p []byte) (int, error) {
	if s.fail {
		if s.failed = !s.failed; s.failed {
			return 0, errSource
		}
	}
	if len(s.buf) == 0 {
		s.buf = memArg{s.i, 24}.cp949()
		s.i++
	}
	n := s.chunk
	if n > len(s.buf) {
		n = len(s.buf)
	}
	n = copy(p, s.buf[:n])
	s.buf = s.buf[n:]
	return n, nil
}

func memReader(src io.Reader) io.Reader {
	r, err := cp949.NewReader(src)
	if err != nil {
		panic(err)
	}
	return r
}

func memWriter(sink io.Writer) io.Writer {
	w, err := cp949.NewWriter(sink)
	if err != nil {
		panic(err)
	}
	return w
}

// failsOdd fails every other call.
type failsOdd struct{ n int }

func (s *failsOdd) Write(p []byte) (int, error) {
	if s.n++; s.n&1 == 1 {
		return 0, errSink
	}
	return len(p), nil
}

func memOps() (l []memOp) {
	each := func(name string, text bool, f func(a memArg)) {
		l = append(l, memOp{name, text, false, func() func(memArg) { return f }})
	}
	// runes
	each("runes: Split, SplitCompat, Join, predicates", false, func(a memArg) {
		r := a.r()
		x, m, t := hangul.Split(r)
		hangul.Join(x, m, t)
		hangul.SplitCompat(r)
		hangul.Join(r, 'ㅏ', 0)
		hangul.Join('ㄱ', r, 0)
		hangul.Join('ㄱ', 'ㅏ', r)
		hangul.IsHangul(r)
		hangul.IsJaeum(r)
		hangul.IsMoeum(r)
		hangul.IsLead(r)
		hangul.IsMedial(r)
		hangul.IsTail(r)
	})
	each("runes: forms, elements, strokes", false, func(a memArg) {
		r := a.r()
		hangul.CompatJamo(r)
		hangul.Lead(r)
		hangul.Medial(r)
		hangul.Tail(r)
		hangul.SplitMultiElement(r)
		hangul.Stroke(r)
	})
	each("syllables: Split, Join, SplitCompat, Stroke", false, func(a memArg) {
		r := rune(0xAC00 + a.i%11172)
		x, m, t := hangul.Split(r)
		hangul.Join(x, m, t)
		x, m, t = hangul.SplitCompat(r)
		hangul.Join(x, m, t)
		hangul.Stroke(r)
	})
	each("letters: SplitMultiElement, Stroke", false, func(a memArg) {
		r := rune(0x3130 + a.i%100)
		hangul.SplitMultiElement(r)
		hangul.Stroke(r)
	})
	each("values beyond Unicode", false, func(a memArg) {
		r := rune(int32(uint32(a.i) * 2654435761))
		hangul.Split(r)
		hangul.Join(r, r, r)
		hangul.CompatJamo(r)
		hangul.SplitMultiElement(r)
		hangul.Stroke(r)
		hanja.IsHanja(r)
	})
	each("LastConsonant, EndsWithConsonant", true, func(a memArg) {
		hangul.LastConsonant(a.str())
		hangul.EndsWithConsonant(a.str() + "말")
	})
	each("AppendPostposition", true, func(a memArg) { hangul.AppendPostposition(a.str(), "을", "를") })
	each("AppendPostposition, different particles", true, func(a memArg) { hangul.AppendPostposition("말", a.str(), a.str()+"로") })
	each("LastConsonant of ill-formed words", true, func(a memArg) { hangul.LastConsonant(string(append(a.utf8(), 0xEB, 0xA7))) })
	// Hanja
	each("Convert", true, func(a memArg) { hanja.Convert(a.str()) })
	each("Convert of Hanja only", true, func(a memArg) {
		rs := make([]rune, a.size/3+1)
		for k := range rs {
			rs[k] = rune(0x4E00 + (a.i*31+k)%20000)
		}
		hanja.Convert(string(rs))
	})
	each("IsHanja", false, func(a memArg) { hanja.IsHanja(a.r()) })
	// one-shot
	each("From", true, func(a memArg) { cp949.From(a.cp949()) })
	each("From, truncated", true, func(a memArg) { cp949.From(append(a.cp949(), 0xB0)) })
	each("From, unassigned", true, func(a memArg) { cp949.From(append([]byte{0xC9, byte(a.i), 0xFF, byte(a.i >> 8)}, a.cp949()...)) })
	each("To", true, func(a memArg) { cp949.To(a.utf8()) })
	each("To, ill-formed", true, func(a memArg) { cp949.To(append(a.utf8(), 0xED, 0xA0, byte(a.i), 0xF0, 0x9F)) })
	// the encoding
	each("Decoder.Bytes", true, func(a memArg) { theEnc.NewDecoder().Bytes(a.cp949()) })
	each("Decoder.String", true, func(a memArg) { theEnc.NewDecoder().String(string(a.cp949())) })
	each("Decoder.Bytes, truncated", true, func(a memArg) { theEnc.NewDecoder().Bytes(append(a.cp949(), 0xB0)) })
	each("Encoder.Bytes", true, func(a memArg) { theEnc.NewEncoder().Bytes(a.utf8()) })
	each("Encoder.String", true, func(a memArg) { theEnc.NewEncoder().String(a.str()) })
	each("new encodings", false, func(a memArg) {
		e := cp949.NewCP949Encoding()
		e.NewDecoder()
		e.NewEncoder()
	})
	each("Decoder.Reader to the end", true, func(a memArg) {
		memReads(theEnc.NewDecoder().Reader(bytes.NewReader(a.cp949())), 512, 1<<20)
	})
	each("Decoder.Reader abandoned", true, func(a memArg) {
		memReads(theEnc.NewDecoder().Reader(&memSrc{data: append(a.cp949(), 0xB0), chunk: 3, end: io.EOF}), 2, 2)
	})
	each("Encoder.Writer closed", true, func(a memArg) {
		w := transform.NewWriter(discard{}, theEnc.NewEncoder())
		w.Write(a.utf8())
		w.Close()
	})
	each("Encoder.Writer abandoned", true, func(a memArg) {
		theEnc.NewEncoder().Writer(discard{}).Write(append(a.utf8(), 0xEA, 0xB0))
	})
	for _, side := range []string{"decoder", "encoder"} {
		side := side
		mk := func() (transform.Transformer, func(memArg) []byte) {
			if side == "decoder" {
				return theEnc.NewDecoder().Transformer, memArg.cp949
			}
			return theEnc.NewEncoder().Transformer, memArg.utf8
		}
		each("one step of a new "+side, true, func(a memArg) {
			t, f := mk()
			in := f(a)
			t.Transform(make([]byte, len(in)), append(in, 0xEA), false)
		})
		l = append(l, memOp{"steps of one " + side + " for ever", true, false, func() func(memArg) {
			t, f := mk()
			dst := make([]byte, 1<<18)
			return func(a memArg) {
				in := append(f(a), 0xEA)
				t.Transform(dst, in, false)
				t.Transform(dst[:len(in)/2], in, true)
			}
		}}, memOp{"steps of one " + side + ", with Reset", true, false, func() func(memArg) {
			t, f := mk()
			dst := make([]byte, 1<<18)
			return func(a memArg) {
				t.Transform(dst, append(f(a), 0xEA), false)
				t.Reset()
			}
		}}, memOp{"one " + side + "'s Bytes for ever", true, false, func() func(memArg) {
			d, x := theEnc.NewDecoder(), theEnc.NewEncoder()
			return func(a memArg) {
				if side == "decoder" {
					d.Bytes(a.cp949())
				} else {
					x.Bytes(a.utf8())
				}
			}
		}})
	}
	// streams, each used in one of the ways streams end
	each("NewReader, not used", true, func(a memArg) { memReader(bytes.NewReader(a.cp949())) })
	each("NewReader, abandoned", true, func(a memArg) {
		memReads(memReader(&memSrc{data: append(a.cp949(), 0xB0), chunk: 3, end: io.EOF}), 2, 2)
	})
	each("NewReader, to the end", true, func(a memArg) { memReads(memReader(bytes.NewReader(a.cp949())), 512, 1<<20) })
	each("NewReader, to the end in small parts", true, func(a memArg) {
		memReads(memReader(&memSrc{data: a.cp949(), chunk: 1, empty: true, end: io.EOF}), 3, 1<<20)
	})
	each("NewReader, truncated", true, func(a memArg) { memReads(memReader(bytes.NewReader(append(a.cp949(), 0xB0))), 512, 1<<20) })
	each("NewReader, failing", true, func(a memArg) {
		memReads(memReader(&memSrc{data: append(a.cp949(), 0xB0), chunk: 1 << 20, end: errSource}), 512, 1<<20)
	})
	each("NewReader, panicking", false, func(a memArg) { recovered(func() { memReads(memReader(panicky{}), 8, 1) }) })
	each("NewReader, copied", true, func(a memArg) { io.Copy(discard{}, memReader(bytes.NewReader(a.cp949()))) })
	each("NewWriter, not used", false, func(a memArg) { memWriter(discard{}) })
	each("NewWriter, complete", true, func(a memArg) { memWriter(discard{}).Write(a.utf8()) })
	each("NewWriter, with a rest", true, func(a memArg) { memWriter(discard{}).Write(append(a.utf8(), 0xEA, 0xB0)) })
	each("NewWriter, in small parts", true, func(a memArg) {
		w := memWriter(discard{})
		b := a.utf8()
		for k := range b {
			w.Write(b[k : k+1])
		}
	})
	each("NewWriter, failing", true, func(a memArg) {
		w := memWriter(brokenSink{})
		w.Write(append(a.utf8(), 0xEA))
		w.Write(append(a.utf8(), 0xEA))
	})
	each("NewWriter, panicking", false, func(a memArg) { recovered(func() { memWriter(panicky{}).Write(a.utf8()) }) })
	each("NewWriter, copied to", true, func(a memArg) { io.Copy(memWriter(discard{}), bytes.NewReader(a.utf8())) })
	// streams without end
	for _, chunk := range []int{1, 2, 3, 7, 1 << 20} {
		for _, size := range []int{1, 2, 5, 64, 4096} {
			for _, fail := range []bool{false, true} {
				chunk, size, fail := chunk, size, fail
				name := fmt.Sprintf("reads of %d bytes of one reader for ever, chunks of %d", size, chunk)
				if fail {
					name += ", every other fails, new readers"
				}
				l = append(l, memOp{name, false, chunk*size != 21 && chunk*size != 128, func() func(memArg) {
					src := &forever{chunk: chunk, fail: fail}
					r := memReader(src)
					b := make([]byte, size)
					return func(a memArg) {
						if _, err := r.Read(b); err != nil {
							r.Read(b)
							r = memReader(src)
						}
					}
				}})
			}
			chunk, size := chunk, size
			l = append(l, memOp{fmt.Sprintf("reads of %d bytes of one Decoder.Reader for ever, chunks of %d", size, chunk), false, chunk*size != 128, func() func(memArg) {
				r := theEnc.NewDecoder().Reader(&forever{chunk: chunk})
				b := make([]byte, size)
				return func(a memArg) { r.Read(b) }
			}})
		}
	}
	for _, part := range []int{0, 1, 2, 3, 5, 1 << 20} {
		part := part
		writes := func(w io.Writer, retry bool) func(a memArg) {
			return func(a memArg) {
				b := a.utf8()
				for len(b) > 0 {
					n := part
					if n > len(b) {
						n = len(b)
					}
					_, err := w.Write(b[:n:n])
					if err != nil && retry {
						w.Write(b[:n:n])
					}
					if n == 0 {
						return
					}
					b = b[n:]
				}
			}
		}
		name := fmt.Sprintf("writes of %d bytes to one writer for ever", part)
		l = append(l,
			memOp{name, true, part != 2, func() func(memArg) { return writes(memWriter(discard{}), false) }},
			memOp{name + ", every other fails, repeated", true, part != 2, func() func(memArg) { return writes(memWriter(&failsOdd{}), true) }},
			memOp{name + ", every other fails, given up", true, part != 2, func() func(memArg) { return writes(memWriter(&failsOdd{}), false) }},
			memOp{name + " that always fails", true, part != 2, func() func(memArg) { return writes(memWriter(brokenSink{}), true) }},
			memOp{strings.Replace(name, "one writer", "one Encoder.Writer", 1), true, part != 2, func() func(memArg) {
				return writes(theEnc.NewEncoder().Writer(discard{}), false)
			}})
	}
	// at once
	each("eight goroutines", true, func(a memArg) {
		done := make(chan bool, 8)
		for k := 0; k < 8; k++ {
			go func(k int) {
				defer func() { done <- true }()
				switch a := (memArg{a.i*8 + k, a.size}); k {
				case 0, 1:
					cp949.From(a.cp949())
				case 2, 3:
					cp949.To(a.utf8())
				case 4, 5:
					hanja.Convert(a.str())
				case 6:
					memReads(memReader(bytes.NewReader(a.cp949())), 64, 1<<20)
				case 7:
					memWriter(discard{}).Write(a.utf8())
				}
			}(k)
		}
		for k := 0; k < 8; k++ {
			<-done
		}
	})
	return
}

// memInUse is what is in use when the garbage collector has done its work.
func memInUse() (bytes int64, goroutines int) {
	for k := 0; k < 20 && runtime.NumGoroutine() > 32; k++ {
		time.Sleep(time.Millisecond) // those that are about to end
	}
	collect()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc + m.StackInuse), runtime.NumGoroutine()
}

// memPlan is one op, or two in turn, with arguments of one size that are new
// each time or always the same.
type memPlan struct {
	Ops  []int `json:"ops"`
	Size int   `json:"size"`
	Same bool  `json:"same"`
	Row  int   `json:"row"`
}

func (p memPlan) String() string {
	ops := memOps()
	var n []string
	for _, k := range p.Ops {
		n = append(n, ops[k].name)
	}
	s := strings.Join(n, ", then ")
	if memSizes[p.Size] == 0 {
		s += ", with runes"
	} else {
		s += fmt.Sprintf(", with %d bytes", memSizes[p.Size])
	}
	if p.Same {
		return s + ", always the same"
	}
	return s + ", each time others"
}

// memRun makes rows of calls; marks tells after how many rows to look.
func memRun(p memPlan, marks ...int) (in []int64, gs []int, steps int64) {
	ops := memOps()
	var fs []func(memArg)
	for _, k := range p.Ops {
		fs = append(fs, ops[k].open())
	}
	memInUse() // the first look costs the runtime something itself
	i, rows := 0, 0
	for _, m := range marks {
		for ; rows < m; rows++ {
			for k := 0; k < p.Row; k++ {
				for _, f := range fs {
					a := memArg{i, memSizes[p.Size]}
					if p.Same {
						a.i = 1
					}
					f(a)
				}
				i++
			}
			os.Stdout.WriteString("{}\n") // still alive
		}
		b, g := memInUse()
		in, gs = append(in, b), append(gs, g)
	}
	runtime.KeepAlive(fs)
	return in, gs, int64(i * len(fs))
}

type memResult struct {
	Plan  *memPlan `json:"plan,omitempty"`
	Evals int64    `json:"evals"`
	Steps int64    `json:"steps"`
	Most  int64    `json:"most"` // growth between first and last look
	Bad   string   `json:"bad,omitempty"`
	Done  bool     `json:"done"`
}

// memConfirm is the longer run that decides, in a process of its own. What is
// kept for each rune is bounded, as runes are: with runes it looks when all of
// them have been there twice, and again much later.
func memConfirm(p memPlan) string {
	marks, least := []int{1, 4, 4, 64}, int64(5)
	if memSizes[p.Size] == 0 {
		round := 0x110000/p.Row + 1
		marks, least = []int{1, 4, 2*round + 4, 8*round + 4}, int64(round/2)
	}
	in, gs, _ := memRun(p, marks...)
	if d := in[1] - in[0]; d > memAllowed && in[3]-in[2] > least*d {
		n := p.Row * len(p.Ops)
		var l []string
		for k, b := range in {
			if k == 0 || marks[k] > marks[k-1] {
				l = append(l, fmt.Sprintf("%d after %d calls", b, marks[k]*n))
			}
		}
		return fmt.Sprintf("bytes in use: %s (goroutines: %v)", strings.Join(l, ", "), gs)
	}
	return ""
}

func memPlans(pairs bool) (l []memPlan) {
	ops := memOps()
	if os.Getenv("VERIF_TIER") == "thorough" {
		defer func() {
			for k := range l {
				l[k].Row *= 8
			}
		}()
	}
	if pairs {
		for a := range ops {
			for b := range ops {
				if a != b && !ops[a].alone && !ops[b].alone {
					l = append(l, memPlan{[]int{a, b}, 1, false, memPairRow})
				}
			}
		}
		return
	}
	for s := range memSizes {
		for k, o := range ops {
			if !o.text && s > 0 {
				continue
			}
			l = append(l, memPlan{[]int{k}, s, false, memRow[s]}, memPlan{[]int{k}, s, true, memRow[s]})
		}
	}
	return
}

func init() {
	// -mem PAIRS LO HI: the plans from LO to HI, until one is suspected
	modes["-mem"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		l := memPlans(a[0] == "pairs")
		var res memResult
		say := func() {
			b, _ := json.Marshal(res)
			os.Stdout.Write(append(b, '\n'))
		}
		for _, p := range l[atoi(a[1]):atoi(a[2])] {
			p := p
			in, _, steps := memRun(p, 1, 4)
			res.Evals++
			res.Steps += steps
			d := in[1] - in[0]
			if d > res.Most {
				res.Most = d
			}
			if d > memAllowed {
				res.Plan = &p
				say()
				return
			}
			say()
		}
		res.Done = true
		say()
	}
	// -memlong PLAN: the longer run
	modes["-memlong"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		var p memPlan
		if json.Unmarshal([]byte(a[0]), &p) != nil {
			os.Exit(2)
		}
		b, _ := json.Marshal(memResult{Bad: memConfirm(p), Evals: 1, Done: true})
		os.Stdout.Write(append(b, '\n'))
	}
	// -replaymem FILE plays an artefact
	modes["-replaymem"] = func(a []string) {
		var art struct {
			Plan memPlan `json:"plan"`
		}
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println(art.Plan)
		if bad := memLong(nil, art.Plan); bad != "" {
			fmt.Println("broken:", bad)
			os.Exit(1)
		}
		fmt.Println("held")
	}
}

// memLong decides a plan in a process of its own.
func memLong(w *Worker, p memPlan) string {
	var v memResult
	b, _ := json.Marshal(p)
	if crash := jsonChild(w, &v, func() { v = memResult{} }, "-memlong", string(b)); crash != "" {
		return crash
	}
	if !v.Done {
		fmt.Println("child did not finish: -memlong", string(b))
		os.Exit(2)
	}
	return v.Bad
}

func X05(e *Eng) {
	e.rule = "one case per plan: one or two ways of using the packages in turn, a size of text, arguments that differ or not; non-trivial if arguments differ"
	e.assume = []string{"memory in use is what the Go runtime reports after two garbage collections and what they set off", "growth of less than 128 KiB over three rows of calls is not looked at again"}
	explore := func(w *Worker, kind string, l []memPlan, lo, hi int) {
		for lo < hi {
			lo0 := lo
			w.Desc(func() string { return fmt.Sprintf("%s: plans %d to %d, the first being %v", kind, lo0, hi, l[lo0]) })
			var v memResult
			crash := jsonChild(w, &v, func() { v = memResult{} }, "-mem", kind, strconv.Itoa(lo), strconv.Itoa(hi))
			if crash != "" {
				w.Fail(int64(lo), fmt.Sprint(l[lo]), "bounded memory", crash, nil, "")
				return
			}
			for k := int64(0); k < v.Evals; k++ {
				w.Tick(!l[lo].Same)
				lo++
			}
			w.trans += v.Steps
			if v.Plan == nil {
				if !v.Done {
					fmt.Println("child did not finish: -mem", kind, lo0, hi)
					os.Exit(2)
				}
				return
			}
			p := *v.Plan
			w.Desc(func() string { return fmt.Sprintf("the longer run of %v", p) })
			if bad := memLong(w, p); bad != "" {
				w.artefact = &artefact{"X05_mem.json", map[string]interface{}{"property": "X05", "plan": p, "case": p.String(), "got": bad}}
				w.Fail(int64(lo), p.String(), "memory in use that does not grow with the number of calls", bad, func() bool { return memLong(w, p) != "" }, "")
				return
			}
		}
	}
	more := ""
	if e.thorough() {
		more = " 8"
	}
	for _, kind := range []string{"alone", "pairs"} {
		kind := kind
		l := memPlans(kind == "pairs")
		// plans next to one another cost alike; each part takes some from all over
		const part = 12
		name := map[string]string{"alone": "one use", "pairs": "two uses in turn"}[kind]
		space := fmt.Sprintf("%d plans: each of %d ways of using the packages, with texts of %v bytes (0: runes), new each time and always the same, 4 times %v times%s; what grows, 64 times as often, with runes until all of Unicode has been there eight times", len(l), len(memOps()), memSizes, memRow, more)
		if kind == "pairs" {
			space = fmt.Sprintf("%d plans: ordered pairs of ways of using the packages in turn, with new texts of %d bytes, 4 times %d times%s; what grows, 64 times as often, with runes until all of Unicode has been there eight times", len(l), memSizes[1], memPairRow, more)
		}
		e.Par(name, space, (len(l)+part-1)/part, func(w *Worker, i int) {
			hi := (i + 1) * part
			if hi > len(l) {
				hi = len(l)
			}
			explore(w, kind, l, i*part, hi)
		})
	}
	e.Sample(memPlans(false)[3].String())
	e.Sample(memPlans(true)[100].String())
}
