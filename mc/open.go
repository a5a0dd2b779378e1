package main

// X03: streams that are open at once. Every interleaving of the operations of
// two or three streams, opening included, is run on the real code; each
// stream is compared with what the model says it delivers alone.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
)

// xstream is one stream being used. step(0) opens it. finish uses it up and
// says whether everything came.
type xstream interface {
	step(k int) string
	finish() string
}

// xkind makes a stream over its own data.
type xkind struct {
	name string
	make func() xstream
}

// ---- reading ----

type xreader struct {
	open  func(src io.Reader) (io.Reader, error)
	src   *chunkedSrc
	size  int
	want  []byte
	final error
	got   []byte
	r     io.Reader
	ended bool
	err   error
}

type chunkedSrc struct {
	data  []byte
	chunk int
	end   error
	calls int
}

func (s *chunkedSrc) Read(p []byte) (int, error) {
	if s.calls++; s.calls > 1000 {
		panic(errHorizon)
	}
	called(false)
	defer called(true)
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := s.chunk
	if n > len(s.data) {
		n = len(s.data)
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

func (x *xreader) step(k int) string {
	if k == 0 {
		x.r, x.err = x.open(x.src)
		if x.err != nil {
			return fmt.Sprintf("open: %v", x.err)
		}
		return ""
	}
	return x.read()
}

func (x *xreader) read() string {
	buf := make([]byte, x.size)
	n, err := x.r.Read(buf)
	if n < 0 || n > x.size {
		return fmt.Sprintf("Read returned %d", n)
	}
	x.got = append(x.got, buf[:n]...)
	// the caller may do what it likes with its buffer
	for i := range buf {
		buf[i] = 0xDD
	}
	if !bytes.HasPrefix(x.want, x.got) {
		return fmt.Sprintf("delivered %q, expected %q", clip(string(x.got)), clip(string(x.want)))
	}
	if err != nil {
		x.ended = true
		if !sameErr(err, x.final) || len(x.got) != len(x.want) {
			return fmt.Sprintf("delivered %q and %v, expected %q and %v", clip(string(x.got)), err, clip(string(x.want)), x.final)
		}
	} else if x.ended {
		return "goes on after its error"
	}
	return ""
}

func (x *xreader) finish() string {
	for i := 0; i < 200; i++ {
		if bad := x.read(); bad != "" {
			return bad
		}
		if x.ended {
			return x.read() // the error stays
		}
	}
	return "does not end"
}

func kindReader(name string, data string, chunk, size int, end error, open func(src io.Reader) (io.Reader, error)) xkind {
	want, ok := refFrom(nil, []byte(data))
	final := end
	if !ok && end == io.EOF {
		final = cp949.ErrCP949UnexpectedStream
	}
	return xkind{fmt.Sprintf("%s over %q in chunks of %d, then %v, read by %d", name, clip(data), chunk, end, size), func() xstream {
		return &xreader{open: open, src: &chunkedSrc{data: []byte(data), chunk: chunk, end: end}, size: size, want: want, final: final}
	}}
}

func openDecoder(src io.Reader) (io.Reader, error) { return theEnc.NewDecoder().Reader(src), nil }

// ---- writing ----

type xwriter struct {
	exact   bool // after every write the sink has all complete characters
	parts   [][]byte
	k       int
	sink    *failSink
	w       io.Writer
	open    func(sink io.Writer) (io.Writer, error)
	written []byte
}

func (x *xwriter) step(k int) string {
	if k == 0 {
		var err error
		x.w, err = x.open(x.sink)
		if err != nil {
			return fmt.Sprintf("open: %v", err)
		}
		return ""
	}
	return x.write()
}

func (x *xwriter) write() string {
	if x.k >= len(x.parts) {
		return ""
	}
	p := append([]byte(nil), x.parts[x.k]...)
	n, err := x.w.Write(p)
	for i := range p {
		p[i] = 0xDD // the caller may do what it likes with its buffer
	}
	if err == errSink {
		if n != 0 {
			return fmt.Sprintf("a failed Write returned %d", n)
		}
		return x.check()
	}
	if err != nil || n != len(p) {
		return fmt.Sprintf("Write of %d bytes returned %d, %v", len(p), n, err)
	}
	x.written = append(x.written, x.parts[x.k]...)
	x.k++
	return x.check()
}

func (x *xwriter) check() string {
	want, _ := refTo(nil, x.written, true)
	if x.exact && !bytes.Equal(x.sink.Bytes(), want) || !bytes.HasPrefix(want, x.sink.Bytes()) {
		return fmt.Sprintf("after %q the sink has %q, expected %q", clip(string(x.written)), clip(x.sink.String()), clip(string(want)))
	}
	return ""
}

func (x *xwriter) finish() string {
	for i := 0; i < 20 && x.k < len(x.parts); i++ {
		if bad := x.write(); bad != "" {
			return bad
		}
	}
	want, _ := refTo(nil, x.written, true)
	if c, ok := x.w.(io.Closer); ok && !x.exact {
		if err := c.Close(); err != nil {
			return fmt.Sprintf("Close: %v", err)
		}
		want, _ = refTo(nil, x.written, false)
	}
	if !bytes.Equal(x.sink.Bytes(), want) {
		return fmt.Sprintf("the sink has %q in the end, expected %q", clip(x.sink.String()), clip(string(want)))
	}
	return ""
}

func kindWriter(name string, exact bool, failAt int, open func(sink io.Writer) (io.Writer, error), parts ...string) xkind {
	return xkind{fmt.Sprintf("%s with %q, sink call %d fails", name, parts, failAt), func() xstream {
		x := &xwriter{exact: exact, open: open, sink: &failSink{failAt: failAt}}
		for _, p := range parts {
			x.parts = append(x.parts, []byte(p))
		}
		return x
	}}
}

func openEncoder(sink io.Writer) (io.Writer, error) { return theEnc.NewEncoder().Writer(sink), nil }

// ---- transforming ----

type xtrans struct {
	c         *codec
	in        []byte
	pos       int
	win, room int
	want, got []byte
	wantErr   error
	t         transform.Transformer
	done      bool
}

func (x *xtrans) step(k int) string {
	if k == 0 {
		x.t = x.c.makeFrom(theEnc)
		return ""
	}
	return x.transform(x.win, x.room)
}

func (x *xtrans) transform(win, room int) string {
	if x.done {
		return ""
	}
	end, eof := x.pos+win, false
	if end >= len(x.in) {
		end, eof = len(x.in), true
	}
	src := append([]byte(nil), x.in[x.pos:end]...)
	dst := make([]byte, room)
	nd, ns, err := x.t.Transform(dst, src, eof)
	if nd < 0 || nd > room || ns < 0 || ns > len(src) {
		return fmt.Sprintf("Transform returned %d, %d", nd, ns)
	}
	x.got = append(x.got, dst[:nd]...)
	x.pos += ns
	for i := range src {
		src[i] = 0xDD
	}
	for i := range dst {
		dst[i] = 0xDD
	}
	if !bytes.HasPrefix(x.want, x.got) {
		return fmt.Sprintf("produced %q, expected %q", clip(string(x.got)), clip(string(x.want)))
	}
	switch err {
	case transform.ErrShortDst, transform.ErrShortSrc:
		if err == transform.ErrShortSrc && eof {
			return "ErrShortSrc at the end"
		}
		return ""
	case nil:
		if eof && x.pos == len(x.in) {
			x.done = true
		}
	default:
		x.done = true
	}
	if x.done && (!sameErr(err, x.wantErr) || len(x.got) != len(x.want)) {
		return fmt.Sprintf("produced %q and %v, expected %q and %v", clip(string(x.got)), err, clip(string(x.want)), x.wantErr)
	}
	return ""
}

func (x *xtrans) finish() string {
	for i := 0; i < 100; i++ {
		if x.done {
			return ""
		}
		if bad := x.transform(len(x.in), 64); bad != "" {
			return bad
		}
	}
	return "does not end"
}

func kindTrans(c *codec, in string, win, room int) xkind {
	want, ok := c.all([]byte(in))
	var werr error
	if !ok {
		werr = c.endErr
	}
	return xkind{fmt.Sprintf("%s over %q, windows of %d, room %d", c.name, in, win, room), func() xstream {
		return &xtrans{c: c, in: []byte(in), win: win, room: room, want: want, wantErr: werr}
	}}
}

// ---- one-shot calls ----

type xcalls struct {
	c   Ctx
	ops []*Op
	k   int
}

func (x *xcalls) step(k int) string {
	o := x.ops[x.k%len(x.ops)]
	x.k++
	if bad := o.run(&x.c); bad != "" {
		return bad
	}
	return x.c.recheck()
}

func (x *xcalls) finish() string {
	if bad := x.c.recheck(); bad != "" {
		return bad
	}
	x.c.spoil()
	return ""
}

func kindCalls(ops ...*Op) xkind {
	var n []string
	for _, o := range ops {
		n = append(n, o.name)
	}
	return xkind{"calls " + strings.Join(n, "; "), func() xstream { return &xcalls{ops: ops} }}
}

func xkinds() []xkind {
	const a, b = "\xb0\xa1\xb3\xaaz\xb4\xd9\xb6\xf3\xb8\xb6\xb9\xd9", "\xbb\xe7\xbe\xc6q\xc0\xda\xc2\xf7\xc9\xfe\xc4\xab"
	const b8 = "사아q자차카타"
	return []xkind{
		kindReader("NewReader", a, 1, 2, io.EOF, cp949.NewReader),
		kindReader("NewReader", b, 1, 4, io.EOF, cp949.NewReader),
		kindReader("NewReader", a, 3, 1, io.EOF, cp949.NewReader),
		kindReader("NewReader", b, 3, 16, io.EOF, cp949.NewReader),
		kindReader("NewReader", a, 14, 4, io.EOF, cp949.NewReader),
		kindReader("NewReader", "\xc5\xb8\xc6\xc4\xc7", 3, 4, io.EOF, cp949.NewReader),
		kindReader("NewReader", "\xc7\xcf\xb0", 2, 4, errSource, cp949.NewReader),
		kindWriter("NewWriter", true, 0, cp949.NewWriter, "가\xeb\x82", "\x98z", "다\xeb", "\x9d\xbc", "마"),
		kindWriter("NewWriter", true, 0, cp949.NewWriter, "\xec\x82", "\xac아", "\xf0\x9f\x98", "\x80q자", "\xeb"),
		kindWriter("NewWriter", true, 2, cp949.NewWriter, "차\xec", "\xb9", "\xb4타", "파\xff\xed", "\x95\x98"),
		kindReader("Decoder.Reader", a, 1, 2, io.EOF, openDecoder),
		kindReader("Decoder.Reader", b, 3, 5, io.EOF, openDecoder),
		kindReader("Decoder.Reader", "\xc5\xb8\xc6", 2, 4, io.EOF, openDecoder),
		kindWriter("Encoder.Writer", false, 0, openEncoder, "가\xeb\x82", "\x98z", "다\xeb", "\x9d\xbc", "마\xeb"),
		kindWriter("Encoder.Writer", false, 0, openEncoder, "\xec\x82", "\xac아", "\xf0\x9f\x98", "\x80q자", "차"),
		kindTrans(dec, "\xb0\xa1\xb3\xaaz\xb4\xd9", 3, 4),
		kindTrans(dec, "\xbb\xe7\xbe\xc6q\xc0", 2, 3),
		kindTrans(dec, a, 14, 4),
		kindTrans(enc, b8, 20, 2),
		kindTrans(enc, "가나z다", 4, 2),
		kindTrans(enc, "사아q\U0001F600\xec", 5, 3),
		kindReader("NewReader", "\xb0\xa1", 2, 16, io.EOF, cp949.NewReader), // these end early
		kindReader("NewReader", "\xb3\xaa\xb4", 3, 16, io.EOF, cp949.NewReader),
		kindReader("Decoder.Reader", "\xb0\xa1", 2, 16, io.EOF, openDecoder),
		kindCalls(opFrom("\xb0\xa1\xb3\xaa"), opTo("가나"), opFrom(cpLong), opFrom("\xb0")),
		kindCalls(opTo(u8Long), opFrom("plain"), opTo("다\xeb"), opMulti('ㅙ')),
		kindCalls(opDecode("Bytes", "\xb4\xd9\xb6\xf3"), opEncode("Bytes", "다라"), opConvert("大韓民國"), opStroke('뷁')),
	}
}

// openCase is which streams are open and how many steps each makes.
type openCase struct {
	Kinds  []int   `json:"kinds"`
	Steps  int     `json:"steps"`
	Orders [][]int `json:"orders,omitempty"` // only these
	Drop   int     `json:"drop,omitempty"`   // 1: only the even ones are used up, 2: only the odd ones
}

type openResult struct {
	Execs  int64  `json:"execs"`
	Ops    int64  `json:"ops"`
	States int64  `json:"states"`
	Bad    string `json:"bad,omitempty"`
	Case   string `json:"case,omitempty"`
	Index  int    `json:"index"`
	Order  []int  `json:"order,omitempty"`
	Done   bool   `json:"done"`
}

func openCases(n, steps int, sub []int) (l []openCase) {
	var rec func(k []int, from int)
	rec = func(k []int, from int) {
		if len(k) == n {
			l = append(l, openCase{Kinds: append([]int(nil), k...), Steps: steps})
			return
		}
		for i := from; i < len(sub); i++ {
			rec(append(k, sub[i]), i)
		}
	}
	rec(nil, 0)
	return
}

// runOpen runs one interleaving: order names the stream of each step.
func runOpen(ks []xkind, c openCase, order []int, states map[uint64]struct{}, ops *int64) (bad string) {
	where := ""
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("%spanic: %v", where, r)
		}
	}()
	theEnc = cp949.NewCP949Encoding()
	ss := make([]xstream, len(c.Kinds))
	at := make([]int, len(c.Kinds))
	for i, k := range c.Kinds {
		ss[i] = ks[k].make()
	}
	for _, i := range order {
		if i == collectNow {
			collect()
			continue
		}
		if i < collectNow {
			ss[lose(i)], at[lose(i)] = nil, 0
			continue
		}
		where = fmt.Sprintf("stream %d, step %d: ", i, at[i])
		if b := ss[i].step(at[i]); b != "" {
			return where + b
		}
		at[i]++
		*ops++
		if states != nil {
			h := uint64(14695981039346656037)
			for j := range at {
				h = (h ^ uint64(at[j])<<6 ^ uint64(c.Kinds[j])) * 1099511628211
			}
			states[h] = struct{}{}
		}
	}
	for i := range ss {
		if c.Drop != 0 && i&1 == c.Drop&1 || at[i] == 0 {
			continue // abandoned
		}
		where = fmt.Sprintf("stream %d, used up: ", i)
		if b := ss[i].finish(); b != "" {
			return where + b
		}
		*ops++
	}
	return ""
}

// interleavings calls f with every order of n threads of steps steps.
func interleavings(n, steps int, f func(order []int) bool) bool {
	left := make([]int, n)
	for i := range left {
		left[i] = steps
	}
	order := make([]int, 0, n*steps)
	var rec func() bool
	rec = func() bool {
		if len(order) == n*steps {
			return f(order)
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			left[i]--
			order = append(order, i)
			if !rec() {
				return false
			}
			order = order[:len(order)-1]
			left[i]++
		}
		return true
	}
	return rec()
}

func caseName(ks []xkind, c openCase) string {
	var l []string
	for i, k := range c.Kinds {
		l = append(l, fmt.Sprintf("stream %d: %s", i, ks[k].name))
	}
	return strings.Join(l, " | ")
}

func init() {
	// -open FILE explores the cases in FILE in turn, on one goroutine
	modes["-open"] = func(a []string) {
		runtime.GOMAXPROCS(2)
		var cs []openCase
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &cs)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		ks := xkinds()
		var res openResult
		put := func(r openResult) {
			b, _ := json.Marshal(r)
			os.Stdout.Write(append(b, '\n'))
		}
		for ci, c := range cs {
			states := map[uint64]struct{}{}
			play := func(order []int) bool {
				res.Execs++
				if bad := runOpen(ks, c, order, states, &res.Ops); bad != "" {
					res.Bad, res.Case, res.Index, res.Order = bad, caseName(ks, c), ci, append([]int(nil), order...)
					return false
				}
				return true
			}
			ok := true
			if c.Orders == nil {
				ok = interleavings(len(c.Kinds), c.Steps, play)
			}
			for _, o := range c.Orders {
				ok = ok && play(o)
			}
			res.States += int64(len(states))
			if !ok {
				put(res)
				return
			}
			if ci%4 == 0 {
				put(openResult{})
			}
		}
		res.Done = true
		put(res)
	}
	// -openone CASE ORDER runs one interleaving in a fresh process, as does
	// -replayopen with an artefact
	modes["-openone"] = func(a []string) { openAlone([]byte(a[0]), []byte(a[1]), nil) }
	modes["-replayopen"] = func(a []string) {
		var art struct {
			Case  json.RawMessage `json:"case"`
			Order json.RawMessage `json:"order"`
			Batch json.RawMessage `json:"batch"`
		}
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if len(art.Batch) > 4 {
			// all the orders before it in one process
			f := fmt.Sprintf("%s/batch.json", os.Getenv("VERIF_TMP"))
			os.WriteFile(f, art.Batch, 0o644)
			var r openResult
			crash := jsonChild(nil, &r, func() { r = openResult{} }, "-open", f)
			fmt.Println(r.Case, "in the order", r.Order, "after", r.Execs, "orders")
			if crash+r.Bad != "" {
				fmt.Println("broken:", crash+r.Bad)
				os.Exit(1)
			}
			fmt.Println("held")
			return
		}
		openAlone(art.Case, art.Order, func(name string, order []int, bad string) {
			fmt.Println(name, "in the order", order)
			if bad != "" {
				fmt.Println("broken:", bad)
				os.Exit(1)
			}
			fmt.Println("held")
		})
	}
}

func openAlone(cas, ord []byte, say func(name string, order []int, bad string)) {
	var c openCase
	var order []int
	if json.Unmarshal(cas, &c) != nil || json.Unmarshal(ord, &order) != nil {
		fmt.Println("bad arguments")
		os.Exit(2)
	}
	var n int64
	ks := xkinds()
	bad := runOpen(ks, c, order, nil, &n)
	if say != nil {
		say(caseName(ks, c), order, bad)
		return
	}
	b, _ := json.Marshal(openResult{Bad: bad, Done: true, Case: caseName(ks, c), Order: order})
	os.Stdout.Write(append(b, '\n'))
}

func X03(e *Eng) {
	e.level = "model_checking"
	e.assume = []string{"operations of one stream are made by one goroutine at a time; concurrent use is X02", "the model of a stream is what the one-shot reference says of its data"}
	ks := xkinds()
	var every, part []int
	for i := range ks {
		every = append(every, i)
	}
	part = []int{0, 3, 5, 7, 9, 10, 13, 15, 18, 19, 20}
	tmp := os.Getenv("VERIF_TMP")
	explore := func(name, space string, cs []openCase, per int) {
		n := (len(cs) + per - 1) / per
		orders := fmt.Sprintf("every order of %d steps each (opening included)", cs[0].Steps)
		if cs[0].Orders != nil {
			orders = fmt.Sprintf("%d orders each", len(cs[0].Orders))
		}
		e.Par(name, fmt.Sprintf("%s: %d sets of streams, %s, then each is used up", space, len(cs), orders), n, func(w *Worker, i int) {
			hi := (i + 1) * per
			if hi > len(cs) {
				hi = len(cs)
			}
			b, _ := json.Marshal(cs[i*per : hi])
			f := fmt.Sprintf("%s/open-%d-%d", tmp, w.e.harnNo, i)
			if err := os.WriteFile(f, b, 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			defer os.Remove(f)
			w.Desc(func() string { return caseName(ks, cs[i*per]) + " and the following" })
			var r openResult
			crash := jsonChild(w, &r, func() { r = openResult{} }, "-open", f)
			w.evals += r.Execs
			w.nontriv += r.Execs
			w.traces += r.Execs
			w.trans += r.Ops
			e.mu.Lock()
			e.addStates(r.States)
			e.mu.Unlock()
			if crash != "" {
				r.Bad, r.Case = crash, caseName(ks, cs[i*per])+" and the following"
			}
			if r.Bad == "" {
				return
			}
			c := cs[i*per+r.Index]
			again := func() bool { return openOne(c, r.Order) != "" }
			note := ""
			var batch []openCase
			if r.Order != nil && !again() {
				batch = cs[i*per : hi]
				note = ", after the orders before it in the same process"
				again = nil
			}
			w.artefact = &artefact{"X03_open.json", map[string]interface{}{
				"property": "X03", "streams": r.Case, "case": c, "order": r.Order, "batch": batch, "got": r.Bad, "replay": "./replay.sh evidence/replay/X03_open.json",
			}}
			w.Fail(int64(i), fmt.Sprintf("%s; order of steps %v%s", r.Case, r.Order, note), "each stream delivers what it delivers alone", r.Bad, again, "")
		})
	}
	explore("two streams", fmt.Sprintf("every two of %d streams", len(ks)), openCases(2, e.pick(8, 9), every), e.pick(2, 1))
	explore("three streams", fmt.Sprintf("every three of %d streams", len(ks)), openCases(3, e.pick(3, 4), every), 16)
	if !e.thorough() {
		explore("three streams, more steps", fmt.Sprintf("every three of %d streams", len(part)), openCases(3, 4, part), 4)
	}
	var dropped []openCase
	for _, c := range openCases(3, 3, part) {
		c.Drop = 1
		dropped = append(dropped, c)
		c.Drop = 2
		dropped = append(dropped, c)
	}
	explore("abandoned streams", fmt.Sprintf("every three of %d streams, of which one or two are never used up", len(part)), dropped, 8)
	many := manyStreams(len(ks), e.pick(40, 130))
	explore("many streams", "4 and more streams open at once, of one kind and of all kinds; opened together or one after the other, used in turn, in reverse turn, in bursts, nested, every second one abandoned", many, 4)
	explore("garbage collected", fmt.Sprintf("every three of %d streams, one of which is lost after 2..5 steps and collected while the others go on, and a collection after every step", len(part)), collectOrders(part), e.pick(8, 4))
	nestedHarnesses(e)
	if e.thorough() {
		explore("four streams", fmt.Sprintf("every four of %d streams", len(part)), openCases(4, 3, part), 4)
	}
	for i := range ks {
		if i%4 == 0 {
			e.Sample(ks[i].name)
		}
	}
}

func openOne(c openCase, order []int) string {
	cb, _ := json.Marshal(c)
	ob, _ := json.Marshal(order)
	var r openResult
	if crash := jsonChild(nil, &r, func() { r = openResult{} }, "-openone", string(cb), string(ob)); crash != "" {
		return crash
	}
	return r.Bad
}

// manyStreams are sets of 4 to max streams with a few orders each.
func manyStreams(kinds, max int) (l []openCase) {
	const steps = 6
	orders := func(n int) (o [][]int) {
		var turn, back, burst, nest, late []int
		for s := 0; s < steps; s++ {
			for i := 0; i < n; i++ {
				turn = append(turn, i)
				back = append(back, n-1-i)
			}
		}
		for i := 0; i < n; i++ { // all are opened, then used one by one
			burst = append(burst, i)
		}
		for i := n - 1; i >= 0; i-- {
			for s := 1; s < steps; s++ {
				burst = append(burst, i)
			}
		}
		for i := 0; i < n; i++ { // each makes half its steps, then the other way
			for s := 0; s < steps/2; s++ {
				nest = append(nest, i)
			}
		}
		for i := n - 1; i >= 0; i-- {
			for s := 0; s < steps/2; s++ {
				nest = append(nest, i)
			}
		}
		for i := 1; i < n; i++ { // each is used up to the last step, which comes when all have been
			for s := 0; s < steps-1; s++ {
				late = append(late, i)
			}
			if i == n/2 {
				for s := 0; s < steps; s++ {
					late = append(late, 0)
				}
			}
		}
		for i := 1; i < n; i++ {
			late = append(late, i)
		}
		return [][]int{turn, back, burst, nest, late}
	}
	for n := 4; n <= max; n++ {
		if n > 40 && n%8 > 2 {
			continue
		}
		o := orders(n)
		for k := -2; k < kinds; k++ {
			c := openCase{Steps: steps, Orders: o}
			for i := 0; i < n; i++ {
				switch k {
				case -2:
					c.Kinds = append(c.Kinds, i%kinds)
				case -1:
					c.Kinds = append(c.Kinds, (i*7+3)%kinds)
				default:
					c.Kinds = append(c.Kinds, k)
				}
			}
			c.Drop = n % 3
			l = append(l, c)
		}
	}
	return
}
