package main

// X06: nothing outside. A call reads its arguments and gives a result; it
// does not print, touch files, the network, the environment or settings of
// the process, and does not end it. The calls are made in a child process
// which may not do such things: from then on, system calls other than those
// of Go's runtime stop it (seccomp), its standard output and error are pipes
// the parent listens to, and what can be changed without system calls is
// compared with how it was.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unsafe"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// effSet is a set of cases, told by their numbers. do makes the calls of one.
type effSet struct {
	name, space string
	n           int
	step        int // how many between looks
	do          func(i int)
	say         func(i int) string
}

var effClass = []string{"\x00", "A", "\x7f", "\x80", "\xa1", "\xb0", "\xc0", "\xc9", "\xe0", "\xea", "\xed", "\xf0", "\xfe", "\xff", "가", "大", "ㄱ", "\u00e9", "\U0001F600", "\ufffd", "\ufeff", "\n", "\u11a8"}

var effPatterns = growthPatterns()
var effSizes = []int{100, 4096, 5000, 70000}

func effAll(in []byte) {
	for k := range entries {
		entries[k].f(in)
	}
	for k := range shortEntries {
		shortEntries[k].f(in)
	}
}

func effString(i int) []byte {
	var in []byte
	for n := len(effClass); i > 0; i /= n + 1 {
		if k := i % (n + 1); k > 0 {
			in = append(in, effClass[k-1]...)
		}
	}
	return in
}

func pow(b, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= b
	}
	return p
}

func effSets() []effSet {
	mops := memOps()
	errs := allErrs()
	for n := 1; n < 134; n++ {
		errs = append(errs, syscall.Errno(n))
	}
	rune1 := func(i int) rune {
		if i < 0x110000 {
			return rune(i)
		}
		i -= 0x110000 // beyond Unicode: edges of all high halves
		return rune(uint32(i/len(specialLows))<<16 | uint32(specialLows[i%len(specialLows)]))
	}
	depth := 4
	if os.Getenv("VERIF_TIER") == "thorough" {
		depth = 5
	}
	quoted := func(f func(i int) []byte) func(i int) string {
		return func(i int) string { return fmt.Sprintf("every entry point with %q", clip(string(f(i)))) }
	}
	two := func(i int) []byte {
		switch {
		case i == 0:
			return nil
		case i <= 256:
			return []byte{byte(i - 1)}
		}
		return []byte{byte((i - 257) >> 8), byte(i - 257)}
	}
	three := func(i int) []byte { return []byte{byte(i >> 16), byte(i >> 8), byte(i)} }
	pattern := func(i int) []byte { return effPatterns[i%len(effPatterns)].f(effSizes[i/len(effPatterns)]) }
	return []effSet{
		{"runes", "all of Unicode, and special runes of every 2^16 beyond, through all functions of runes", 0x110000 + len(specialLows)<<16, 4096, func(i int) {
			r := rune1(i)
			x, m, t := hangul.Split(r)
			hangul.SplitCompat(r)
			hangul.Join(x, m, t)
			hangul.Join(r, 'ㅏ', 0)
			hangul.Join('ㄱ', r, 0)
			hangul.Join('ㄱ', 'ㅏ', r)
			hangul.IsHangul(r)
			hangul.IsJaeum(r)
			hangul.IsMoeum(r)
			hangul.IsLead(r)
			hangul.IsMedial(r)
			hangul.IsTail(r)
			hangul.CompatJamo(r)
			hangul.Lead(r)
			hangul.Medial(r)
			hangul.Tail(r)
			hangul.SplitMultiElement(r)
			hangul.Stroke(r)
			hangul.LastConsonant(string(r))
			hangul.AppendPostposition("a"+string(r), "으로", "로")
			hanja.IsHanja(r)
			hanja.Convert(string(r))
			cp949.To([]byte(string(r)))
		}, func(i int) string { return fmt.Sprintf("functions of runes with %#x", uint32(rune1(i))) }},
		{"two bytes", "all inputs of up to two bytes, every entry point", 1 + 256 + 65536, 256, func(i int) { effAll(two(i)) }, quoted(two)},
		{"three bytes", "all inputs of three bytes: From, To, Convert, LastConsonant, and streams and transformers", 1 << 24, 1 << 14, func(i int) {
			b := three(i)
			cp949.From(b)
			cp949.To(b)
			hanja.Convert(string(b))
			hangul.LastConsonant(string(b))
			memReads(memReader(&onebyte{b}), 2, 12)
			w := memWriter(discard{})
			w.Write(b[:1])
			w.Write(b[1:])
			var dst [12]byte
			dec.make().Transform(dst[:], b, true)
			enc.make().Transform(dst[:], b, true)
			dec.make().Transform(dst[:4], b, false)
			enc.make().Transform(dst[:3], b, false)
		}, quoted(three)},
		{"class strings", fmt.Sprintf("all strings of up to %d of %d tokens, every entry point", depth, len(effClass)), pow(len(effClass)+1, depth), 64, func(i int) { effAll(effString(i)) }, quoted(effString)},
		{"calls", "all ordered pairs of calls of the menu, and a garbage collection after every 64", len(menu) * len(menu), 64, func(i int) {
			c := &Ctx{}
			menu[i/len(menu)].run(c)
			menu[i%len(menu)].run(c)
			if i&63 == 63 {
				collect()
			}
		}, func(i int) string { return menu[i/len(menu)].name + "; " + menu[i%len(menu)].name }},
		{"streams", fmt.Sprintf("%d ways of using the packages (X05), 24 times with texts of each of %d sizes, and a garbage collection after each", len(mops), len(memSizes)), len(mops) * len(memSizes), 1, func(i int) {
			f := mops[i/len(memSizes)].open()
			for k := 0; k < 24; k++ {
				f(memArg{k * 1237, memSizes[i%len(memSizes)]})
			}
			f = nil
			collect()
		}, func(i int) string { return mops[i/len(memSizes)].name }},
		{"errors", fmt.Sprintf("sources and sinks with each of %d errors, at each byte of a text", len(errs)), len(errs) * 2 * 24, 1, func(i int) {
			err, at := errs[i/2%len(errs)], i/2/len(errs)
			text := memArg{i, 24}
			if i&1 == 0 {
				b := text.cp949()
				r := memReader(&memSrc{data: b[:at%len(b)], chunk: 5, end: err})
				memReads(r, 4, 40)
				memReads(theEnc.NewDecoder().Reader(&memSrc{data: b[:at%len(b)], chunk: 5, end: err}), 4, 40)
				return
			}
			b := text.utf8()
			n := 0
			sink := funcSink(func(p []byte) (int, error) {
				if n++; n == 2 {
					return 0, err
				}
				return len(p), nil
			})
			for _, w := range []io.Writer{memWriter(sink), theEnc.NewEncoder().Writer(sink)} {
				n = 0
				w.Write(b[:at%len(b)])
				w.Write(b[at%len(b):])
				w.Write(b[at%len(b):])
				w.Write(b)
			}
		}, func(i int) string { return fmt.Sprintf("a stream that fails with %v", errs[i/2%len(errs)]) }},
		{"long inputs", fmt.Sprintf("%d patterns of %v bytes, every entry point", len(effPatterns), effSizes), len(effPatterns) * len(effSizes), 1, func(i int) {
			in := pattern(i)
			for k := range entries {
				if i%len(effPatterns)%17 == k%17 || len(in) < 4096 || len(in) == 5000 && k < 2 {
					entries[k].f(in)
				}
			}
		}, func(i int) string {
			return effPatterns[i%len(effPatterns)].name + fmt.Sprintf(", %d bytes", effSizes[i/len(effPatterns)])
		}},
	}
}

// settings are what code can change without a system call.
type settings struct {
	Env        []string
	Args       []string
	Files      [3]*os.File
	Procs      int
	GC         int
	MemLimit   int64
	Stack      int
	MemRate    int
	LogFlags   int
	LogPrefix  string
	LogOut     interface{}
	Flags      int
	Errors     []error
	Local      *time.Location
	Scripts    []string
	ReplaceErr rune
}

func lookAround() settings {
	s := settings{
		Env: os.Environ(), Args: os.Args, Files: [3]*os.File{os.Stdin, os.Stdout, os.Stderr},
		Procs: runtime.GOMAXPROCS(0), MemLimit: debug.SetMemoryLimit(-1), MemRate: runtime.MemProfileRate,
		LogFlags: log.Flags(), LogPrefix: log.Prefix(), LogOut: log.Writer(),
		Errors: []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe,
			transform.ErrShortDst, transform.ErrShortSrc, encoding.ErrInvalidUTF8, cp949.ErrCP949UnexpectedStream},
		Local: time.Local,
	}
	// without a garbage collection in between
	s.GC = debug.SetGCPercent(-1)
	debug.SetGCPercent(s.GC)
	s.Stack = debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(s.Stack)
	flag.VisitAll(func(*flag.Flag) { s.Flags++ })
	for _, t := range []*unicode.RangeTable{unicode.Hangul, unicode.Han, unicode.Letter, unicode.Space, unicode.Scripts["Hangul"]} {
		h := uint64(0)
		for _, r := range t.R16 {
			h = h*31 + uint64(r.Lo)<<32 + uint64(r.Hi)<<16 + uint64(r.Stride)
		}
		for _, r := range t.R32 {
			h = h*31 + uint64(r.Lo)<<32 + uint64(r.Hi)<<16 + uint64(r.Stride)
		}
		s.Scripts = append(s.Scripts, fmt.Sprint(h))
	}
	return s
}

// restrict leaves this process only the system calls of Go's runtime.
func restrict() error {
	allowed := []uint32{1, // write: what there is to write to, the parent reads
		202, 35, 230, 28, 9, 11, 10, 14, 15, 131, 234, 39, 186, 56, 435, 24, 60, 231, 228, 96, 201, 204, 157, 318, 222, 223, 226, 273, 334, 219, 158, 27, 25, 281, 232, 233, 441}
	type filter struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	const ld, jeq, ret = 0x20, 0x15, 0x06
	prog := []filter{
		{ld, 0, 0, 4}, // the architecture
		{jeq, 1, 0, 0xC000003E},
		{ret, 0, 0, 0x00030000}, // trap
		{ld, 0, 0, 0},           // the call
		{jeq, 0, 3, 0},          // read: from anything but the standard input
		{ld, 0, 0, 16},
		{jeq, 1, 0, 0},
		{ret, 0, 0, 0x7FFF0000}, // allow
		{ld, 0, 0, 0},
	}
	// a read from 0 goes on to the list, where it is not
	for k, nr := range allowed {
		prog = append(prog, filter{jeq, uint8(len(allowed) - k), 0, nr})
	}
	prog = append(prog, filter{ret, 0, 0, 0x00030000}, filter{ret, 0, 0, 0x7FFF0000})
	fp := struct {
		n uint16
		p *filter
	}{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall6(157, 38, 1, 0, 0, 0, 0); e != 0 { // no new privileges
		return e
	}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&fp))); e != 0 { // for all threads
		return e
	}
	runtime.KeepAlive(prog)
	return nil
}

type effResult struct {
	At         int    `json:"at"` // all cases before have been made
	Restricted string `json:"restricted,omitempty"`
	Bad        string `json:"bad,omitempty"`
	Done       bool   `json:"done"`
}

func init() {
	// -effects SET LO HI STEP: the cases from LO to HI, reporting on file 3
	modes["-effects"] = func(a []string) {
		sets := effSets()
		set := sets[atoi(a[0])]
		lo, hi, step := atoi(a[1]), atoi(a[2]), atoi(a[3])
		say := func(r effResult) {
			b, _ := json.Marshal(r)
			syscall.Write(3, append(b, '\n'))
		}
		// what the runtime and this program need later is set up before
		ch := make(chan os.Signal, 1)
		signal.Notify(ch, syscall.SIGUSR1)
		signal.Stop(ch)
		time.Sleep(time.Millisecond)
		collect()
		before := lookAround()
		first := effResult{At: lo}
		if runtime.GOARCH != "amd64" {
			first.Restricted = "not on " + runtime.GOARCH
		} else if err := restrict(); err != nil {
			first.Restricted = err.Error()
		}
		say(first)
		for i := lo; i < hi; i++ {
			set.do(i)
			if (i+1-lo)%step == 0 || i+1 == hi {
				if now := lookAround(); !reflect.DeepEqual(before, now) {
					say(effResult{At: i, Bad: effDiff(before, now)})
					syscall.Exit(0)
				}
				say(effResult{At: i + 1})
			}
		}
		say(effResult{At: hi, Done: true})
		syscall.Exit(0)
	}
}

func init() {
	// -replayeffects FILE plays an artefact
	modes["-replayeffects"] = func(a []string) {
		var art struct {
			Set   string `json:"set"`
			Index int    `json:"index"`
		}
		b, err := os.ReadFile(a[0])
		if err == nil {
			err = json.Unmarshal(b, &art)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for k, s := range effSets() {
			if s.name != art.Set {
				continue
			}
			fmt.Println(s.say(art.Index))
			if _, bad, _ := effChild(nil, k, art.Index, art.Index+1, 1); bad != "" {
				fmt.Println("broken:", bad)
				os.Exit(1)
			}
			fmt.Println("held")
			return
		}
		fmt.Println("no such set:", art.Set)
		os.Exit(2)
	}
}

func effDiff(a, b settings) string {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	for k := 0; k < x.NumField(); k++ {
		if !reflect.DeepEqual(x.Field(k).Interface(), y.Field(k).Interface()) {
			return fmt.Sprintf("a setting of the process changed: %s was %v and is %v", x.Type().Field(k).Name, x.Field(k).Interface(), y.Field(k).Interface())
		}
	}
	return "a setting of the process changed"
}

// effChild makes cases in a process of their own. It gives how far it came,
// and what was wrong then.
func effChild(w *Worker, set, lo, hi, step int) (at int, bad, restricted string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	self, _ := os.Executable()
	c := exec.Command(self, "-effects", strconv.Itoa(set), strconv.Itoa(lo), strconv.Itoa(hi), strconv.Itoa(step))
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=updatemaxprocs=0", "GOTRACEBACK=all")
	if d := os.Getenv("VERIF_TMP"); d != "" { // nothing real is near
		d = filepath.Join(d, "scratch")
		os.MkdirAll(d, 0o755)
		c.Dir = d
		c.Env = append(c.Env, "TMPDIR="+d, "HOME="+d, "PWD="+d)
	}
	var outb, errb tail
	c.Stdout, c.Stderr = &outb, &errb
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		fmt.Println("cannot run a child:", err)
		os.Exit(2)
	}
	pw.Close()
	var last effResult
	started := false
	sc := bufio.NewScanner(pr)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if w != nil {
			w.ticks.Add(1)
			if w.e.stop.Load() {
				c.Process.Kill()
			}
		}
		r := last.Restricted
		last = effResult{}
		json.Unmarshal(sc.Bytes(), &last)
		if !started {
			started = true
		} else {
			last.Restricted = r
		}
	}
	pr.Close()
	c.Wait()
	if w != nil && w.e.stop.Load() {
		panic(errStop)
	}
	printed := append(append([]byte(nil), outb.b.Bytes()...), errb.b.Bytes()...)
	status := c.ProcessState.String()
	switch {
	case last.Bad != "":
		bad = last.Bad
	case last.Done && len(printed) == 0:
	case last.Done:
		bad = fmt.Sprintf("it printed %q", clip(string(printed)))
	default:
		s := errb.b.String()
		if k := strings.Index(s, "SIGSYS"); k >= 0 {
			g := strings.Index(s[k:], "goroutine ")
			st := s[k:]
			if g >= 0 {
				st = st[g:]
				if n := strings.Index(st, "\n\n"); n >= 0 {
					st = st[:n]
				}
			}
			if !strings.Contains(st, "github.com/suapapa/go_hangul") {
				fmt.Println("a system call of the runtime was stopped:", clip(s))
				os.Exit(2)
			}
			bad = "it made a system call" + effCall(s) + ": " + clip(strings.Join(strings.Fields(st), " "))
		} else if what, ours := crashed(s); ours {
			bad = "it crashed: " + what
		} else if started && c.ProcessState.Exited() && !strings.Contains(s, "goroutine ") {
			bad = fmt.Sprintf("it ended the process (%s), printing %q", status, clip(string(printed)))
		} else {
			fmt.Println("child failed:", status, clip(string(printed)))
			os.Exit(2)
		}
	}
	return last.At, bad, last.Restricted
}

// effCall names the system call that was stopped, from the registers.
func effCall(s string) string {
	names := map[int]string{0: "read", 2: "open", 257: "openat", 3: "close", 41: "socket", 42: "connect", 59: "execve", 62: "kill", 80: "chdir", 83: "mkdir", 258: "mkdirat", 87: "unlink", 263: "unlinkat", 13: "rt_sigaction", 16: "ioctl", 4: "stat", 262: "newfstatat", 79: "getcwd", 5: "fstat", 17: "pread64", 302: "prlimit64", 110: "getppid", 63: "uname", 293: "pipe2", 72: "fcntl", 8: "lseek", 291: "epoll_create1", 290: "eventfd2"}
	k := strings.Index(s, "\nrax ")
	if k < 0 {
		return ""
	}
	f := strings.Fields(s[k+5:])
	if len(f) == 0 {
		return ""
	}
	n, err := strconv.ParseInt(f[0], 0, 64)
	if err != nil {
		return ""
	}
	if x := names[int(n)]; x != "" {
		return " " + x
	}
	return fmt.Sprintf(" %d", n)
}

func X06(e *Eng) {
	e.rule = "one case per input, call or use of a stream, enumerated without repetition per harness; all are non-trivial"
	e.assume = []string{"effects are system calls other than those of Go's runtime (memory, threads, time, signals' masks), bytes written to standard output or error, and changes of the environment, of settings of the runtime and of log, flag, os, io, unicode and x/text's variables"}
	var buf bytes.Buffer
	for n, s := range effSets() {
		n, s := n, s
		parts := 64
		if parts > s.n {
			parts = s.n
		}
		e.Par(s.name, s.space, parts, func(w *Worker, i int) {
			lo, hi := s.n*i/parts, s.n*(i+1)/parts
			w.Desc(func() string { return s.name + ": " + s.say(lo) + " and so on" })
			at, bad, res := effChild(w, n, lo, hi, s.step)
			if res != "" && i == 0 && buf.Len() == 0 {
				fmt.Fprint(&buf, res)
			}
			for ; lo < at; lo++ {
				w.Tick(true)
			}
			if bad == "" {
				return
			}
			// which case was it?
			if lo >= hi { // it is known only that one of them printed
				lo = s.n * i / parts
			}
			first, what, end := lo, bad, hi
			if end > lo+s.step {
				end = lo + s.step
			}
			if strings.HasPrefix(bad, "it printed") {
				// halve
				for x, y := lo, hi; ; {
					if y-x <= 1 {
						first = x
						break
					}
					m := (x + y) / 2
					if _, b, _ := effChild(w, n, x, m, s.step); b != "" {
						y, what = m, b
					} else if _, b, _ := effChild(w, n, m, y, s.step); b != "" {
						x, what = m, b
					} else {
						first = x
						break
					}
				}
			} else if a, b, _ := effChild(w, n, lo, end, 1); b != "" {
				first, what = a, b
			}
			w.artefact = &artefact{"X06_effects.json", map[string]interface{}{"property": "X06", "set": s.name, "index": first, "case": s.say(first), "got": what}}
			w.Fail(int64(first), s.say(first), "a result, and nothing else", what, func() bool {
				_, b, _ := effChild(w, n, first, first+1, 1)
				return b != ""
			}, "")
		})
	}
	if buf.Len() > 0 {
		e.extra["system_calls_restricted"] = buf.String()
	} else {
		e.extra["system_calls_restricted"] = true
	}
	e.Sample(effSets()[4].say(1234))
}
