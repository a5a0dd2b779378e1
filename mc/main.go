package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

var checks = map[string]func(*Eng){
	"H01": H01, "H02": H02, "H03": H03, "H04": H04, "H05": H05, "H06": H06, "H07": H07, "H08": H08, "J01": J01, "J02": J02,
	"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06, "C07": C07, "C08": C08, "C09": C09, "C10": C10,
	"X01": X01, "X02": X02, "X03": X03, "X04": X04, "X05": X05, "X06": X06,
}

// modes are child processes of checks.
var modes = map[string]func(args []string){}

func main() {
	menu = buildMenu()
	if len(os.Args) < 2 {
		fmt.Println("usage: mc PROPERTY")
		os.Exit(2)
	}
	if os.Args[1] == "-run" {
		run(os.Args[2])
	}
	if m := modes[os.Args[1]]; m != nil {
		m(os.Args[2:])
		return
	}
	supervise(os.Args[1])
}

// run explores in this process.
func run(id string) {
	f := checks[id]
	if f == nil {
		fmt.Println("no such check:", id)
		os.Exit(2)
	}
	if err := selfTest(); err != nil {
		fmt.Println("reference self-test:", err)
		os.Exit(2)
	}
	e := newEng(id)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if !e.stop.Load() {
					panic(r)
				}
				// a sample of what is known to be broken
			}
		}()
		f(e)
	}()
	e.finish()
}

const crashLimit = 1 << 20

// tail keeps the first, and the last.
type tail struct {
	b    bytes.Buffer
	last []byte
}

// all is what it kept.
func (t *tail) all() string { return t.b.String() + string(t.last) }

func (t *tail) Write(p []byte) (int, error) {
	if n := crashLimit - t.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b.Write(p[:n])
		if n < len(p) {
			t.last = append(t.last, p[n:]...)
		}
	} else {
		t.last = append(t.last, p...)
	}
	if n := len(t.last) - 1<<14; n > 1<<14 {
		t.last = append([]byte(nil), t.last[n:]...)
	}
	return len(p), nil
}

// crashed says whether a process died in the code under test: Go gave up on
// it (a fatal error or a panic nobody recovers) and the goroutine to blame,
// which comes first, was in a package of the repository.
func crashed(stderr string) (string, bool) {
	i := strings.Index(stderr, "fatal error: ")
	if j := strings.Index(stderr, "panic: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return "", false
	}
	s := stderr[i:]
	first := strings.SplitN(s, "\n", 2)[0]
	g := strings.Index(s, "\ngoroutine ")
	if g < 0 {
		return first, false
	}
	body := s[g+1:]
	if n := strings.Index(body, "\n\n"); n >= 0 {
		body = body[:n]
	}
	return first, strings.Contains(body, "github.com/suapapa/go_hangul")
}

// ended says whether an exploration ended without a verdict and without
// having failed, which has status 2 and a message: then something else called
// os.Exit.
func ended(id string, code int, out, stderr string) bool {
	if code < 0 || code == 2 || strings.Contains(stderr, "goroutine ") {
		return false
	}
	return !strings.Contains(out, "OK property="+id) && !strings.Contains(out, "VIOLATION property="+id)
}

// supervise runs the exploration in a child, so that a crash of the code
// under test which Go cannot recover from is still decided.
func supervise(id string) {
	if checks[id] == nil {
		fmt.Println("no such check:", id)
		os.Exit(2)
	}
	start := time.Now()
	var logs []string
	crashes := 0
	for try := 0; try < 3; try++ {
		var errb, outb tail
		c := exec.Command(os.Args[0], "-run", id)
		c.Stdout = &outb
		c.Stderr = io.MultiWriter(os.Stderr, &errb)
		c.Env = os.Environ()
		err := c.Run()
		code := c.ProcessState.ExitCode()
		if ended(id, code, outb.all(), errb.b.String()) {
			what := fmt.Sprintf("a call of the code under test ended the process, with status %d", code)
			path := filepath.Join(evidenceDir(), "replay", id+"_crash.txt")
			os.MkdirAll(filepath.Dir(path), 0o755)
			os.WriteFile(path, append(outb.b.Bytes(), errb.b.Bytes()...), 0o644)
			crashEvidence(id, what, time.Since(start))
			fmt.Println(what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			os.Exit(1)
		}
		if err == nil || code == 1 || code == 2 && !strings.Contains(errb.b.String(), "goroutine ") {
			if crashes == 0 || code == 1 {
				os.Stdout.WriteString(outb.all())
				if code < 0 {
					code = 2
				}
				if code == 0 {
					code = on32(id)
				}
				os.Exit(code)
			}
			continue // it crashed before and not now: once more
		}
		what, ours := crashed(errb.b.String())
		if !ours {
			os.Stdout.Write(outb.b.Bytes())
			fmt.Println("the check failed:", err)
			os.Exit(2)
		}
		crashes++
		logs = append(logs, errb.b.String())
		if crashes == 2 || strings.Contains(what, "concurrent map") {
			dir := filepath.Join(evidenceDir(), "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, id+"_crash.txt")
			os.WriteFile(path, []byte(strings.Join(logs, "\n\n======== again ========\n\n")), 0o644)
			crashEvidence(id, what, time.Since(start))
			fmt.Println("the code under test crashed the process:", what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			os.Exit(1)
		}
	}
	fmt.Println("the check crashed in one run of three")
	os.Exit(2)
}

// on32 decides the property again on a machine with ints of 32 bits: in the
// quick tier completely only where that takes a few seconds, otherwise what
// can be explored in 6 seconds, simplest first.
func on32(id string) int {
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if never32[id] != "" || os.Getenv("VERIF_NO32") != "" {
		return 0
	}
	mc, tmp := os.Getenv("VERIF_MC"), os.Getenv("VERIF_TMP")
	bin := filepath.Join(tmp, "mc32")
	note := func(what interface{}) {
		path := filepath.Join(evidenceDir(), id+".json")
		var ev map[string]interface{}
		b, err := os.ReadFile(path)
		if err == nil && json.Unmarshal(b, &ev) == nil {
			if c, ok := ev["coverage"].(map[string]interface{}); ok {
				c["on_386"] = what
				b, _ = json.MarshalIndent(ev, "", " ")
				os.WriteFile(path, append(b, '\n'), 0o644)
			}
		}
	}
	os.Setenv("GOARCH", "386")
	err := goBuild(mc, tmp, "mc32.mod", repoDir(), bin)
	os.Unsetenv("GOARCH")
	if err != nil {
		note("not built: " + clip(err.Error()))
		return 0
	}
	if exec.Command(bin, "-hist", "0").Run() != nil {
		note("this machine does not run programs for 386")
		return 0
	}
	dir := filepath.Join(tmp, "ev32")
	var outb, errb tail
	c := exec.Command(bin, "-run", id)
	c.Stdout, c.Stderr = &outb, &errb
	c.Env = append(os.Environ(), "VERIF_TIER=quick", "VERIF_EVIDENCE="+dir)
	if !thorough && !quick32[id] {
		s := 6
		if id == "C04" || id == "C06" {
			s = 25 // "very long" comes first
		}
		c.Env = append(c.Env, fmt.Sprintf("VERIF_DEADLINE_S=%d", s))
	}
	err = c.Run()
	code := c.ProcessState.ExitCode()
	switch {
	case err == nil:
		var ev struct {
			Coverage map[string]interface{}
			Wall     float64 `json:"wall_s"`
		}
		b, _ := os.ReadFile(filepath.Join(dir, id+".json"))
		json.Unmarshal(b, &ev)
		note(map[string]interface{}{"wall_s": ev.Wall, "harnesses": ev.Coverage["harnesses"]})
		fmt.Printf("OK on 386 too, in %.1f s\n", ev.Wall)
		return 0
	case code == 1:
		os.Stdout.WriteString("with GOARCH=386:\n" + strings.Replace(outb.all(), dir, evidenceDir(), -1))
		os.MkdirAll(filepath.Join(evidenceDir(), "replay"), 0o755)
		l, _ := filepath.Glob(filepath.Join(dir, "replay", "*"))
		for _, f := range append(l, filepath.Join(dir, id+".json")) {
			rel, _ := filepath.Rel(dir, f)
			if b, err := os.ReadFile(f); err == nil {
				os.WriteFile(filepath.Join(evidenceDir(), rel), b, 0o644)
			}
		}
		return 1
	}
	what, ours := crashed(errb.b.String())
	if ours && !strings.Contains(what, "out of memory") && !strings.Contains(what, "cannot allocate") {
		path := filepath.Join(evidenceDir(), "replay", id+"_crash.txt")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, errb.b.Bytes(), 0o644)
		crashEvidence(id, "with GOARCH=386: "+what, 0)
		fmt.Println("with GOARCH=386 the code under test crashed the process:", what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	note("did not finish: " + what)
	return 0
}

// quick32 are the properties decided with 32 bits completely in the quick tier.
var quick32 = map[string]bool{"H01": true, "H02": true, "H03": true, "H04": true, "H05": true, "H06": true, "H07": true, "J02": true, "C03": true}

// never32 are those that cannot be.
var never32 = map[string]string{"X02": "there is no race detector for 386", "X06": "the filter of system calls is for amd64"}

func evidenceDir() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return "/verif/evidence"
}

func crashEvidence(id, what string, d time.Duration) {
	e := newEng(id)
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "tier": e.tier, "seed": e.seed, "level": "other", "violations": 1, "wall_s": d.Seconds(),
		"coverage": map[string]interface{}{"explanation": "the exploration ended in a crash of the code under test: " + what},
	}, "", " ")
	os.MkdirAll(evidenceDir(), 0o755)
	os.WriteFile(filepath.Join(evidenceDir(), id+".json"), append(b, '\n'), 0o644)
}
