package main

// Artefacts of the streaming checks: what the environment did, as data, which
// replay.sh plays again against the code of the day.

import (
	"encoding/json"
	"fmt"
	"os"
)

type artPlan struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Case     string   `json:"case"`
	Got      string   `json:"got,omitempty"`
	Text     string   `json:"text"` // Data, to be read by people
	Data     []byte   `json:"data"`
	Chunks   []int    `json:"chunks,omitempty"`
	End      string   `json:"end,omitempty"`
	With     bool     `json:"with,omitempty"`
	Def      int      `json:"def,omitempty"`
	Dev      [][2]int `json:"dev,omitempty"`
	Cyc      []int    `json:"cyc,omitempty"`
	Fail     []int    `json:"fail,omitempty"`
	GiveUp   uint64   `json:"give_up,omitempty"`
	Steps    [][3]int `json:"steps,omitempty"`
	Whole    bool     `json:"whole,omitempty"`
}

func savePlan(e *Eng, a artPlan) *artefact {
	a.Property = e.prop
	a.Text = fmt.Sprintf("%q", clip(string(a.Data)))
	return &artefact{e.prop + "_plan.json", a}
}

func devPairs(l []dev) (o [][2]int) {
	for _, d := range l {
		o = append(o, [2]int{d.at, d.size})
	}
	return
}

func stepTriples(l []step) (o [][3]int) {
	for _, s := range l {
		o = append(o, [3]int{s.win, s.dst, b2i(s.eof)})
	}
	return
}

// playSteps makes the given steps one after the other; whole says they end
// the input.
func playSteps(c *codec, in []byte, steps []step, whole bool) string {
	x := &trun{c: c, in: in}
	if whole {
		bad, _ := x.path(steps, step{dst: 64}, nil)
		return bad
	}
	t := c.make()
	pos := 0
	done := false
	for k, s := range steps {
		if s.win > len(in)-pos {
			s.win = len(in) - pos
		}
		n, d, bad := x.one(t, pos, s)
		if bad != "" {
			return fmt.Sprintf("step %d: %s", k, bad)
		}
		pos += n
		done = d
	}
	if want, _ := c.all(in); done && string(want) != string(x.out) {
		return fmt.Sprintf("in total %q, expected %q", x.out, want)
	}
	return ""
}

func init() {
	// -replayplan FILE
	modes["-replayplan"] = func(args []string) {
		var a artPlan
		b, err := os.ReadFile(args[0])
		if err == nil {
			err = json.Unmarshal(b, &a)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		bad := ""
		switch a.Kind {
		case "reader":
			p := &plan{data: a.Data, chunks: a.Chunks, end: streamErr(a.End, errSource), with: a.With, def: a.Def, cyc: a.Cyc}
			for _, d := range a.Dev {
				p.dev = append(p.dev, dev{d[0], d[1]})
			}
			var x rrun
			bad = x.exec(p, nil)
		case "writer":
			p := &wplan{data: a.Data, parts: a.Chunks, fail: a.Fail, giveUp: a.GiveUp, err: streamErr(a.End, errSink)}
			var x wrun
			bad = x.exec(p, nil)
		case dec.name, enc.name:
			var steps []step
			for _, s := range a.Steps {
				steps = append(steps, step{s[0], s[1], s[2] != 0})
			}
			c := dec
			if a.Kind == enc.name {
				c = enc
			}
			bad = playSteps(c, a.Data, steps, a.Whole)
		default:
			fmt.Println("no such kind of plan")
			os.Exit(2)
		}
		fmt.Println(a.Text, a.Case)
		if bad != "" {
			fmt.Println("broken:", bad)
			os.Exit(1)
		}
		fmt.Println("held")
	}
}
