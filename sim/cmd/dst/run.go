package main

import (
	"io"
	"log"
	"runtime/debug"
	"strings"

	"verifsim/simrt"
)

// Tapes are the recorded non-default choices of a run, per stream.
type Tapes [simrt.NumStreams][]simrt.Choice

// RunOut is the outcome of one simulated execution.
type RunOut struct {
	Idx      uint64         `json:"idx"`
	Seed     uint64         `json:"seed"`
	Profile  string         `json:"profile"`
	Class    string         `json:"class,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Kind     string         `json:"kind,omitempty"` // violation, inconclusive, harness
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Events   uint64         `json:"events"`
	Early    uint64         `json:"early"`
	Stalls   uint64         `json:"stalls"`
	Now      int64          `json:"now"`
	Sim      int64          `json:"sim"` // simulated time with activity
	Hash     uint64         `json:"hash"`
	Choices  int            `json:"choices"`
	Calls    int            `json:"calls"`
	Replies  int            `json:"replies"`
	Errs     int            `json:"errs"`
	Wire     int            `json:"wire"`
	LinOps   int            `json:"lin_ops"`
	Conns    int            `json:"conns"`
	Fired    map[string]int `json:"fired,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Tapes    Tapes          `json:"tapes"`
	Trace    []string       `json:"trace,omitempty"`
}

// Classes of failures which are not tied to one oracle.
var liveness = map[string]bool{"hang": true, "deadlock": true, "steps": true, "spin": true}

// livenessOf lists the properties which say that calls or background work go on.
var livenessOf = map[string]bool{"C01": true, "C04": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C13": true, "C14": true, "C15": true, "C16": true, "C18": true, "C20": true}

func runPlan(p *Plan, tapes *Tapes, trace bool) *RunOut {
	w := newWorld(p)
	w.traceOn = trace
	log.SetOutput(io.Discard)
	var t *[simrt.NumStreams][]simrt.Choice
	if tapes != nil {
		t = (*[simrt.NumStreams][]simrt.Choice)(tapes)
	}
	for i := range p.Faults {
		p.Faults[i].used = false
	}
	debug.SetPanicOnFault(false)
	r := simrt.Run(p.Sched, p.Seed, t, w.main)
	o := &RunOut{Idx: p.Index, Seed: p.Seed, Profile: p.Profile, Steps: r.Steps, Switches: r.Switches, Events: r.Events, Early: r.Early, Stalls: r.Stalls, Now: r.Now, Hash: r.Hash,
		Calls: w.nCalls, Replies: w.nReplies, Errs: w.nErrs, Wire: w.wireN, Conns: len(w.conns), Fired: countMap(w.fired), Probes: countMap(w.probes), Tapes: Tapes(r.Rec)}
	for _, x := range r.Rec {
		o.Choices += len(x)
	}
	if r.Fail == nil && p.P["lin"] != 0 {
		w.over = true
		w.checkLin()
		o.LinOps = w.linOps
		r.Fail = w.postFail
	}
	o.Sim = r.Now
	if w.endT > 0 { // do not count the quiet time at the end
		o.Sim = w.endT
	}
	o.Trace = w.trace
	if r.Fail != nil {
		o.Class, o.Msg = r.Fail.Class, r.Fail.Msg
		if (o.Class == "hang" || o.Class == "deadlock") && p.Prop == "C02" && !w.anyFault && !w.closing {
			for _, pp := range w.pipes {
				if op := w.transmitted(pp); op != nil {
					o.Class, o.Msg = "never-sent", op.desc()+" was flushed, but its command was never sent, although nothing failed; "+o.Msg
					break
				}
			}
		}
		o.classify(p)
	}
	return o
}

// classify decides what a failure means for the property of the run.
func (o *RunOut) classify(p *Plan) {
	switch {
	case o.Class == "panic":
		o.Kind = "violation"
		if !libraryPanic(o.Msg) {
			o.Kind = "harness"
		}
	case liveness[o.Class]:
		o.Kind = "violation"
		if !livenessOf[p.Prop] {
			o.Kind = "inconclusive"
		}
	default:
		o.Kind = "violation"
	}
}

// libraryPanic reports whether the innermost frame that is not part of the
// runtime or the simulator belongs to the library under test.
func libraryPanic(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, " ") {
			continue
		}
		if !seen {
			// everything up to the call of panic is the recovering code
			if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.Contains(l, "fatal error") {
				seen = true
			}
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "verifsim/simrt.") || strings.HasPrefix(l, "verifsim/shim") {
			continue
		}
		if strings.HasPrefix(l, libPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verifsim/") {
			return false
		}
		if !strings.Contains(l, "(") {
			continue
		}
		// standard library code: look further out
	}
	return false
}

const libPath = "github.com/QuangTung97/go-memcache/"

func (o *RunOut) short() string {
	return simrt.Sprintf("%s %s #%d: %s: %s", o.Kind, o.Profile, o.Idx, o.Class, firstLine(o.Msg))
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
