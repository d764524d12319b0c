// Command dst is the deterministic simulation of go-memcache: see DESIGN.md.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"

	"verifsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dst check|worker|one|replay|run|determinism ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "one":
		cmdOne()
	case "replay":
		cmdReplay(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "version":
		fmt.Println("dst: deterministic simulation of go-memcache")
	case "determinism":
		cmdDeterminism(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// oneRun executes a plan and adds what the race detector saw.
func oneRun(p *Plan, t *Tapes, trace bool) *RunOut {
	n0 := raceMark()
	o := runPlan(p, t, trace)
	if rep := raceReports(n0); rep != "" && p.Prop == "C17" && (o.Class == "" || o.Kind == "inconclusive") {
		o.Class, o.Msg, o.Kind = "race", rep, "violation"
		if !raceInLibrary(rep) {
			o.Kind = "harness"
		}
	}
	return o
}

// noReuse turns the garbage collector off under the race detector: it then meets no memory
// address twice in a run and cannot pair an access with one to memory freed before. Worker
// processes are replaced as they grow.
func noReuse() {
	if raceEnabled {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
	}
}

func heapInUse() uint64 {
	x := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(x)
	return x[0].Value.Uint64()
}

// cmdWorker runs the plans off, off+stride, ... < n; it reports each start and each end.
func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	off := fs.Uint64("off", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Uint64("n", 1, "")
	deep := fs.Bool("deep", false, "")
	hash := fs.Bool("hash", false, "trace every run and report the hash of the trace")
	_ = fs.Parse(args)
	runtime.GOMAXPROCS(1)
	noReuse()
	out := bufio.NewWriter(os.Stdout)
	for i := *off; i < *n; i += *stride {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		p := genPlan(*prop, *seed, i, *deep)
		o := oneRun(p, nil, *hash)
		if *hash {
			h := strHash(strings.Join(o.Trace, "\n"))
			o.Hash = simrt.Mix(o.Hash, h)
			for _, t := range o.Tapes {
				for _, c := range t {
					o.Hash = simrt.Mix(o.Hash, uint64(c.I), uint64(c.V))
				}
			}
			o.Trace = nil
		}
		fail := o.Class != ""
		if !fail {
			o.Tapes = Tapes{}
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		out.WriteString("D ")
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
		if fail { // its goroutines are parked for ever
			os.Exit(0)
		}
		if raceEnabled && heapInUse() > 400<<20 {
			out.WriteString("R\n") // go on in a fresh process
			out.Flush()
			os.Exit(0)
		}
	}
	out.WriteString("E\n")
	out.Flush()
}

// oneReq is a request of the minimiser.
type oneReq struct {
	Plan  *Plan    `json:"plan"`
	Tapes *Tapes   `json:"tapes,omitempty"`
	Seeds []uint64 `json:"seeds,omitempty"`
	Want  string   `json:"want"`
	Trace bool     `json:"trace,omitempty"`
}

// cmdOne reads a request and prints the first outcome of the wanted class, or
// the last outcome.
func cmdOne() {
	runtime.GOMAXPROCS(1)
	noReuse()
	var r oneReq
	if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var last *RunOut
	if r.Tapes != nil {
		last = oneRun(r.Plan, r.Tapes, r.Trace)
	}
	if last == nil || last.Class == "" {
		for _, s := range r.Seeds {
			r.Plan.Seed = s
			last = oneRun(r.Plan, nil, r.Trace)
			if last.Class != "" {
				break
			}
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(last)
	os.Stdout.Sync()
	os.Exit(0)
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Msg       string   `json:"msg"`
	VerifSeed uint64   `json:"verif_seed"`
	Index     uint64   `json:"index"`
	Race      bool     `json:"race,omitempty"`
	OrigOps   int      `json:"original_ops"`
	OrigFault int      `json:"original_faults"`
	OrigChoi  int      `json:"original_choices"`
	Ops       int      `json:"ops"`
	Faults    int      `json:"faults"`
	Choices   int      `json:"choices"`
	Exact     bool     `json:"replayed_exactly"`
	Hash      uint64   `json:"hash"`
	Plan      *Plan    `json:"plan"`
	Tapes     *Tapes   `json:"tapes,omitempty"`
	Trace     []string `json:"trace,omitempty"`
}

func cmdReplay(args []string) {
	runtime.GOMAXPROCS(1)
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: dst replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := oneRun(r.Plan, r.Tapes, true)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	switch {
	case o.Class == "":
		fmt.Println("no failure in this execution")
	case o.Class == r.Class:
		fmt.Printf("%s: %s\n", o.Class, o.Msg)
		fmt.Printf("same schedule as recorded: %v\n", o.Hash == r.Hash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
		os.Exit(1)
	default:
		fmt.Printf("a different failure: %s: %s\n", o.Class, o.Msg)
		os.Exit(2)
	}
}

// cmdRun executes one generated plan and prints everything about it.
func cmdRun(args []string) {
	runtime.GOMAXPROCS(1)
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Uint64("idx", 0, "")
	deep := fs.Bool("deep", false, "")
	plan := fs.Bool("plan", false, "print the plan")
	quiet := fs.Bool("q", false, "no trace")
	_ = fs.Parse(args)
	p := genPlan(*prop, *seed, *idx, *deep)
	if *plan {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	o := oneRun(p, nil, !*quiet)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	o.Trace = nil
	o.Tapes = Tapes{}
	msg := o.Msg
	o.Msg = firstLine(o.Msg)
	b, _ := json.MarshalIndent(o, "", " ")
	fmt.Println(string(b))
	if msg != "" {
		fmt.Println(msg)
		os.Exit(1)
	}
}
