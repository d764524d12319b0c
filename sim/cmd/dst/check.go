package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// The parent process: it distributes runs over worker processes, minimises the
// first violation, writes the replay file and the evidence. It is the only part
// that reads the real clock, and only to bound its own running time.

const workers = 8

// Known is an entry of known-findings.json.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"` // regular expression on the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type tally struct {
	runs, nontrivial           int
	calls, replies, errs, wire int64
	steps, switches, events    uint64
	early, stalls, choices     uint64
	linOps, conns              int64
	simNS                      int64
	fired, probes, profiles    map[string]int
	hashes                     map[uint64]bool
	samples                    []string
	inconclusive               map[string]int
	inconclusiveRuns           int
	unconfirmed                int // reports of the race detector which do not recur
	incSample                  string
}

type checker struct {
	prop, tier string
	seed       uint64
	deep       bool
	n          uint64
	known      []Known
	start      time.Time
	mu         sync.Mutex
	t          tally
	viol       []*RunOut
	knownHit   map[int]int
	fatal      string
	stop       bool
	deadline   time.Time
	procs      map[*exec.Cmd]bool
	raceDir    string
	replays    string
	perRun     time.Duration
	truncated  bool
	minimised  map[string]int
}

// runsOf: number of runs of the quick and the thorough check.
var runsOf = map[string][2]uint64{
	"C01": {100000, 3000000}, "C02": {130000, 3000000}, "C03": {300000, 4000000}, "C04": {130000, 3000000}, "C05": {120000, 1500000},
	"C06": {60000, 2000000}, "C07": {100000, 2500000}, "C08": {350000, 5000000}, "C09": {200000, 4000000}, "C10": {150000, 4000000},
	"C11": {17000, 500000}, "C12": {250000, 4000000}, "C13": {250000, 3000000}, "C14": {300000, 5000000}, "C15": {450000, 5000000},
	"C16": {200000, 4000000}, "C17": {15000, 300000}, "C18": {300000, 4000000}, "C19": {300000, 4000000}, "C20": {300000, 4000000},
}

func (c *checker) env() []string {
	e := os.Environ()
	if raceEnabled {
		e = append(e, "GORACE=log_path="+filepath.Join(c.raceDir, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=3")
	}
	e = append(e, "GOMAXPROCS=1", "GOTRACEBACK=all")
	return e
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Uint64("n", 0, "number of runs (default: by property and tier)")
	secs := fs.Int("secs", 0, "limit on the search in seconds")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	knownFile := fs.String("known", "", "")
	work := fs.String("work", "", "scratch directory")
	_ = fs.Parse(args)
	c := &checker{prop: *prop, tier: *tier, seed: *seed, deep: *tier == "thorough", start: time.Now(), knownHit: map[int]int{}, procs: map[*exec.Cmd]bool{}, replays: *replays, raceDir: *work, minimised: map[string]int{}}
	c.t.fired, c.t.probes, c.t.profiles, c.t.hashes, c.t.inconclusive = map[string]int{}, map[string]int{}, map[string]int{}, map[uint64]bool{}, map[string]int{}
	if profilesOf[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *knownFile != "" {
		b, err := os.ReadFile(*knownFile)
		if err != nil {
			c.die("known findings: " + err.Error())
		}
		if err := json.Unmarshal(b, &c.known); err != nil {
			c.die("known findings: " + err.Error())
		}
	}
	k := 0
	lim := 80 * time.Second
	if c.deep {
		k = 1
		lim = 20 * time.Minute
	}
	c.n = runsOf[*prop][k]
	if c.n == 0 {
		c.n = []uint64{4000, 80000}[k]
	}
	if *n > 0 {
		c.n = *n
	}
	if *secs > 0 {
		lim = time.Duration(*secs) * time.Second
	}
	c.perRun = 90 * time.Second
	if raceEnabled {
		c.perRun = 180 * time.Second
	}
	c.deadline = c.start.Add(lim)
	fmt.Printf("property %s, tier %s, VERIF_SEED %d: up to %d simulated runs on %d workers\n", c.prop, c.tier, c.seed, c.n, workers)
	c.search()
	code := c.report()
	c.evidence(*evid)
	os.Exit(code)
}

func (c *checker) die(msg string) {
	fmt.Fprintln(os.Stderr, "ERROR:", msg)
	os.Exit(2)
}

func (c *checker) search() {
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k uint64) {
			defer wg.Done()
			c.worker(k)
		}(uint64(k))
	}
	wg.Wait()
}

func (c *checker) stopAll() {
	c.stop = true
	for p := range c.procs {
		_ = p.Process.Kill()
	}
}

func (c *checker) worker(k uint64) {
	next := k
	for {
		c.mu.Lock()
		over := c.stop || next >= c.n
		if !over && time.Now().After(c.deadline) {
			c.truncated = true
			over = true
		}
		c.mu.Unlock()
		if over {
			return
		}
		next = c.batch(next)
	}
}

// batch starts a worker process at index next and returns the next index to run.
func (c *checker) batch(next uint64) uint64 {
	a := []string{"worker", "-prop", c.prop, "-seed", strconv.FormatUint(c.seed, 10), "-off", strconv.FormatUint(next, 10), "-stride", strconv.Itoa(workers), "-n", strconv.FormatUint(c.n, 10)}
	if c.deep {
		a = append(a, "-deep")
	}
	cmd := exec.Command(os.Args[0], a...)
	cmd.Env = c.env()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		c.die(err.Error())
	}
	if err := cmd.Start(); err != nil {
		c.die(err.Error())
	}
	c.mu.Lock()
	c.procs[cmd] = true
	if c.stop {
		_ = cmd.Process.Kill()
	}
	c.mu.Unlock()
	var dog *time.Timer
	hung := false
	dog = time.AfterFunc(c.perRun, func() {
		c.mu.Lock()
		hung = true
		c.mu.Unlock()
		_ = cmd.Process.Kill()
	})
	cur := next
	started, ended, failed := false, false, false
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Bytes()
		if len(l) == 0 {
			continue
		}
		switch l[0] {
		case 'S':
			cur, _ = strconv.ParseUint(string(l[2:]), 10, 64)
			started = true
			dog.Reset(c.perRun)
		case 'D':
			var o RunOut
			if err := json.Unmarshal(l[2:], &o); err != nil {
				c.mu.Lock()
				c.fatal = "bad worker output: " + err.Error()
				c.stopAll()
				c.mu.Unlock()
				break
			}
			started = false
			cur = o.Idx + workers
			if o.Class != "" {
				failed = true
			}
			if c.add(&o) {
				_ = cmd.Process.Kill()
				failed = true
			}
		case 'E':
			ended = true
		case 'R': // the worker asks to be replaced
			failed = true
		}
		c.mu.Lock()
		if time.Now().After(c.deadline) && !c.stop {
			c.truncated = cur < c.n
			failed = true
			_ = cmd.Process.Kill()
		}
		c.mu.Unlock()
	}
	dog.Stop()
	werr := cmd.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.procs, cmd)
	if c.stop || ended || failed && !started {
		if ended {
			return c.n
		}
		return cur
	}
	if failed && time.Now().After(c.deadline) {
		return c.n
	}
	if hung {
		c.fatal = fmt.Sprintf("run %d did not end within %v of real time", cur, c.perRun)
		c.stopAll()
		return c.n
	}
	// the worker process died
	st := errb.String()
	if crashInLibrary(st) {
		p := genPlan(c.prop, c.seed, cur, c.deep)
		o := &RunOut{Idx: cur, Seed: p.Seed, Profile: p.Profile, Class: "crash", Msg: trunc(st, 6000), Kind: "violation"}
		c.addViolation(o)
		return cur + workers
	}
	c.fatal = fmt.Sprintf("worker died in run %d (%v): %s", cur, werr, trunc(st, 3000))
	c.stopAll()
	return c.n
}

// crashInLibrary: the process was ended by the Go runtime in library code.
func crashInLibrary(st string) bool {
	i := strings.Index(st, "fatal error: ")
	if i < 0 {
		if i = strings.Index(st, "panic: "); i < 0 {
			return false
		}
	}
	st = st[i:]
	// the first goroutine listed is the one that failed
	j := strings.Index(st, "\ngoroutine ")
	if j < 0 {
		return false
	}
	st = st[j+1:]
	if e := strings.Index(st, "\n\n"); e >= 0 {
		st = st[:e]
	}
	for _, l := range strings.Split(st, "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "verifsim/simrt.") || strings.HasPrefix(l, "verifsim/shim") {
			continue
		}
		if strings.HasPrefix(l, libPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verifsim/") {
			return false
		}
	}
	return false
}

func addMap(d, s map[string]int) {
	for k, v := range s {
		d[k] += v
	}
}

// add counts a run; it returns true if the worker has to be stopped.
func (c *checker) add(o *RunOut) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := &c.t
	t.runs++
	t.calls += int64(o.Calls)
	t.replies += int64(o.Replies)
	t.errs += int64(o.Errs)
	t.wire += int64(o.Wire)
	t.steps += o.Steps
	t.switches += o.Switches
	t.events += o.Events
	t.early += o.Early
	t.stalls += o.Stalls
	t.choices += uint64(o.Choices)
	t.linOps += int64(o.LinOps)
	t.conns += int64(o.Conns)
	t.simNS += o.Sim
	addMap(t.fired, o.Fired)
	addMap(t.probes, o.Probes)
	t.profiles[o.Profile]++
	nf := 0
	for _, v := range o.Fired {
		nf += v
	}
	if o.Wire > 0 && (o.Choices > 0 || nf > 0) && !t.hashes[o.Hash] {
		t.hashes[o.Hash] = true
		t.nontrivial++
	}
	if o.Idx < 5 || (nf > 0 && len(t.samples) < 8) {
		t.samples = append(t.samples, fmt.Sprintf("run %d profile=%s run-seed=%d: calls=%d replies=%d errors=%d commands=%d connections=%d faults=%v decisions=%d switches=%d simulated=%dms schedule=%016x", o.Idx, o.Profile, o.Seed, o.Calls, o.Replies, o.Errs, o.Wire, o.Conns, o.Fired, o.Choices, o.Switches, o.Now/ms, o.Hash))
	}
	switch o.Kind {
	case "":
		return false
	case "violation":
		return c.addViolation(o)
	case "inconclusive":
		t.inconclusive[o.Class]++
		t.inconclusiveRuns++
		if t.incSample == "" {
			t.incSample = fmt.Sprintf("run %d: %s: %s", o.Idx, o.Class, o.Msg)
		}
		if t.inconclusiveRuns > 200 {
			c.stopAll()
		}
		return false
	default:
		c.fatal = "failure of the harness: " + o.short() + "\n" + o.Msg
		c.stopAll()
		return true
	}
}

func (c *checker) addViolation(o *RunOut) bool {
	for i, k := range c.known {
		if k.Status == "known" && k.Property == c.prop && k.Class == o.Class {
			if m, err := regexp.MatchString(k.Match, o.Msg); err == nil && m {
				c.knownHit[i]++
				return false
			}
		}
	}
	if o.Class == "race" && !c.stop {
		// The race detector keys its history by memory address, and addresses are the one
		// thing a run does not determine: in a process which executed many runs it can pair
		// an access with one to memory long since reused. A data race in the library recurs
		// in a fresh process; what does not recur is counted and not reported.
		c.mu.Unlock()
		ok := c.recurs(o)
		c.mu.Lock()
		if !ok {
			c.t.unconfirmed++
			fmt.Fprintf(os.Stderr, "run %d: the race detector's report does not recur in fresh processes, not counted:\n%s\n", o.Idx, trunc(o.Msg, 1500))
			if c.t.unconfirmed > 20 {
				c.fatal = "too many reports of the race detector which do not recur"
				c.stopAll()
				return true
			}
			return false
		}
	}
	c.viol = append(c.viol, o)
	c.stopAll()
	return true
}

// recurs reports whether the failure of a run shows again in one of four fresh processes.
func (c *checker) recurs(o *RunOut) bool {
	for i := 0; i < 4; i++ {
		p := genPlan(c.prop, c.seed, o.Idx, c.deep)
		if a := c.try(&oneReq{Plan: p, Seeds: []uint64{p.Seed}}); a != nil && a.Class == o.Class {
			return true
		}
	}
	return false
}

func (c *checker) report() int {
	for i, k := range c.known {
		if c.knownHit[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", c.prop, k.What, c.knownHit[i])
		}
	}
	fmt.Printf("%d runs, %d calls, %d commands, %.1f s of simulated time, %d distinct schedules, %.1f s of real time\n", c.t.runs, c.t.calls, c.t.wire, float64(c.t.simNS)/1e9, len(c.t.hashes), time.Since(c.start).Seconds())
	if len(c.viol) > 0 {
		sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Idx < c.viol[j].Idx })
		return c.reportViolation(c.viol[0])
	}
	if c.fatal != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", c.fatal)
		return 2
	}
	if c.t.inconclusiveRuns > 0 {
		fmt.Fprintf(os.Stderr, "ERROR: %d runs did not come to an end, so %s could not be judged in them (this failure belongs to another property): %v\n%s\n", c.t.inconclusiveRuns, c.prop, c.t.inconclusive, c.t.incSample)
		return 2
	}
	if c.t.runs == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no run was made")
		return 2
	}
	return 0
}

// ---- minimisation ----

// try executes a request in a fresh process; nil if the process gave no answer.
func (c *checker) try(r *oneReq) *RunOut {
	cmd := exec.Command(os.Args[0], "one")
	cmd.Env = c.env()
	b, _ := json.Marshal(r)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		c.die(err.Error())
	}
	dog := time.AfterFunc(c.perRun, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	dog.Stop()
	var o RunOut
	if json.Unmarshal(out.Bytes(), &o) != nil || out.Len() == 0 {
		if err != nil && crashInLibrary(errb.String()) {
			return &RunOut{Idx: r.Plan.Index, Class: "crash", Kind: "violation", Msg: trunc(errb.String(), 6000)}
		}
		return nil
	}
	return &o
}

type cand struct {
	p *Plan
	t *Tapes
}

// firstOK runs candidates in parallel and returns the first which fails with the class.
func (c *checker) firstOK(cs []cand, class string, until time.Time) (int, *RunOut) {
	const par = 8
	for b := 0; b < len(cs); b += par {
		if time.Now().After(until) {
			return -1, nil
		}
		e := min(b+par, len(cs))
		res := make([]*RunOut, e-b)
		var wg sync.WaitGroup
		for i := b; i < e; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := cs[i].p.clone()
				r := &oneReq{Plan: q, Tapes: cs[i].t}
				if cs[i].t == nil {
					r.Seeds = []uint64{q.Seed}
					for k := uint64(1); k <= 5; k++ {
						r.Seeds = append(r.Seeds, simrt.Mix(c.seed, q.Index, k))
					}
				}
				res[i-b] = c.try(r)
			}(i)
		}
		wg.Wait()
		for i, o := range res {
			if o != nil && o.Class == class && o.Kind == "violation" {
				return b + i, o
			}
		}
	}
	return -1, nil
}

func countOps(p *Plan) int {
	n := 0
	for _, s := range p.Scripts {
		n += len(s)
	}
	return n
}

func choices(t *Tapes) int {
	n := 0
	if t != nil {
		for _, s := range t {
			n += len(s)
		}
	}
	return n
}

// minimise shrinks a failing plan; the result still fails with the same class.
func (c *checker) minimise(p *Plan, o *RunOut, budget time.Duration) (*Plan, *RunOut) {
	until := time.Now().Add(budget)
	accept := func(cs []cand) bool {
		i, r := c.firstOK(cs, o.Class, until)
		if i < 0 {
			return false
		}
		p = cs[i].p
		p.Seed = r.Seed
		o = r
		return true
	}
	// ddmin over a list: del(p, from, to) removes the elements
	list := func(n func(*Plan) int, del func(*Plan, int, int)) {
		k := n(p)
		for size := k; size >= 1; {
			if time.Now().After(until) {
				return
			}
			var cs []cand
			k = n(p)
			for a := 0; a < k; a += size {
				q := p.clone()
				del(q, a, min(a+size, k))
				cs = append(cs, cand{p: q})
			}
			if !accept(cs) {
				size /= 2
			} else if size > n(p) {
				size = n(p)
			}
		}
	}
	for round := 0; round < 2; round++ {
		list(func(p *Plan) int { return len(p.Scripts) }, func(p *Plan, a, b int) { p.Scripts = append(p.Scripts[:a:a], p.Scripts[b:]...) })
		list(func(p *Plan) int { return len(p.Faults) }, func(p *Plan, a, b int) { p.Faults = append(p.Faults[:a:a], p.Faults[b:]...) })
		for i := 0; i < len(p.Scripts); i++ {
			i := i
			list(func(p *Plan) int { return len(p.Scripts[i]) }, func(p *Plan, a, b int) {
				p.Scripts[i] = append(p.Scripts[i][:a:a], p.Scripts[i][b:]...)
			})
		}
		list(func(p *Plan) int { return len(p.Sched.Stalls) }, func(p *Plan, a, b int) {
			p.Sched.Stalls = append(p.Sched.Stalls[:a:a], p.Sched.Stalls[b:]...)
		})
		for _, f := range []func(*Plan){
			func(p *Plan) { p.Net = NetCfg{} },
			func(p *Plan) { p.Net.Jit, p.Net.JitPM = 0, 0 },
			func(p *Plan) { p.Net.SplitPM = 0 },
			func(p *Plan) { p.Net.ReadPM = 0 },
			func(p *Plan) { p.Net.Proc, p.Net.ProcPM = 0, 0 },
			func(p *Plan) { p.Net.Win = 0 },
			func(p *Plan) { p.Net.RWin = 0 },
			func(p *Plan) { p.Net.Lat = 0 },
			func(p *Plan) { p.Sched.Fine = false },
			func(p *Plan) { p.Sched.EarlyPM = 0 },
			func(p *Plan) { p.Sched.PoolMode, p.Sched.PoolDropPM = 0, 0 },
			func(p *Plan) { p.Sched.Policy = simrt.PolicyFIFO },
			func(p *Plan) { p.Sched.PreemptPct = 5 },
			func(p *Plan) { p.Srv.ErrPM = 0 },
			func(p *Plan) { p.Srv.BadPM = 0 },
		} {
			q := p.clone()
			f(q)
			a, _ := json.Marshal(p)
			b, _ := json.Marshal(q)
			if !bytes.Equal(a, b) {
				accept([]cand{{p: q}})
			}
		}
	}
	// the schedule: from the recorded choices, return to the default ones
	if o.Class == "crash" {
		return p, o
	}
	t := o.Tapes
	if r := c.try(&oneReq{Plan: p.clone(), Tapes: &t}); r == nil || r.Class != o.Class {
		return p, o
	}
	for s := range t {
		for size := len(t[s]); size >= 1; {
			if time.Now().After(until) {
				break
			}
			var cs []cand
			for a := 0; a < len(t[s]); a += size {
				q := t
				q[s] = append(append([]simrt.Choice{}, t[s][:a]...), t[s][min(a+size, len(t[s])):]...)
				cs = append(cs, cand{p: p, t: &q})
			}
			i, r := c.firstOK(cs, o.Class, until)
			if i < 0 {
				size /= 2
				continue
			}
			t = *cs[i].t
			o = r
			if size > len(t[s]) {
				size = len(t[s])
			}
		}
	}
	o.Tapes = t
	return p, o
}

func (c *checker) reportViolation(o *RunOut) int {
	p := genPlan(c.prop, c.seed, o.Idx, c.deep)
	fmt.Printf("violation in run %d (profile %s): %s: %s\n", o.Idx, o.Profile, o.Class, firstLine(o.Msg))
	rep := &Replay{Property: c.prop, VerifSeed: c.seed, Index: o.Idx, Race: raceEnabled, OrigOps: countOps(p), OrigFault: len(p.Faults), OrigChoi: o.Choices}
	// does it reproduce in a fresh process?
	var again *RunOut
	for i := 0; i < 3; i++ {
		again = c.try(&oneReq{Plan: p.clone(), Seeds: []uint64{p.Seed}})
		if again != nil && again.Class == o.Class {
			break
		}
		again = nil
	}
	if again == nil {
		fmt.Fprintf(os.Stderr, "ERROR: the failure does not reproduce in a fresh process: %s\n", o.Msg)
		return 2
	}
	budget := 60 * time.Second
	if c.deep {
		budget = 4 * time.Minute
	}
	mp, mo := c.minimise(p, again, budget)
	var tp *Tapes
	if mo.Class != "crash" {
		x := mo.Tapes
		tp = &x
	}
	final := func(plan *Plan, t *Tapes) *RunOut {
		r := &oneReq{Plan: plan.clone(), Tapes: t, Trace: true}
		if t == nil {
			r.Seeds = []uint64{plan.Seed}
		}
		a := c.try(r)
		r.Plan = plan.clone()
		b := c.try(r)
		if a == nil || b == nil || a.Class != o.Class || b.Class != o.Class {
			return nil
		}
		rep.Exact = a.Hash == b.Hash && stable(a.Msg) == stable(b.Msg) && strings.Join(a.Trace, "\n") == strings.Join(b.Trace, "\n")
		return a
	}
	f := final(mp, tp)
	if f == nil {
		tp = nil
		f = final(mp, nil)
	}
	if f == nil {
		mp = p
		f = final(p, nil)
	}
	if f == nil {
		f = again
	}
	rep.Plan, rep.Tapes, rep.Class, rep.Msg, rep.Hash, rep.Trace = mp, tp, f.Class, f.Msg, f.Hash, f.Trace
	rep.Ops, rep.Faults, rep.Choices = countOps(mp), len(mp.Faults), choices(tp)
	_ = os.MkdirAll(c.replays, 0o755)
	name := filepath.Join(c.replays, fmt.Sprintf("%s-%s-%d.json", c.prop, f.Class, o.Idx))
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(name, b, 0o644); err != nil {
		c.die(err.Error())
	}
	tr := f.Trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	for _, l := range tr {
		fmt.Println("  " + trunc(l, 300))
	}
	fmt.Printf("%s: %s\n", f.Class, f.Msg)
	fmt.Printf("minimised: %d -> %d script steps, %d -> %d faults, %d -> %d scheduling and network decisions; replays exactly: %v\n", rep.OrigOps, rep.Ops, rep.OrigFault, rep.Faults, rep.OrigChoi, rep.Choices, rep.Exact)
	fmt.Printf("replay: ./check replay %s\n", name)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, name)
	return 1
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]+\??|goroutine \d+`)

// stable removes addresses from a message (they differ from process to process).
func stable(s string) string { return addrRE.ReplaceAllString(s, "") }

// ---- evidence ----

func (c *checker) evidence(file string) {
	if file == "" {
		return
	}
	wall := time.Since(c.start).Seconds()
	t := &c.t
	real := []string{"memcache (client, pipelines, command builders, parser, send buffer, sender and receiver goroutines, reconnection, health check)", "memcache/netconn (options, password authentication)", "memcache/stats"}
	stub := []string{"net.Conn and dialing (simulated TCP: latency, fragmentation, windows, deadlines, resets, FIN, black holes, stalls)", "memcached server (meta protocol model)", "time, timers, tickers (simulated clock)", "sync, sync/atomic, channels, select, go statements (simulated scheduler, instrumented copy of the same source)", "sync.Pool (seeded model: reuse order and drops)"}
	cov := map[string]any{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.hashes),
		"rule":                "one evaluation is one simulated execution generated from (property, VERIF_SEED, run index): configuration, scripts, network, faults and every scheduling decision. Non-trivial: at least one command reached the simulated server and at least one scheduling or network decision differed from the default or a fault fired; distinct by the hash of the sequence of goroutine switches (goroutine, step) and network transfers (connection, direction, bytes).",
		"samples":             t.samples,
		"profiles":            t.profiles,
		"runs_per_hour":       int64(float64(t.runs) / wall * 3600),
		"seeds_per_hour":      int64(float64(t.runs) / wall * 3600),
		"simulated_seconds":   float64(t.simNS) / 1e9,
		"faults_fired":        t.fired,
		"probes":              t.probes,
		"calls":               t.calls,
		"calls_answered":      t.replies,
		"calls_failed":        t.errs,
		"commands_on_wire":    t.wire,
		"connections":         t.conns,
		"scheduling_points":   t.steps,
		"goroutine_switches":  t.switches,
		"non_default_choices": t.choices,
		"events":              t.events,
		"early_events":        t.early,
		"goroutine_stalls":    t.stalls,
		"truncated_by_time":   c.truncated,
		"real_components":     real,
		"stub_components":     stub,
		"race_detector":       raceEnabled,
	}
	if t.linOps > 0 {
		cov["linearizability_operations"] = t.linOps
	}
	if raceEnabled {
		cov["race_reports_not_recurring"] = t.unconfirmed
	}
	if t.inconclusiveRuns > 0 {
		cov["inconclusive"] = t.inconclusive
	}
	e := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the instrumented copy behaves like the original source (only synchronisation, time, randomness and goroutine creation are redirected)",
			"memory is sequentially consistent between scheduling points (the race check C17 covers unsynchronised access)",
			"the simulated TCP and memcached behave within what the real ones may do",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		},
		"wall_s": wall, "violations": len(c.viol),
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		c.die(err.Error())
	}
	_ = os.MkdirAll(filepath.Dir(file), 0o755)
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		c.die(err.Error())
	}
}

// cmdDeterminism runs the same plans in two processes with different strides and compares them.
func cmdDeterminism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	n := fs.Uint64("n", 40, "runs per property")
	seed := fs.Uint64("seed", 1, "")
	only := fs.String("prop", "", "")
	_ = fs.Parse(args)
	var props []string
	for p := range profilesOf {
		if *only == "" || p == *only {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	c := &checker{raceDir: os.TempDir()}
	bad := 0
	for _, p := range props {
		run := func(stride int) map[uint64]uint64 {
			res := map[uint64]uint64{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for k := 0; k < stride; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					for off := uint64(k); off < *n; {
						cmd := exec.Command(os.Args[0], "worker", "-hash", "-prop", p, "-seed", strconv.FormatUint(*seed, 10), "-off", strconv.FormatUint(off, 10), "-stride", strconv.Itoa(stride), "-n", strconv.FormatUint(*n, 10))
						cmd.Env = c.env()
						out, _ := cmd.Output()
						last := off
						for _, l := range strings.Split(string(out), "\n") {
							if strings.HasPrefix(l, "D ") {
								var o RunOut
								if json.Unmarshal([]byte(l[2:]), &o) == nil {
									mu.Lock()
									res[o.Idx] = simrt.Mix(o.Hash, strHash(o.Class+o.Msg), o.Steps, uint64(o.Now))
									mu.Unlock()
									last = o.Idx + uint64(stride)
								}
							}
						}
						if last == off {
							last = off + uint64(stride)
						}
						off = last
					}
				}(k)
			}
			wg.Wait()
			return res
		}
		a, b := run(8), run(3)
		diff := 0
		for i := uint64(0); i < *n; i++ {
			x, ok1 := a[i]
			y, ok2 := b[i]
			if !ok1 || !ok2 || x != y {
				diff++
				if diff <= 5 {
					fmt.Printf("%s run %d differs (%v %v)\n", p, i, ok1, ok2)
				}
			}
		}
		fmt.Printf("%s: %d runs twice, %d differ\n", p, *n, diff)
		bad += diff
	}
	if bad > 0 {
		os.Exit(1)
	}
}
