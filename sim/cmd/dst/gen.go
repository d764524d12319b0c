package main

import (
	"verifsim/simrt"
)

// Generation of plans: everything is a function of (property, VERIF_SEED, index).

type gen struct {
	r    simrt.RNG
	p    *Plan
	id   int
	keys int
	pref string
	all  []int // ids of all operations
	deep bool
}

func (g *gen) n(k int) int          { return g.r.Intn(k) }
func (g *gen) pm(k int) bool        { return g.r.Intn(1000) < k }
func (g *gen) in(a, b int) int      { return a + g.r.Intn(b-a+1) }
func (g *gen) i(a ...int) int       { return a[g.r.Intn(len(a))] }
func (g *gen) d(a ...int64) int64   { return a[g.r.Intn(len(a))] }
func (g *gen) s(a ...string) string { return a[g.r.Intn(len(a))] }
func (g *gen) dur(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(g.r.U64()%uint64(hi-lo))
}

type wprof struct {
	w    int
	name string
}

var profilesOf = map[string][]wprof{
	"C01": {{30, "clean"}, {22, "faulty"}, {10, "errs"}, {8, "victim"}, {8, "big"}, {5, "close"}, {12, "extra"}, {5, "hold"}, {2, "churn"}},
	"C02": {{40, "clean"}, {30, "faulty"}, {15, "keys"}, {8, "close"}, {7, "big"}},
	"C03": {{45, "faulty"}, {20, "close"}, {20, "outage"}, {10, "clean"}, {5, "extra"}, {2, "churn"}},
	"C04": {{60, "clean"}, {20, "faulty"}, {10, "big"}, {10, "outage"}},
	"C05": {{100, "lin"}},
	"C06": {{25, "faulty"}, {25, "bigfail"}, {25, "outage"}, {15, "close"}, {10, "authhang"}, {3, "churn"}},
	"C07": {{75, "recover"}, {15, "outage"}, {10, "bigrecover"}, {4, "churn"}},
	"C08": {{98, "close"}, {2, "churn"}},
	"C09": {{40, "errs"}, {25, "victim"}, {25, "extra"}, {10, "errsrecover"}},
	"C10": {{70, "limit"}, {30, "limitfail"}},
	"C11": {{100, "starve"}},
	"C12": {{70, "hold"}, {15, "faulty"}, {15, "errs"}},
	"C13": {{100, "idle"}},
	"C14": {{85, "bytes"}, {15, "sbytes"}},
	"C15": {{100, "stats"}},
	"C16": {{98, "auth"}, {2, "churn"}},
	"C17": {{20, "clean"}, {20, "faulty"}, {15, "close"}, {15, "hold"}, {10, "errs"}, {10, "outage"}, {5, "idle"}, {5, "big"}, {5, "auth"}, {10, "recover"}, {5, "bigfail"}},
	"C18": {{95, "dials"}, {5, "churn"}},
	"C20": {{20, "faulty"}, {15, "outage"}, {20, "dials"}, {10, "victim"}, {10, "auth"}, {10, "recover"}, {15, "stats"}, {2, "churn"}},
	"C19": {{60, "rr"}, {40, "victim"}},
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func genPlan(prop string, seed, idx uint64, deep bool) *Plan {
	s := simrt.Mix(seed, strHash(prop), idx)
	g := &gen{r: simrt.NewRNG(s), p: &Plan{Prop: prop, Index: idx, Seed: simrt.Mix(s, 1), P: map[string]int64{}}, deep: deep}
	l := profilesOf[prop]
	t := 0
	for _, x := range l {
		t += x.w
	}
	k := g.n(t)
	for _, x := range l {
		if k < x.w {
			g.p.Profile = x.name
			break
		}
		k -= x.w
	}
	g.build()
	g.finalize()
	return g.p
}

func (g *gen) baseCfg() {
	c := &g.p.Cfg
	c.Conns = g.i(1, 1, 1, 2, 2, 3, 4)
	if g.pm(10) {
		c.Conns = g.i(5, 8, 9, 16, 17, 33)
	}
	c.Buf = g.i(0, 0, 0, 1, 7, 16, 20, 32, 64, 100, 256, 1024, 4096)
	c.MB = g.i(0, 0, 1, 2, 3, 5, 10, 100)
	c.WL = g.i(0, 0, 1, 2, 3, 5, 10, 50, 1000)
	c.Retry = g.d(0, 100*ms, sec, 5*sec)
	c.Health = g.d(0, 1*sec, 3*sec, 60*sec, 24*3600*sec, 24*3600*sec)
	c.RTO = g.d(0, 0, sec, 2*sec, 3*sec)
	c.WTO = g.d(0, 0, sec, 2*sec)
	c.ConnCfg = g.pm(200)
	c.KeepAl = g.d(0, 0, 5*sec)
	g.baseNet()
	g.p.Srv = SrvCfg{Mode: "kv"}
	if g.pm(350) {
		g.p.Srv = SrvCfg{Mode: "rnd", RepMax: g.i(10, 100, 200, 600, 3000)}
	}
	g.p.Srv.Persist = g.pm(500)
	g.pref = g.s("k", "key:", "a/b-c_", "~!@$%^&*()", "user.12345678901234567890.")
	g.keys = g.i(1, 2, 3, 5, 20)
	g.id = 1
}

func (g *gen) baseNet() {
	n := &g.p.Net
	n.Lat = g.d(0, 10*us, 100*us, ms, 5*ms, 20*ms)
	n.Jit = g.d(0, n.Lat/2, 2*n.Lat, 10*us)
	n.JitPM = g.i(0, 100, 500)
	n.SplitPM = g.i(0, 0, 200, 700, 1000)
	n.SplitSz = g.i(1, 2, 5, 20, 100)
	n.ReadPM = g.i(0, 0, 200, 700)
	n.Win = g.i(0, 0, 0, 64, 200, 1000, 8192)
	n.RWin = g.i(0, 0, 0, 100, 2000)
	n.Proc = g.d(0, 0, 0, 100*us, 2*ms)
	n.ProcPM = g.i(200, 800)
	n.DialLat = g.d(0, ms, 50*ms)
	n.Refuse = g.i(0, 0, 1, 2, 3, 4)
	n.CloseEr = g.i(0, 0, 0, 1, 2)
}

// sched chooses the scheduling policy. timed: simulated time must not be distorted.
func (g *gen) sched(timed bool) {
	s := &g.p.Sched
	s.MaxSteps = 4_000_000
	s.Tick = g.d(50, 200, 1000)
	s.Policy = g.i(1, 1, 1, 2, 2, 3, 3, 0)
	s.PreemptPct = g.i(5, 30, 100, 300, 700)
	s.PCTDepth = g.in(1, 8)
	s.PCTLen = g.i(200, 1000, 4000, 15000)
	s.Victim = g.n(8)
	if g.pm(300) {
		s.Fine = true
		s.FinePM = g.i(20, 100, 500)
	}
	s.PoolMode = g.n(3)
	s.PoolDropPM = g.i(0, 0, 100, 500)
	if timed {
		s.Tick = g.d(20, 50)
		return
	}
	if g.pm(500) {
		s.EarlyWindow = g.d(20*us, ms, 30*ms, 300*ms, 2*sec)
		s.EarlyPM = g.i(5, 30, 150)
	}
	if g.pm(150) {
		k := g.in(1, 3)
		at := 0
		for i := 0; i < k; i++ {
			at += g.n(g.i(100, 1000, 5000))
			s.Stalls = append(s.Stalls, simrt.Stall{At: uint32(at), Dur: g.d(ms, 100*ms, 1500*ms, 5*sec)})
		}
	} else if g.pm(120) {
		g.pointStalls()
	}
}

// pointStalls: stalls at the places where they matter most.
func (g *gen) pointStalls() {
	for k := g.in(1, 4); k > 0; k-- {
		x := simrt.Stall{K: g.i(simrt.PointWait, simrt.PointWait, simrt.PointLoaded, simrt.PointLoaded, simrt.PointLocked), At: uint32(g.n(g.i(5, 20, 100, 500))), Dur: g.d(100*us, ms, 100*ms, 1500*ms, 5*sec)}
		if x.K != simrt.PointWait {
			x.At = uint32(g.n(g.i(20, 100, 500, 2000)))
		}
		g.p.Sched.Stalls = append(g.p.Sched.Stalls, x)
	}
}

type wl struct {
	scripts int
	blocks  int // per script
	maxOps  int // per pipeline
	kinds   []string
	maxVal  int
	long    bool
	tx      bool
	hold    bool
	sleep   int64
	badKeys int // per mille
	big     int // per mille: a value of more than a megabyte
	noCF    bool
	noN     bool
	execPM  int
}

func (g *gen) key(id int) string {
	k := g.n(g.keys)
	s := simrt.Sprintf("%s%d", g.pref, k)
	if g.pm(20) { // the longest possible key
		suf := simrt.Sprintf("#%d", id)
		for len(s)+len(suf) < 250 {
			s += "x"
		}
		return s[:250-len(suf)] + suf
	}
	return simrt.Sprintf("%s#%d", s, id)
}

func (g *gen) badKey(id int) string {
	good := simrt.Sprintf("%s%d#%d", g.pref, g.n(3), id)
	at := g.n(len(good) + 1)
	ins := func(s string) string { return good[:at] + s + good[at:] }
	switch g.n(9) {
	case 0:
		return ""
	case 1:
		for len(good) < 251 {
			good = "y" + good
		}
		return good
	case 2:
		for len(good) < 251+g.n(1000) {
			good = "y" + good
		}
		return good
	case 3:
		return ins(" ")
	case 4:
		return ins(string(rune(g.n(32))))
	case 5:
		return ins("\r\nflush_all\r\n")
	case 6:
		return ins("\x7f")
	case 7:
		return ins(g.s("é", "日本", "\u0085", "\u00a0", "\u2028", "\xff", "\xc3"))
	default:
		return ins(g.s("\t", "\n", "\r", "\x00", "\v", "\f"))
	}
}

func (g *gen) valLen(o *wl) int {
	if o.big > 0 && g.pm(o.big) {
		if g.pm(200) {
			return 1<<g.in(17, 21) + g.in(-3, 1)
		}
		return (1 << 20) + g.in(-3, 3) - g.i(0, 2)
	}
	m := o.maxVal
	v := 0
	switch g.n(6) {
	case 0:
		v = 0
	case 1:
		v = g.i(1, 2, 61, 62, 63, 64, 65, 126, 127, 128, 254, 256, 510, 511, 512, 1022, 1024, 2046, 4094)
		if m > 8000 {
			v = 1<<g.in(12, 16) + g.in(-3, 3)
		}
	case 2:
		v = g.n(10)
	case 3:
		v = g.n(m + 1)
	default:
		v = g.n(60)
	}
	if v > m {
		v = m
	}
	return v
}

func (g *gen) op(o *wl, pipe int) Op {
	k := o.kinds[g.n(len(o.kinds))]
	id := g.id
	g.id++
	x := Op{K: k, ID: id, P: pipe}
	if k == "ver" || k == "fa" {
		return x
	}
	x.Key = g.key(id)
	if o.badKeys > 0 && g.pm(o.badKeys) {
		x.Key = g.badKey(id)
	}
	cas := func() {
		switch g.n(8) {
		case 0:
			x.C = g.r.U64()
		case 1:
			x.C = uint64(g.in(100, 130))
		case 2:
			x.C = uint64(g.i(1, 9, 10, 99, 100))
		case 3, 4:
			if len(g.all) > 0 && !o.noCF {
				x.CF = g.all[len(g.all)-1-g.n(min(len(g.all), 12))]
			}
		}
	}
	ttl := func() {
		if g.pm(300) {
			x.T = uint32(g.i(1, 5, 60, 100, 86400, 1<<31-1, 1<<32-1))
		}
	}
	switch k {
	case "get", "fget":
		x.B = g.pm(500)
		if g.pm(200) && !o.noN {
			x.N = uint32(g.i(1, 3, 10, 30, 1<<32-1))
		}
	case "set":
		x.L = g.valLen(o)
		x.VK = g.n(3)
		cas()
		ttl()
	case "del":
		cas()
		x.I = g.pm(400)
		ttl()
	}
	g.all = append(g.all, id)
	return x
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// script generates one script.
func (g *gen) script(si int, o *wl) []Op {
	var l []Op
	add := func(x Op) { l = append(l, x) }
	var held []int
	slots := 1
	if g.pm(300) {
		slots = 2
	}
	nb := g.in(1, o.blocks)
	for b := 0; b < nb; b++ {
		pipe := g.n(slots)
		if !o.long || g.pm(500) {
			add(Op{K: "np", P: pipe})
		}
		k := g.in(1, o.maxOps)
		if g.pm(400) {
			k = g.in(1, min(3, o.maxOps))
		}
		var ids []int
		style := g.n(8)
		for j := 0; j < k; j++ {
			p := pipe
			if slots == 2 && g.pm(150) {
				p = 1 - pipe
			}
			x := g.op(o, p)
			add(x)
			ids = append(ids, x.ID)
			if x.K == "set" && g.pm(150) {
				add(Op{K: "mut", R: x.ID})
			}
			if style == 7 && g.pm(200) { // flush points in between
				switch g.n(3) {
				case 0:
					add(Op{K: "exec", P: p})
				case 1:
					add(Op{K: "fin", P: p})
				case 2:
					add(Op{K: "res", R: ids[g.n(len(ids))]})
				}
			}
		}
		if o.sleep > 0 && g.pm(150) {
			add(Op{K: "sleep", D: g.dur(0, o.sleep)})
		}
		switch style {
		case 0:
			add(Op{K: "fin", P: pipe})
		case 1, 2:
			add(Op{K: "exec", P: pipe})
			if o.tx && g.pm(500) {
				add(Op{K: "tx", P: pipe, D: 3 * sec})
			} else if o.sleep > 0 && g.pm(500) {
				add(Op{K: "sleep", D: g.dur(0, o.sleep)})
			}
			if g.pm(300) {
				add(Op{K: "fin", P: pipe})
			}
		}
		// results
		order := append([]int(nil), ids...)
		if g.pm(500) {
			for i := len(order) - 1; i > 0; i-- {
				j := g.n(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		}
		skip := 0
		if g.pm(200) {
			skip = 300
		}
		for _, id := range order {
			if skip > 0 && g.pm(skip) {
				continue
			}
			add(Op{K: "res", R: id})
			if g.pm(60) {
				add(Op{K: "again", R: id})
			}
			held = append(held, id)
			if o.hold {
				switch g.n(8) {
				case 0:
					add(Op{K: "scrib", R: id})
				case 1, 2:
					add(Op{K: "rel", R: id})
				case 3:
					add(Op{K: "app", R: id, L: g.i(1, 8, 100)})
				case 4:
					add(Op{K: "chk"})
				case 5:
					h := held[g.n(len(held))]
					add(Op{K: g.s("rel", "rel", "scrib"), R: h})
				}
				if g.pm(300) {
					add(Op{K: "relf", R: id})
				}
				if g.pm(60) {
					x := Op{K: "relx", L: g.i(1, 63, 64, 65, 100, 127, 128, 129, 200, 256, 500, 1000, 1500, 4096, 5000)}
					switch {
					case g.pm(5):
						x.L = g.i(1<<20-1, 1<<20, 1<<20+1, 1<<21-1, 1<<21, 1<<21+1, 1<<22)
					case g.pm(100):
						x.L = 1<<g.in(0, 19) + g.in(-1, 1)
					}
					add(x)
				}
			} else if g.pm(200) {
				add(Op{K: "rel", R: id})
			}
		}
		if g.pm(150) {
			add(Op{K: "fin", P: pipe})
		}
		if g.pm(50) {
			add(Op{K: "chk"})
		}
	}
	if g.pm(500) {
		for p := 0; p < slots; p++ {
			add(Op{K: "fin", P: p})
		}
	}
	return l
}

var kvKinds = []string{"get", "get", "fget", "fget", "set", "set", "set", "del"}
var allKinds = []string{"get", "get", "fget", "fget", "set", "set", "set", "del", "ver", "fa"}

func (g *gen) workload(o *wl) {
	for i := 0; i < o.scripts; i++ {
		g.p.Scripts = append(g.p.Scripts, g.script(i, o))
	}
}

func (g *gen) stdWL() *wl {
	o := &wl{scripts: g.in(1, 5), blocks: g.i(1, 2, 3, 6), maxOps: g.i(1, 3, 6, 12, 30), kinds: kvKinds, maxVal: g.i(10, 60, 200, 1100, 5000), long: g.pm(500)}
	if g.pm(300) {
		o.kinds = allKinds
	}
	if g.pm(300) {
		o.sleep = g.d(ms, 50*ms, sec)
	}
	if g.pm(20) {
		o.big = 30
	}
	if g.pm(15) { // many callers at once
		o.scripts, o.blocks, o.maxOps = g.i(10, 20, 40, 70), g.i(1, 1, 2), g.i(1, 2, 6)
	}
	if g.pm(6) { // long pipelines and batches
		o.scripts, o.blocks, o.maxOps, o.maxVal = g.in(1, 3), g.in(1, 2), g.i(200, 600, 1400), g.i(10, 60)
		g.p.Cfg.MB = g.i(0, 300, 600, 1000)
		if g.pm(500) {
			o.kinds = []string{"get", "get", "get", "get", "get", "set", "fget"}
		}
	}
	if g.deep && g.pm(300) {
		o.scripts += g.n(6)
		o.blocks += g.n(6)
	}
	return o
}

func (g *gen) nOps() int {
	n := 0
	for _, s := range g.p.Scripts {
		for _, o := range s {
			switch o.K {
			case "get", "fget", "set", "del", "ver", "fa", "sgen", "sslab", "sitem", "sdump":
				n++
			}
		}
	}
	return n
}

var connDos = []string{"reset", "reset", "fin", "blackhole", "cut", "cut", "lost", "finafter", "rstafter", "stall"}

func (g *gen) stallDur() int64 {
	rto := g.p.Cfg.rto()
	return g.d(10*ms, rto/2, rto+rto/2, 3*rto, 10*sec)
}

// fault makes one fault of a kind that breaks connections.
func (g *gen) fault(total int, kinds string) Fault {
	conn := -1
	if g.pm(300) {
		conn = g.n(g.p.Cfg.Conns + 1)
	}
	switch g.n(12) {
	case 0:
		return Fault{On: "write", Conn: conn, N: int64(1 + g.n(6+total/4)), Do: g.s("werr", "werr", "reset", "fin", "blackhole"), Arg: int64(g.i(0, 1, 2, 5, 10, 50, 300))}
	case 1:
		return Fault{On: "read", Conn: conn, N: int64(1 + g.n(4+total/3)), Do: g.s("rerr", "reset", "fin")}
	case 2:
		if g.pm(300) {
			return Fault{On: "deadline", Conn: conn, N: int64(1 + g.n(10))}
		}
		return Fault{On: "time", Conn: -1, N: g.dur(0, g.d(ms, 20*ms, sec)), Do: g.s("reset", "fin", "blackhole"), Arg: int64(g.n(8))}
	case 3:
		return Fault{On: "time", N: g.dur(0, g.d(ms, 20*ms, sec)), Do: g.s("crash", "resetall", "blackholeall", "stallall"), Dur: g.d(0, ms, sec, 10*sec), Arg: int64(g.n(4))}
	case 4:
		return Fault{On: "gcmd", Conn: -1, N: int64(1 + g.n(total+1)), Do: g.s("crash", "stallall"), Dur: g.d(0, ms, sec, 4*sec), Arg: int64(g.n(4))}
	case 5:
		return Fault{On: "dial", N: int64(1 + g.n(g.p.Cfg.Conns+3)), Do: g.s("refuse", "refuse", "hang", "slow"), Dur: g.d(ms, sec, 3*sec)}
	case 6:
		return Fault{On: "conn", Conn: g.n(g.p.Cfg.Conns + 2), N: g.dur(0, g.d(ms, 20*ms, 3*sec)), Do: g.s("reset", "fin", "blackhole", "stall"), Arg: int64(g.n(2)), Dur: g.stallDur()}
	}
	do := connDos[g.n(len(connDos))]
	f := Fault{On: g.s("gcmd", "gcmd", "cmd"), Conn: conn, N: int64(1 + g.n(total+1)), Do: do, Arg: int64(g.n(1000)), Dur: int64(g.n(3))}
	if do == "stall" {
		f.Dur = g.stallDur()
	}
	return f
}

func (g *gen) faults(k int) {
	t := g.nOps()
	for i := 0; i < k; i++ {
		g.p.Faults = append(g.p.Faults, g.fault(t, ""))
	}
}

func (g *gen) healthOff() {
	g.p.Cfg.Health = 24 * 3600 * sec
	g.p.P["noprobes"] = 1
}

func (g *gen) build() {
	p := g.p
	g.baseCfg()
	switch p.Profile {
	case "clean":
		g.sched(p.Prop == "C06" || g.pm(500))
		o := g.stdWL()
		o.tx = p.Prop == "C04"
		o.hold = p.Prop == "C17"
		g.workload(o)
		if g.pm(400) {
			g.healthOff()
		}
	case "keys":
		g.sched(false)
		o := g.stdWL()
		o.badKeys = g.i(100, 400, 800)
		g.workload(o)
		if g.pm(300) {
			g.faults(1)
		}
	case "faulty":
		g.sched(p.Prop == "C06")
		g.workload(g.stdWL())
		g.faults(g.i(1, 1, 2, 3, 5))
		if p.Prop == "C06" {
			p.Cfg.RTO = g.d(0, 200*ms, sec, 3*sec)
			p.Cfg.WTO = g.d(0, 200*ms, sec)
		}
		if g.pm(300) {
			p.Srv.ErrPM = g.i(20, 200)
		}
	case "hold":
		g.sched(false)
		o := g.stdWL()
		o.hold = true
		o.scripts = g.in(1, 4)
		o.maxVal = g.i(60, 200, 1100)
		if g.pm(20) {
			o.maxVal = 70_000
		}
		if g.pm(8) {
			o.big = 60
		}
		g.keys = g.i(1, 2, 3)
		p.Sched.PoolDropPM = 0
		g.workload(o)
		if g.pm(400) {
			g.faults(g.i(1, 2))
		}
		if g.pm(300) {
			p.Srv.ErrPM = g.i(20, 200)
		}
	case "errs", "errsrecover":
		g.sched(p.Profile == "errsrecover" || g.pm(500))
		g.workload(g.stdWL())
		p.Srv.ErrPM = g.i(0, 30, 200, 700, 1000)
		k := g.n(4)
		t := g.nOps()
		if p.Profile == "errsrecover" {
			k = g.in(1, 3)
			p.P["recover"] = 1
			p.Srv.ErrPM = 0
		}
		for i := 0; i < k; i++ {
			p.Faults = append(p.Faults, Fault{On: "gcmd", Conn: -1, N: int64(1 + g.n(t+1)), Do: g.s("clierr", "bad", "srverr"), Arg: int64(g.n(1000))})
		}
	case "extra":
		g.sched(p.Prop == "C09" && g.pm(500))
		o := g.stdWL()
		o.long = g.pm(300)
		g.workload(o)
		k := g.in(1, 4)
		t := g.nOps()
		for i := 0; i < k; i++ {
			p.Faults = append(p.Faults, Fault{On: "gcmd", Conn: -1, N: int64(1 + g.n(t+1)), Do: g.s("extra", "extra", "extra", "cut", "bad"), Arg: int64(g.n(1000)), Dur: int64(g.n(2))})
		}
		if p.Prop == "C09" && g.pm(500) && len(p.Sched.Stalls) == 0 && p.Sched.EarlyPM == 0 {
			p.P["recover"] = 1
		}
	case "victim":
		g.sched(g.pm(500))
		p.Cfg.Conns = g.in(2, 4)
		v := g.n(p.Cfg.Conns)
		p.P["victim"] = int64(v) + 1
		o := g.stdWL()
		o.scripts = g.in(2, 6)
		o.blocks = g.in(2, 8)
		o.long = g.pm(700)
		g.workload(o)
		t := g.nOps()/p.Cfg.Conns + 1
		k := g.in(1, 3)
		for i := 0; i < k; i++ {
			f := g.fault(t, "")
			switch f.On {
			case "time", "dial":
				f = Fault{On: "conn", N: g.dur(0, g.d(ms, 20*ms, 3*sec)), Do: g.s("reset", "fin", "blackhole")}
			case "gcmd":
				f.On = "cmd"
			}
			if f.Do == "crash" || f.Do == "stallall" {
				f.Do = "reset"
			}
			f.Conn = v
			p.Faults = append(p.Faults, f)
		}
		if g.pm(300) {
			p.Faults = append(p.Faults, Fault{On: "dial", N: int64(p.Cfg.Conns + 1), Do: g.s("refuse", "hang", "slow"), Dur: 3 * sec})
		}
	case "big", "bigfail", "bigrecover":
		g.bigPlan()
	case "limit", "limitfail":
		g.limitPlan()
	case "starve":
		g.starvePlan()
	case "close":
		g.closePlan()
	case "outage":
		g.outagePlan()
	case "recover":
		g.recoverPlan()
	case "dials":
		g.dialsPlan()
	case "churn":
		g.churnPlan()
	case "authhang", "auth":
		g.authPlan()
	case "idle":
		g.idlePlan()
	case "bytes":
		g.bytesPlan()
	case "stats", "sbytes":
		g.statsPlan()
	case "lin":
		g.linPlan()
	case "rr":
		g.rrPlan()
	default:
		panic("unknown profile " + p.Profile)
	}
}

func small(o *wl) *wl { o.maxVal = 40; return o }

// bigPlan: much more in flight than any internal buffer holds.
func (g *gen) bigPlan() {
	p := g.p
	if g.pm(6) {
		g.massPlan()
		return
	}
	g.sched(p.Prop == "C06" || p.Profile == "bigrecover" || g.pm(500))
	p.Sched.Fine = false
	p.Cfg.Conns = g.i(1, 1, 2)
	p.Cfg.WL = g.i(0, 10, 600, 1000, 2000)
	p.Cfg.MB = g.i(0, 1, 1, 2, 10)
	p.Cfg.Health = 24 * 3600 * sec
	p.Net.SplitPM = 0
	p.Net.ReadPM = g.i(0, 0, 200)
	p.Net.RWin = 0
	ns := g.in(1, 3)
	total := 0
	for i := 0; i < ns; i++ {
		var l []Op
		for b := g.in(1, 2); b > 0; b-- {
			k := g.i(50, 150, 300, 500, 900)
			if total+k > 1300 {
				k = 50
			}
			total += k
			l = append(l, Op{K: "np"})
			var ids []int
			for j := 0; j < k; j++ {
				x := g.op(&wl{kinds: []string{"get", "fget", "set", "del"}, maxVal: 20}, 0)
				x.CF = 0
				l = append(l, x)
				ids = append(ids, x.ID)
			}
			if g.pm(300) {
				l = append(l, Op{K: "exec"})
			}
			if g.pm(300) {
				l = append(l, Op{K: "fin"})
			}
			for _, id := range ids {
				l = append(l, Op{K: "res", R: id})
				if g.pm(100) {
					l = append(l, Op{K: "rel", R: id})
				}
			}
		}
		p.Scripts = append(p.Scripts, l)
	}
	if p.Profile != "big" || g.pm(500) {
		k := g.in(1, 2)
		for i := 0; i < k; i++ {
			f := g.fault(total, "")
			switch g.n(4) {
			case 0: // the server stops answering while everything is in flight
				f = Fault{On: g.s("gcmd", "cmd"), Conn: -1, N: int64(1 + g.n(total/2)), Do: g.s("blackhole", "stall", "stallall", "reset", "fin"), Dur: 20 * sec}
			case 1:
				f = Fault{On: "conn", Conn: 0, N: g.dur(0, 20*ms), Do: g.s("blackhole", "reset", "stall"), Dur: 20 * sec}
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if p.Profile == "bigrecover" {
		p.P["recover"] = 1
	}
}

// massPlan: a long history, beyond the range of small counters.
func (g *gen) massPlan() {
	p := g.p
	g.sched(true)
	p.Sched.Fine = false
	p.Sched.MaxSteps = 40_000_000
	p.Cfg.Conns = g.i(1, 1, 1, 2)
	p.Cfg.Health = 24 * 3600 * sec
	p.Cfg.Buf = 0
	p.Srv = SrvCfg{Mode: "kv"}
	p.Net = NetCfg{Lat: 10 * us}
	n, l := 700, 100
	switch g.n(6) {
	case 0:
		n, l = 66500, 1
	case 1:
		n, l = 33500, 2
	case 2:
		n, l = g.in(200, 800), g.i(1, 2, 3)
	case 3, 4: // huge pipelines
		n, l = g.in(1, 3), g.i(2500, 4500, 9000, 17000)
	}
	ns := g.i(1, 2, 3, 8)
	for i := 0; i < ns; i++ {
		k := n/ns + 1
		p.Scripts = append(p.Scripts, []Op{{K: "mass", ID: 1_000_000 * (i + 1), N: uint32(k), L: l, Key: simrt.Sprintf("m%d", i)}})
		if l > 1 && g.pm(300) {
			l--
		}
	}
	p.P["mass"] = int64(n * l)
}

// limitPlan: the write limit under pressure.
func (g *gen) limitPlan() {
	p := g.p
	if g.pm(1) {
		g.massPlan()
		p.Cfg.WL = g.i(1, 2, 5, 50)
		p.Cfg.MB = g.in(1, p.Cfg.WL)
		return
	}
	g.sched(g.pm(500))
	p.Cfg.WL = g.i(1, 2, 3, 4, 5, 7, 10, 20, 50)
	p.Cfg.MB = g.in(1, p.Cfg.WL)
	if g.pm(100) {
		p.Cfg.MB = p.Cfg.WL + g.in(1, 5)
	}
	p.Cfg.Conns = g.i(1, 1, 1, 2, 3)
	p.Net.Proc = g.d(0, 100*us, 2*ms)
	o := &wl{scripts: g.in(1, 6), blocks: g.in(1, 5), maxOps: g.i(1, 4, 12, 40), kinds: kvKinds, maxVal: g.i(10, 100), long: g.pm(500)}
	g.workload(o)
	if p.Profile == "limitfail" {
		g.faults(g.i(1, 2, 3))
	}
}

func (g *gen) starvePlan() {
	p := g.p
	g.sched(true)
	p.Sched.Fine = g.pm(100)
	p.Cfg.Conns = g.i(1, 1, 1, 2)
	p.Cfg.Health = 24 * 3600 * sec
	p.Cfg.WL = g.i(1, 2, 3, 5, 8, 15, 30)
	p.Cfg.MB = g.in(1, p.Cfg.WL)
	p.Net.SplitPM = 0
	p.Net.ReadPM = g.i(0, 0, 200)
	p.Net.Proc = g.d(0, 20*us, 200*us)
	big := g.i(150, 300, 600, 1000)
	if g.pm(120) { // batches larger than the limit
		p.Cfg.WL = g.in(1, 3)
		p.Cfg.MB = p.Cfg.WL + g.in(1, 2)
		big = 1500
	}
	nb := g.in(1, 2)
	if g.pm(60) { // many big ones
		nb, big = g.i(4, 10, 18, 24, 35), 1800
		p.Cfg.WL = g.i(1, 2, 4, 10)
		p.Cfg.MB = g.in(1, min(p.Cfg.WL, 3))
	}
	for i := 0; i < nb; i++ {
		var l []Op
		l = append(l, Op{K: "np"})
		var ids []int
		for j := 0; j < big/nb; j++ {
			x := g.op(&wl{kinds: []string{"get", "set"}, maxVal: 10}, 0)
			x.C, x.CF = 0, 0
			l = append(l, x)
			ids = append(ids, x.ID)
		}
		if g.pm(500) {
			l = append(l, Op{K: "exec"})
		}
		for _, id := range ids {
			l = append(l, Op{K: "res", R: id})
		}
		p.Scripts = append(p.Scripts, l)
	}
	p.P["small"] = 6
	for i := g.in(1, 4); i > 0; i-- {
		var l []Op
		for b := g.in(1, 4); b > 0; b-- {
			l = append(l, Op{K: "sleep", D: g.dur(0, g.d(100*us, ms, 20*ms))})
			if g.pm(700) {
				l = append(l, Op{K: "np"})
			}
			var ids []int
			for j := g.in(1, 6); j > 0; j-- {
				x := g.op(&wl{kinds: []string{"get", "set", "del"}, maxVal: 10}, 0)
				x.CF = 0
				l = append(l, x)
				ids = append(ids, x.ID)
			}
			if g.pm(300) {
				l = append(l, Op{K: "exec"})
			}
			for _, id := range ids {
				l = append(l, Op{K: "res", R: id})
			}
		}
		p.Scripts = append(p.Scripts, l)
	}
}

func (g *gen) closePlan() {
	p := g.p
	g.sched(g.pm(700) || p.Prop == "C06")
	p.P["close_early"] = 1
	p.P["after"] = int64(g.i(0, 1, 2, 5, 12))
	o := g.stdWL()
	if g.pm(400) {
		o.scripts = g.in(1, 3)
	}
	g.workload(o)
	for n := g.i(1, 1, 1, 2, 3); n > 0; n-- {
		var l []Op
		if g.pm(800) {
			l = append(l, Op{K: "sleep", D: g.dur(0, g.d(10*us, 200*us, 2*ms, 30*ms, sec, 20*sec))})
		}
		l = append(l, Op{K: "close"})
		if g.pm(200) {
			l = append(l, Op{K: "close"})
		}
		p.Scripts = append(p.Scripts, l)
	}
	// a script of its own that uses the client around and after the close
	if g.pm(500) {
		k := g.in(1, 12)
		l := []Op{{K: "np"}}
		var ids []int
		for j := 0; j < k; j++ {
			x := g.op(&wl{kinds: kvKinds, maxVal: 50}, 0)
			l = append(l, x)
			ids = append(ids, x.ID)
		}
		if g.pm(300) {
			l = append(l, Op{K: "exec"})
		}
		l = append(l, Op{K: "close"})
		if g.pm(300) {
			l = append(l, Op{K: "fin"})
		}
		for _, id := range ids {
			l = append(l, Op{K: "res", R: id})
		}
		p.Scripts = append(p.Scripts, l)
	}
	switch g.n(4) {
	case 0, 1:
	case 2:
		g.faults(g.in(1, 3))
	case 3:
		g.outageFaults()
		if g.pm(300) { // Close must not wait for the next attempt
			p.Cfg.Retry = g.d(60*sec, 600*sec)
			p.Faults = append(p.Faults, Fault{On: "time", N: g.dur(0, 10*ms), Do: "crash", Dur: 30 * sec, Arg: int64(g.n(4))})
		}
	}
	if g.pm(300) {
		p.Cfg.Health = g.d(10*ms, 100*ms, 500*ms)
	}
	if g.pm(150) {
		p.Cfg.Auth, p.Cfg.User, p.Cfg.Pass = true, "u", "p"
		if g.pm(300) {
			p.Faults = append(p.Faults, Fault{On: "auth", N: int64(g.n(3)), Do: g.s("auth-hang", "auth-reject", "auth-cut"), Arg: int64(g.n(8))})
		}
	}
}

func (g *gen) outageFaults() {
	p := g.p
	k := g.in(1, 3)
	t := int64(0)
	for i := 0; i < k; i++ {
		t += g.dur(0, g.d(ms, 100*ms, 2*sec))
		p.Faults = append(p.Faults, Fault{On: "time", N: t, Do: "crash", Dur: g.d(0, 10*ms, sec, 5*sec, 20*sec), Arg: int64(g.n(4))})
	}
	for i := g.n(4); i > 0; i-- {
		p.Faults = append(p.Faults, Fault{On: "dial", N: int64(1 + g.n(p.Cfg.Conns+4)), Do: g.s("refuse", "refuse", "hang", "slow"), Dur: g.d(ms, sec, 9*sec, 11*sec)})
	}
}

func (g *gen) outagePlan() {
	p := g.p
	g.sched(p.Prop == "C06" || p.Prop == "C07")
	o := g.stdWL()
	o.sleep = g.d(10*ms, sec, 5*sec)
	o.blocks = g.in(2, 8)
	g.workload(o)
	g.outageFaults()
	if p.Prop == "C07" {
		p.P["recover"] = 1
	}
	if g.pm(300) {
		p.P["after"] = int64(g.i(1, 3, 12))
	}
}

func (g *gen) recoverPlan() {
	p := g.p
	g.sched(true)
	if g.pm(200) {
		g.pointStalls()
	}
	p.Cfg.Retry = g.d(0, 100*ms, sec, 5*sec, 20*sec)
	o := g.stdWL()
	o.blocks = g.in(1, 4)
	if g.pm(500) {
		o.sleep = g.d(10*ms, sec)
	}
	g.workload(o)
	switch g.n(3) {
	case 0:
		g.faults(g.in(1, 4))
	case 1:
		g.outageFaults()
	case 2:
		g.faults(g.in(1, 3))
		g.outageFaults()
	}
	if g.pm(200) { // the first dial fails
		p.Faults = append(p.Faults, Fault{On: "dial", N: int64(1 + g.n(p.Cfg.Conns)), Do: g.s("refuse", "hang")})
	}
	if g.pm(150) {
		p.Cfg.Auth, p.Cfg.User, p.Cfg.Pass = true, "user", "secret"
	}
	p.P["recover"] = 1
	p.P["par"] = int64(g.n(2))
}

// churnPlan: connections break again and again, dozens of times in one run.
func (g *gen) churnPlan() {
	p := g.p
	g.sched(true)
	p.Sched.Fine = false
	if g.pm(300) {
		g.pointStalls()
	}
	p.Cfg.Conns = g.i(1, 1, 1, 2, 3)
	p.Cfg.Retry = g.d(10*ms, 100*ms, sec)
	p.Cfg.Health = g.d(300*ms, 3*sec, 0, 24*3600*sec)
	k := g.i(10, 25, 60, 120)
	o := &wl{kinds: kvKinds, maxVal: g.i(10, 200)}
	var l []Op
	n := 0
	for i := 0; i < 3*k; i++ {
		l = append(l, Op{K: "np"})
		var ids []int
		for j := g.in(1, 3); j > 0; j-- {
			x := g.op(o, 0)
			l = append(l, x)
			ids = append(ids, x.ID)
			n++
		}
		for _, id := range ids {
			l = append(l, Op{K: "res", R: id})
		}
		if g.pm(500) {
			l = append(l, Op{K: "sleep", D: g.dur(0, 2*p.Cfg.Retry)})
		}
	}
	p.Scripts = [][]Op{l}
	if g.pm(300) {
		p.Scripts = append(p.Scripts, g.script(1, g.stdWL()))
	}
	kind := g.n(4)
	for i := 0; i < k; i++ {
		at := int64(1 + i*n/k + g.n(2))
		switch {
		case kind == 0, kind == 1 && g.pm(500):
			p.Faults = append(p.Faults, Fault{On: "gcmd", Conn: -1, N: at, Do: g.s("reset", "fin", "cut", "finafter", "rstafter"), Arg: int64(g.n(300)), Dur: int64(g.n(3))})
		case kind == 1:
			p.Faults = append(p.Faults, Fault{On: "gcmd", Conn: -1, N: at, Do: "crash", Dur: g.d(0, p.Cfg.Retry/2, 2*p.Cfg.Retry), Arg: int64(g.n(4))})
		case kind == 2:
			p.Faults = append(p.Faults, Fault{On: "gcmd", Conn: -1, N: at, Do: g.s("clierr", "bad"), Arg: int64(g.n(1000))})
		default:
			p.Faults = append(p.Faults, g.fault(n, ""))
			if f := &p.Faults[len(p.Faults)-1]; f.On == "gcmd" {
				f.N = at
			}
			if g.pm(200) {
				p.Faults = append(p.Faults, Fault{On: "dial", N: int64(p.Cfg.Conns + 1 + i), Do: g.s("refuse", "refuse", "hang", "slow"), Dur: g.d(ms, sec)})
			}
		}
	}
	if p.Prop == "C16" || g.pm(100) {
		p.Cfg.Auth, p.Cfg.User, p.Cfg.Pass = true, "u", "p"
	}
	switch p.Prop {
	case "C07":
		p.P["recover"] = 1
	case "C08":
		p.P["close_early"] = 1
		p.Scripts = append(p.Scripts, []Op{{K: "sleep", D: g.dur(0, int64(k)*p.Cfg.Retry)}, {K: "close"}})
	case "C18":
		p.P["quiet_wait"] = g.d(0, 5*sec)
		p.P["recover"] = int64(g.n(2))
	}
}

// dialsPlan: many failing dials under light traffic.
func (g *gen) dialsPlan() {
	p := g.p
	g.sched(g.pm(800))
	if len(p.Sched.Stalls) > 0 || p.Sched.EarlyPM > 0 {
		p.Sched.Stalls, p.Sched.EarlyPM, p.Sched.EarlyWindow = nil, 0, 0
	}
	p.Cfg.Conns = g.i(1, 1, 1, 2, 3)
	p.Cfg.Retry = g.d(50*ms, 100*ms, sec, 3*sec, 0)
	p.Cfg.Health = g.d(200*ms, sec, 3*sec, 0)
	p.Cfg.DefLog = g.pm(150)
	o := &wl{scripts: g.in(1, 3), blocks: g.in(2, 10), maxOps: g.i(1, 3), kinds: kvKinds, maxVal: 30, long: true, sleep: g.d(100*ms, sec, 5*sec)}
	g.workload(o)
	g.outageFaults()
	for i := g.n(6); i > 0; i-- {
		p.Faults = append(p.Faults, Fault{On: "dial", N: int64(1 + g.n(p.Cfg.Conns+8)), Do: g.s("refuse", "refuse", "hang", "slow"), Dur: g.d(ms, sec, 9*sec, 11*sec)})
	}
	if g.pm(400) {
		g.faults(g.in(1, 3))
	}
	if g.pm(200) {
		p.Cfg.Auth, p.Cfg.User, p.Cfg.Pass = true, "u", "p"
		for i := g.n(3); i > 0; i-- {
			p.Faults = append(p.Faults, Fault{On: "auth", N: int64(g.n(4)), Do: g.s("auth-reject", "auth-cut", "auth-reset"), Arg: int64(g.n(8))})
		}
	}
	if g.pm(300) {
		p.P["close_early"] = 1
		p.Scripts = append(p.Scripts, []Op{{K: "sleep", D: g.dur(0, g.d(100*ms, 3*sec, 20*sec))}, {K: "close"}})
	} else {
		p.P["quiet_wait"] = g.d(0, 5*sec, 40*sec)
		if g.pm(500) {
			p.P["recover"] = 1
		}
	}
}

func (g *gen) authPlan() {
	p := g.p
	g.sched(p.Prop == "C06" || g.pm(700))
	p.Cfg.Auth = true
	p.Cfg.User = g.s("user", "u", "", "name.with-1_chars", "memcached", "\u00fcser")
	p.Cfg.Pass = g.s("secret", "p", "pa$$w0rd", "12345678901234567890123456789012345678901234567890", "stra\u00dfe", "\u5bc6\u7801")
	if p.Net.Win > 0 && p.Net.Win < 200 {
		p.Net.Win = 200
	}
	o := g.stdWL()
	o.sleep = g.d(0, 10*ms, sec, 12*sec)
	g.workload(o)
	if p.Prop == "C17" { // connections which dial at the same time for the first time
		p.Cfg.Conns = g.in(2, 4)
		if g.pm(700) {
			for i := 1; i <= p.Cfg.Conns; i++ {
				p.Faults = append(p.Faults, Fault{On: "dial", N: int64(i), Do: "refuse"})
			}
			p.Cfg.Retry = 10 * ms
		}
	}
	k := g.n(4)
	if p.Profile == "authhang" {
		k = 0
		for i := g.in(1, 2); i > 0; i-- {
			p.Faults = append(p.Faults, Fault{On: "auth", N: int64(g.n(3)), Do: "auth-hang", Arg: int64(g.n(8))})
		}
	}
	for i := 0; i < k; i++ {
		p.Faults = append(p.Faults, Fault{On: "auth", N: int64(g.n(4)), Do: g.s("auth-reject", "auth-reject", "auth-cut", "auth-reset", "auth-hang", "auth-drip"), Arg: int64(g.n(48)), Dur: g.d(us, ms, 100*ms)})
	}
	if g.pm(400) {
		g.faults(g.in(1, 2))
	}
	if p.Profile == "auth" && g.pm(250) { // long idle after the handshake: deadlines must be gone
		p.Cfg.Health = 24 * 3600 * sec
		p.Scripts = append(p.Scripts, []Op{{K: "sleep", D: 12 * sec}, {K: "get", ID: 800001, Key: "q#800001"}, {K: "res", R: 800001}, {K: "sleep", D: 30 * sec}, {K: "get", ID: 800002, Key: "q#800002"}, {K: "res", R: 800002}})
	}
	if g.pm(100) { // the deadline of a handshake can not be set, or not be taken away
		n := int64(g.n(p.Cfg.Conns + 1))
		p.Faults = append(p.Faults, Fault{On: "deadline", Conn: int(n), N: int64(g.i(1, 2))}, Fault{On: "auth", N: n, Do: g.s("auth-hang", "auth-drip"), Arg: int64(g.n(8)), Dur: g.d(us, ms)})
	}
	if p.Profile == "auth" && g.pm(500) && len(p.Sched.Stalls) == 0 && p.Sched.EarlyPM == 0 {
		p.P["recover"] = 1
	}
}

func (g *gen) idlePlan() {
	p := g.p
	g.sched(true)
	p.Cfg.Conns = g.i(1, 2, 3, 4, 5)
	if g.pm(20) {
		p.Cfg.Conns = g.i(8, 9, 17)
	}
	p.Cfg.Health = g.d(500*ms, sec, 3*sec, 0, 60*sec)
	p.Cfg.Retry = g.d(100*ms, sec, 0)
	h := p.Cfg.health()
	if p.Net.Proc > 100*us {
		p.Net.Proc = 100 * us
	}
	if g.pm(600) {
		o := g.stdWL()
		o.blocks = g.in(1, 5)
		if g.pm(500) {
			o.sleep = h
		}
		g.workload(o)
	}
	p.P["idle"] = h*int64(g.in(3, 8)) + g.dur(0, h)
	if g.pm(30) {
		p.P["idle"] = h * int64(g.i(20, 70, 140))
	}
	if g.pm(500) { // silent deaths while idle
		n := g.in(1, 3)
		last := int64(0)
		p.Scripts = nil
		p.P["idle"] = h*int64(g.in(1, 4)) + g.dur(0, h)
		for i := 0; i < n; i++ {
			t := g.dur(0, p.P["idle"])
			f := Fault{On: "time", Conn: g.i(-1, g.n(p.Cfg.Conns)), N: t, Do: g.s("blackhole", "blackhole", "fin", "reset"), Arg: int64(g.n(8))}
			switch g.n(6) {
			case 0:
				f = Fault{On: "time", N: t, Do: g.s("resetall", "blackholeall")}
			case 1:
				d := g.d(10*ms, sec)
				f = Fault{On: "time", N: t, Do: "crash", Dur: d, Arg: int64(g.n(2))}
				t += d
			}
			if t > last {
				last = t
			}
			p.Faults = append(p.Faults, f)
		}
		p.P["last"] = last
		// every probe round may find dead connections one after another
		p.P["extra_wait"] = 2*h + int64(p.Cfg.Conns+1)*(p.Cfg.rto()+p.Cfg.wto()) + 2*sec
	}
	if g.pm(400) { // a few calls of the users in between
		o := &wl{kinds: kvKinds, maxVal: 30}
		gap := g.d(h/8, h/2, h, h, 2*h)
		var l []Op
		for left := p.P["idle"]; left > 0; {
			d := g.dur(0, 2*gap)
			left -= d
			x := g.op(o, 0)
			l = append(l, Op{K: "sleep", D: d}, Op{K: "np"}, x, Op{K: "res", R: x.ID})
			if len(l) > 400 {
				break
			}
		}
		p.Scripts = append(p.Scripts, l)
		p.P["trickle"] = 1
	}
}

func (g *gen) bytesPlan() {
	p := g.p
	g.sched(true)
	p.Srv = SrvCfg{Mode: "bytes", RepMax: g.i(10, 100, 600)}
	p.Cfg.RTO = g.d(0, 200*ms)
	p.P["goodpm"] = int64(g.i(0, 300, 700, 900))
	p.P["endpm"] = int64(g.i(0, 50, 300))
	p.P["unsol"] = g.d(ms, 100*ms, 3*sec)
	o := g.stdWL()
	o.maxOps = g.i(1, 3, 6)
	o.kinds = allKinds
	g.workload(o)
	p.P["bytes_end"] = 1
	p.P["recover"] = 1
	p.P["untimed"] = 1
	if g.pm(200) {
		g.faults(1)
	}
}

func (g *gen) statsPlan() {
	p := g.p
	g.sched(g.pm(600))
	p.Sched.Fine = false
	p.Cfg.Conns = 0
	p.Cfg.Buf = 0
	p.P["entries"] = int64(g.i(2, 12, 40))
	kinds := []string{"sgen", "sslab", "sitem", "sdump", "sdump"}
	n := g.i(1, 1, 1, 2)
	for i := 0; i < n; i++ {
		l := []Op{{K: "snew"}}
		for k := g.in(1, 6); k > 0; k-- {
			if g.pm(150) {
				l = append(l, Op{K: "sleep", D: g.dur(0, 3*sec)})
			}
			l = append(l, Op{K: kinds[g.n(len(kinds))]})
			if g.pm(100) {
				l = append(l, Op{K: "sclose"}, Op{K: "snew"})
			}
		}
		p.Scripts = append(p.Scripts, l)
	}
	if p.Profile == "sbytes" {
		p.Srv = SrvCfg{Mode: "bytes"}
		p.P["goodpm"] = int64(g.i(0, 300, 700))
		p.P["endpm"] = int64(g.i(0, 50, 300))
		p.P["unsol"] = g.d(ms, 100*ms)
		return
	}
	p.Srv = SrvCfg{Mode: "kv"}
	for i := g.n(4); i > 0; i-- {
		f := Fault{On: "stat", Conn: g.i(-1, -1, 0), N: int64(g.in(1, 5)), Do: g.s("refuse", "cutoff", "cutoff", "cutoff", "pause", "badline", "badline", "badnum", "badnum"), Arg: int64(g.n(100000)), Dur: int64(g.n(24))}
		if f.Do == "badnum" {
			f.Dur = int64(g.n(1000))
		}
		if f.Do == "pause" {
			f.Dur = g.d(10*ms, p.Cfg.rto()/2, p.Cfg.rto()+p.Cfg.rto()/2, 5*sec)
			if f.Dur > p.P["pause"] {
				p.P["pause"] = f.Dur
			}
		}
		p.Faults = append(p.Faults, f)
	}
	if g.pm(250) {
		t := g.nOps()
		f := g.fault(t, "")
		if f.Do == "cut" || f.Do == "lost" || f.Do == "finafter" || f.Do == "rstafter" {
			f.Do = "reset"
		}
		p.Faults = append(p.Faults, f)
	}
}

func (g *gen) linPlan() {
	p := g.p
	g.sched(false)
	p.Srv = SrvCfg{Mode: "kv", Persist: true}
	p.Cfg.Conns = g.in(1, 4)
	g.keys = g.i(1, 1, 2, 3)
	o := &wl{scripts: g.in(2, 5), blocks: g.in(1, 4), maxOps: g.i(1, 2, 3), kinds: []string{"get", "fget", "get", "set", "set", "del"}, maxVal: g.i(10, 100), long: g.pm(500)}
	if g.pm(400) {
		o.sleep = g.d(ms, 50*ms, 2*sec)
	}
	g.workload(o)
	if g.pm(600) {
		g.faults(g.in(1, 2))
	}
	if g.pm(100) {
		p.Srv.ErrPM = 100
	}
	p.P["lin"] = 1
}

func (g *gen) rrPlan() {
	p := g.p
	g.sched(g.pm(600))
	p.Sched.Stalls, p.Sched.EarlyPM, p.Sched.EarlyWindow = nil, 0, 0
	p.Cfg.Conns = g.in(1, 6)
	if g.pm(30) {
		p.Cfg.Conns = g.i(8, 9, 16, 17, 33)
	}
	g.healthOff()
	k := g.in(1, 6)
	n := k * p.Cfg.Conns
	ns := g.in(1, 6)
	if ns > n {
		ns = n
	}
	scripts := make([][]Op, ns)
	if g.pm(4) { // the counters of the client are beyond a small range
		p.Sched.Fine = false
		x := g.i(1<<8, 1<<8, 1<<15, 1<<16) - g.n(n+1)
		p.P["idle"] = int64(x / p.Cfg.Conns * p.Cfg.Conns)
	}
	for i := 0; i < n; i++ {
		s := g.n(ns)
		slot := g.n(2)
		l := append(scripts[s], Op{K: "np", P: slot})
		var ids []int
		for j := g.in(1, 3); j > 0; j-- {
			x := g.op(&wl{kinds: []string{"get", "set", "fget"}, maxVal: 30}, slot)
			l = append(l, x)
			ids = append(ids, x.ID)
			if g.pm(200) {
				l = append(l, Op{K: "res", R: x.ID})
			}
		}
		if g.pm(500) {
			for _, id := range ids {
				l = append(l, Op{K: "res", R: id})
			}
		} else {
			l = append(l, Op{K: "fin", P: slot})
		}
		scripts[s] = l
	}
	p.Scripts = scripts
}

// finalize makes the plan consistent: without faults nothing may time out.
// dialMode chooses how the library gets its connections. It has a generator of its own.
func (g *gen) dialMode() {
	p := g.p
	h := &gen{r: simrt.NewRNG(simrt.Mix(p.Seed, 0xd1a1)), p: p}
	c := &p.Cfg
	c.Dial = h.i(0, 1, 2, 2)
	if c.Auth && c.Dial == 2 {
		c.Dial = 1
	}
	if h.pm(600) {
		c.OptSeed = h.r.U64() | 1
	}
	c.Decoys = h.pm(150)
	if c.KeepAl == 0 && h.pm(300) {
		c.KeepAl = h.d(sec, 45*sec, 1500*ms)
	}
	if (c.Buf == 0 || c.Buf > 1000) && h.pm(100) {
		c.Buf = h.i(16*1024+1, 20_000, 70_000)
	}
	optErr := 0
	switch p.Profile {
	case "dials":
		optErr = 300
	case "recover", "close", "outage":
		optErr = 60
	case "stats":
		if p.Prop == "C20" {
			optErr = 100
		}
	}
	if p.Prop == "C20" {
		s := &p.Sched
		s.Stalls, s.EarlyPM, s.EarlyWindow = nil, 0, 0
		c.Decoys = h.pm(400)
		if h.pm(250) {
			p.P["other"] = 1
		}
		c.RTO = h.d(0, 300*ms, 700*ms, sec, 2*sec, 3*sec)
		c.WTO = h.d(0, 300*ms, 700*ms, sec, 2*sec, 3*sec)
		for i := h.n(3); i > 0; i-- {
			p.Faults = append(p.Faults, Fault{On: h.s("cmd", "cmd", "write", "read"), Conn: h.n(c.Conns + 2), N: int64(1 + h.n(6)), Do: h.s("blackhole", "blackhole", "reset", "stall"), Dur: h.d(sec, 5*sec)})
		}
	}
	if c.Dial > 0 && h.pm(optErr) {
		for i := h.in(1, 2); i > 0; i-- {
			p.Faults = append(p.Faults, Fault{On: "sockopt", Conn: h.n(c.Conns + 4), N: int64(h.in(1, 2)), Do: "opterr"})
		}
	}
}

func (g *gen) finalize() {
	p := g.p
	g.dialMode()
	n := &p.Net
	rto, wto := p.Cfg.rto(), p.Cfg.wto()
	to := rto
	if wto < to {
		to = wto
	}
	if n.Proc > to/50 {
		n.Proc = to / 50
	}
	if n.Lat > to/20 {
		n.Lat = to / 20
	}
	if n.Jit > to/20 {
		n.Jit = to / 20
	}
	// bytes
	buf := int64(p.Cfg.Buf)
	if buf == 0 {
		buf = 16 * 1024
	}
	maxW, total, ops := buf, int64(0), int64(0)
	vmax, gets := int64(0), int64(0)
	for _, s := range p.Scripts {
		for _, o := range s {
			switch o.K {
			case "set":
				if int64(o.L)+2 > maxW {
					maxW = int64(o.L) + 2
				}
				if int64(o.L) > vmax {
					vmax = int64(o.L)
				}
				fallthrough
			case "get", "fget", "del", "ver", "fa":
				if o.K == "get" || o.K == "fget" {
					gets++
				}
				ops++
				total += int64(o.L) + int64(len(o.Key)) + 60
			case "sgen", "sslab", "sitem", "sdump":
				ops++
			case "mass":
				ops += int64(o.N) * int64(o.L)
				total += 60 * int64(o.N) * int64(o.L)
			}
		}
	}
	if maxW > total+1000 {
		maxW = total + 1000
	}
	if n.Win > 0 && maxW/int64(n.Win)*(n.Lat+n.Jit+2*n.Proc) > wto/4 {
		n.Win = 0
	}
	if m := int64(p.Srv.RepMax); p.Srv.Mode != "kv" && m > vmax {
		vmax = m
	}
	if total > 300_000 || vmax*gets > 1_000_000 && (vmax > 50_000 || gets > 300) {
		if p.Cfg.Buf > 0 && p.Cfg.Buf < 1024 {
			p.Cfg.Buf = 1024
		}
		n.SplitPM, n.ReadPM = 0, 0
		p.Sched.Fine = false
	}
	work := ops*n.Proc + ops*ms
	if n.Win > 0 {
		work += total / int64(n.Win) * (n.Lat + n.Jit)
	}
	if n.RWin > 0 {
		work += (ops + 1) * (n.Lat + n.Jit)
	}
	p.P["work"] = work
}
