package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verifsim/simrt"
)

// Statistics clients and the statistics commands of the simulated server.

type statsConn struct{}

// statAns is the complete answer to one statistics command.
type statAns struct {
	raw     []byte
	general stats.GeneralStats
	slabs   stats.SlabsStats
	items   stats.SlabItemsStats
	dump    []stats.MetaDumpKey
	damaged bool  // a line of it was replaced or added
	full    bool  // the server sent all of raw and it is a well-formed answer
	refused bool  // the server sent a one-line error instead
	end     int64 // stream offset of the end of raw
}

type statCall struct {
	kind    string
	cmds    []*Cmd
	entries []stats.MetaDumpKey
}

type statClient struct {
	w    *World
	id   int
	c    *stats.Client
	conn *Conn
	cur  *statCall
	n    int
}

type statsWorld struct {
	clients []*statClient
	answers map[*Cmd]*statAns
}

var statFields = []string{"number", "number_hot", "number_warm", "number_cold", "age_hot", "age_warm", "age", "mem_requested", "evicted", "evicted_nonzero",
	"evicted_time", "outofmemory", "tailrepairs", "reclaimed", "expired_unfetched", "evicted_unfetched", "evicted_active", "crawler_reclaimed",
	"crawler_items_checked", "lrutail_reflocked", "moves_to_cold", "moves_to_warm", "moves_within_lru", "direct_reclaims", "hits_to_hot", "hits_to_warm", "hits_to_cold", "hits_to_temp"}

func setItem(s *stats.SingleSlabItemStats, f string, v uint64) {
	switch f {
	case "number":
		s.Number = v
	case "number_hot":
		s.NumberHot = v
	case "number_warm":
		s.NumberWarm = v
	case "number_cold":
		s.NumberCold = v
	case "age_hot":
		s.AgeHot = v
	case "age_warm":
		s.AgeWarm = v
	case "age":
		s.Age = v
	case "mem_requested":
		s.MemRequested = v
	case "evicted":
		s.Evicted = v
	case "evicted_nonzero":
		s.EvictedNonZero = v
	case "evicted_time":
		s.EvictedTime = v
	case "outofmemory":
		s.OutOfMemory = v
	case "tailrepairs":
		s.TailRepairs = v
	case "reclaimed":
		s.Reclaimed = v
	case "expired_unfetched":
		s.ExpiredUnfetched = v
	case "evicted_unfetched":
		s.EvictedUnfetched = v
	case "evicted_active":
		s.EvictedActive = v
	case "crawler_reclaimed":
		s.CrawlerReclaimed = v
	case "crawler_items_checked":
		s.CrawlerItemsChecked = v
	case "lrutail_reflocked":
		s.LRUTailRefLocked = v
	case "moves_to_cold":
		s.MovesToCold = v
	case "moves_to_warm":
		s.MovesToWarm = v
	case "moves_within_lru":
		s.MovesWithinLRU = v
	case "direct_reclaims":
		s.DirectReclaims = v
	case "hits_to_hot":
		s.HitsToHot = v
	case "hits_to_warm":
		s.HitsToWarm = v
	case "hits_to_cold":
		s.HitsToCold = v
	case "hits_to_temp":
		s.HitsToTemp = v
	}
}

func rndNum(r *simrt.RNG) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(10))
	case 1:
		return ^uint64(0) - uint64(r.Intn(2))
	case 2:
		return r.U64()
	}
	return uint64(r.Intn(1_000_000))
}

func rndNum32(r *simrt.RNG) uint32 {
	switch r.Intn(4) {
	case 0:
		return uint32(r.Intn(10))
	case 1:
		return ^uint32(0) - uint32(r.Intn(2))
	}
	return uint32(r.Intn(1_000_000))
}

func dumpTime(r *simrt.RNG) int64 {
	switch r.Intn(8) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return 1<<31 - 3 + int64(r.Intn(6))
	case 3:
		return 1<<32 - 3 + int64(r.Intn(1_000_000))
	case 4:
		return int64(r.U64() >> 1)
	}
	return int64(r.Intn(2_000_000_000))
}

func dumpKeyText(r *simrt.RNG) (raw, decoded string) {
	n := 1 + r.Intn(30)
	if r.Intn(8) == 0 {
		n = 200 + r.Intn(51)
	}
	plain := 3
	if r.Intn(4) == 0 {
		plain = 1
	}
	for i := 0; i < n; i++ {
		c := byte(33 + r.Intn(94))
		if plain == 1 {
			c = "%&=+/?#<>\"'*"[r.Intn(12)]
		} else if r.Intn(plain) > 0 {
			c = "abcdefghijklmnop"[r.Intn(16)]
		}
		decoded += string(c)
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~", c) >= 0 {
			raw += string(c)
		} else {
			raw += simrt.Sprintf("%%%02X", c)
		}
	}
	return
}

func firstSlab(r *simrt.RNG) uint32 {
	switch r.Intn(24) {
	case 0:
		return 1<<31 - 3
	case 1:
		return 1<<32 - 200
	}
	return 0
}

// badNumber damages one number of an answer: no call may succeed with that.
func badNumber(raw string, arg, how int) (string, bool) {
	type num struct {
		line, a, b int // raw line and place of the number in it
		bits       int // negative: signed
		id         bool
	}
	lines := strings.SplitAfter(raw, "\n")
	var nums []num
	for i, l := range lines {
		t := strings.TrimRight(l, "\r\n")
		if strings.HasPrefix(t, "key=") {
			for _, f := range []struct {
				k    string
				bits int
			}{{" exp=", -64}, {" la=", -64}, {" cas=", 64}, {" cls=", 32}, {" size=", 32}} {
				a := strings.Index(t, f.k) + len(f.k)
				if a < len(f.k) {
					continue
				}
				b := len(t)
				if j := strings.IndexByte(t[a:], ' '); j >= 0 {
					b = a + j
				}
				nums = append(nums, num{i, a, b, f.bits, false})
			}
			continue
		}
		f := strings.Split(t, " ")
		if len(f) != 3 || f[0] != "STAT" {
			continue
		}
		key := strings.Split(f[1], ":")
		bits := 0
		switch key[len(key)-1] {
		case "pid", "uptime", "total_malloced", "total_chunks", "used_chunks":
			bits = 64
		case "active_slabs", "chunk_size", "chunks_per_page", "total_pages":
			bits = 32
		default:
			if key[0] == "items" && len(key) == 3 && key[2] != "new_counter" {
				bits = 64
			}
		}
		if bits == 0 {
			continue
		}
		nums = append(nums, num{i, len(t) - len(f[2]), len(t), bits, false})
		if len(key) == 2 {
			nums = append(nums, num{i, 5, 5 + len(key[0]), 32, true})
		}
		if len(key) == 3 {
			nums = append(nums, num{i, 11, 11 + len(key[1]), 32, true})
		}
	}
	if len(nums) == 0 {
		return raw, false
	}
	n := nums[arg%len(nums)]
	old := lines[n.line][n.a:n.b]
	x := ""
	switch how % 10 {
	case 0:
		x = "x"
	case 1:
		x = old + "x"
	case 2:
		x = "-5"
		if n.bits < 0 {
			x = "--5"
		}
	case 3, 4, 5: // too big
		switch n.bits {
		case 32:
			x = []string{"4294967296", "4294967301", "8589934591", "8589934592", "18446744073709551616"}[how/10%5]
		case 64:
			x = []string{"18446744073709551616", "18446744073709551617", "99999999999999999999999"}[how/10%3]
		case -64:
			x = []string{"9223372036854775808", "18446744073709551615", "-9223372036854775809"}[how/10%3]
		}
	case 6:
		x = "1.5"
	case 7:
		x = "0x10"
	case 8:
		x = ""
	case 9:
		if n.id { // the field is missing
			l := lines[n.line]
			t := strings.TrimRight(l, "\r\n")
			j := strings.LastIndexByte(t[:strings.LastIndexByte(t, ' ')], ':')
			lines[n.line] = l[:j] + l[strings.LastIndexByte(t, ' '):]
			return strings.Join(lines, ""), true
		}
		x = "\xb2"
	}
	lines[n.line] = lines[n.line][:n.a] + x + lines[n.line][n.b:]
	return strings.Join(lines, ""), true
}

// statAnswer generates the complete answer to a command.
func (w *World) statAnswer(c *Conn, cmd *Cmd) *statAns {
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0x57a7, uint64(c.id), uint64(cmd.idx)))
	a := &statAns{full: true}
	var b strings.Builder
	max := int(w.plan.P["entries"])
	if max == 0 {
		max = 12
	}
	switch cmd.Kind {
	case "stats":
		a.general = stats.GeneralStats{PID: rndNum(&r), Uptime: rndNum(&r)}
		lines := []string{simrt.Sprintf("STAT pid %d", a.general.PID), simrt.Sprintf("STAT uptime %d", a.general.Uptime),
			"STAT version 1.6.21", "STAT libevent 2.1.12-stable", "STAT rusage_user 0.123", "STAT curr_connections 3", "STAT pointer_size 64"}
		lines = lines[:2+r.Intn(6)]
		if r.Intn(2) == 0 {
			for i := len(lines) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				lines[i], lines[j] = lines[j], lines[i]
			}
		}
		for _, l := range lines {
			b.WriteString(l + "\r\n")
		}
	case "stats slabs":
		a.slabs = stats.SlabsStats{Slabs: map[uint32]stats.SingleSlabStats{}}
		n := r.Intn(max/2 + 1)
		id := firstSlab(&r)
		for i := 0; i < n; i++ {
			id += 1 + uint32(r.Intn(3))
			s := stats.SingleSlabStats{ChunkSize: rndNum32(&r), ChunksPerPage: rndNum32(&r), TotalPages: rndNum32(&r), TotalChunks: rndNum(&r), UsedChunks: rndNum(&r)}
			a.slabs.SlabIDs = append(a.slabs.SlabIDs, id)
			a.slabs.Slabs[id] = s
			fmt.Fprintf(&b, "STAT %d:chunk_size %d\r\nSTAT %d:chunks_per_page %d\r\nSTAT %d:total_pages %d\r\nSTAT %d:total_chunks %d\r\nSTAT %d:used_chunks %d\r\n",
				id, s.ChunkSize, id, s.ChunksPerPage, id, s.TotalPages, id, s.TotalChunks, id, s.UsedChunks)
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "STAT %d:free_chunks %d\r\nSTAT %d:get_hits 4\r\n", id, r.Intn(100), id)
			}
		}
		a.slabs.ActiveSlabs, a.slabs.TotalMalloced = uint32(n), rndNum(&r)
		if r.Intn(8) == 0 {
			a.slabs.ActiveSlabs = rndNum32(&r)
		}
		fmt.Fprintf(&b, "STAT active_slabs %d\r\nSTAT total_malloced %d\r\n", a.slabs.ActiveSlabs, a.slabs.TotalMalloced)
	case "stats items":
		a.items = stats.SlabItemsStats{Slabs: map[uint32]stats.SingleSlabItemStats{}}
		n := r.Intn(max/4 + 1)
		id := firstSlab(&r)
		for i := 0; i < n; i++ {
			id += 1 + uint32(r.Intn(3))
			s := stats.SingleSlabItemStats{}
			k := 1 + r.Intn(len(statFields))
			fields := statFields[:k]
			if r.Intn(3) == 0 {
				fields = append([]string(nil), statFields...)
				for i := range fields {
					j := i + r.Intn(len(fields)-i)
					fields[i], fields[j] = fields[j], fields[i]
				}
				fields = fields[:k]
			}
			for _, f := range fields {
				v := rndNum(&r)
				setItem(&s, f, v)
				fmt.Fprintf(&b, "STAT items:%d:%s %d\r\n", id, f, v)
			}
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "STAT items:%d:new_counter %d\r\n", id, r.Intn(100))
			}
			a.items.SlabIDs = append(a.items.SlabIDs, id)
			a.items.Slabs[id] = s
		}
	case "metadump":
		n := r.Intn(max*2 + 1)
		for i := 0; i < n; i++ {
			raw, key := dumpKeyText(&r)
			e := stats.MetaDumpKey{Key: key, Exp: dumpTime(&r), LA: dumpTime(&r), CAS: rndNum(&r), Fetch: r.Intn(2) == 0, Class: uint32(r.Intn(64)), Size: rndNum32(&r)}
			if r.Intn(10) == 0 {
				e.Class = rndNum32(&r)
			}
			more := ""
			if n%4 == 3 { // fields of later versions
				more = simrt.Sprintf(" flags=%d", r.Intn(3))
			}
			yn := "no"
			if e.Fetch {
				yn = "yes"
			}
			a.dump = append(a.dump, e)
			fmt.Fprintf(&b, "key=%s exp=%d la=%d cas=%d fetch=%s cls=%d size=%d%s\n", raw, e.Exp, e.LA, e.CAS, yn, e.Class, e.Size, more)
		}
	}
	b.WriteString("END\r\n")
	a.raw = []byte(b.String())
	return a
}

var statRefusals = []string{"ERROR\r\n", "SERVER_ERROR out of memory writing stats\r\n", "CLIENT_ERROR not now\r\n", "BUSY currently processing crawler request\r\n", "ERROR lru crawler disabled\r\n", "RESET\r\n"}

// statsExec executes a statistics command.
func (w *World) statsExec(c *Conn, cmd *Cmd) []byte {
	if w.stat == nil {
		w.violate("C02", "unknown-command", simrt.Sprintf("conn%d: unexpected command %q", c.id, trunc(cmd.Line, 60)))
		return []byte("ERROR\r\n")
	}
	cmd.executed, cmd.execSeq, cmd.execT = true, simrt.Seq(), simrt.Now()
	if w.plan.Srv.Mode == "bytes" {
		return w.bytesReply(c, cmd)
	}
	a := w.statAnswer(c, cmd)
	w.stat.answers[cmd] = a
	raw := a.raw
	a.end = c.out + int64(len(raw))
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if f.used || f.On != "stat" || (f.Conn >= 0 && f.Conn != c.id) || c.nCmd != f.N {
			continue
		}
		if f.Do == "cutoff" {
			w.fire(f, c)
		} else {
			w.fire(f, nil) // the connection stays intact
		}
		switch f.Do {
		case "refuse": // an error instead of the answer
			a.full, a.refused = false, true
			return []byte(statRefusals[int(f.Arg)%len(statRefusals)])
		case "cutoff": // a prefix, then the connection ends
			a.full = false
			k := int(f.Arg) % (len(raw) + 1)
			if f.Dur%8 >= 4 { // at a line end
				if i := strings.LastIndexByte(string(raw[:k]), '\n'); i >= 0 {
					k = i + 1
				}
			}
			if k == len(raw) {
				a.full = true
			}
			if k > 0 {
				w.deliver(c, raw[:k])
			}
			switch f.Dur % 4 {
			case 0, 1:
				w.fin(c)
			case 2:
				w.resetAfter(c)
			case 3:
				w.setBlackholeAfter(c)
			}
			return nil
		case "pause": // a prefix, a pause, the rest
			k := int(f.Arg) % (len(raw) + 1)
			if k > 0 {
				w.deliver(c, raw[:k])
			}
			rest := raw[k:]
			simrt.After(f.Dur, func() {
				if !c.srvClosed {
					w.deliver(c, rest)
				}
			})
			return nil
		case "badnum": // a number of the answer is none, or too big
			if s, ok := badNumber(string(raw), int(f.Arg), int(f.Dur)); ok && a.full {
				a.full, c.malformed = false, true
				raw = []byte(s)
			}
		case "badline": // one line of the answer is damaged
			// never the first line: a first line that is no data makes the whole
			// answer a one-line error, as with a refusal
			lines := strings.SplitAfter(strings.TrimSuffix(string(raw), "END\r\n"), "\n")
			lines[len(lines)-1] = "END\r\n"
			if len(lines) < 2 || !a.full {
				break
			}
			i := 1 + int(f.Arg)%(len(lines)-1)
			bad := []string{"STAT\r\n", "\r\n", "STAT pid x\r\n", "STAT uptime 99999999999999999999\r\n", "JUNK a b\r\n", "STAT 1:chunk_size -1\r\n", "STAT items:1:number ten\r\n", "STAT q\r\n",
				"key=%zz exp=1\n", "STAT nocolon 1\r\n", "key=a exp=one la=1 cas=1 fetch=no cls=1 size=1\n", "key\n"}[int(f.Dur)%12]
			if f.Dur%24 >= 12 {
				lines[i] = bad + lines[i]
			} else if i < len(lines)-1 {
				lines[i] = bad
			} else {
				lines[i] = bad + lines[i]
			}
			a.full, a.damaged, c.malformed = false, true, true
			raw = []byte(strings.Join(lines, ""))
		}
	}
	w.tr("server: conn%d %s -> %d bytes", c.id, cmd.Line, len(raw))
	return raw
}

func (w *World) newStatClient() *statClient {
	sc := &statClient{w: w, id: len(w.stat.clients) + 1}
	w.stat.clients = append(w.stat.clients, sc)
	nLog := 0
	opts := w.netOptions(w.theDial(), w.optRNG())
	n0 := len(w.outers)
	took, _ := w.do("stats.New", nil, func() {
		sc.c = stats.New(srvAddr, stats.WithErrorLogger(func(error) { nLog++ }), stats.WithNetConnOptions(opts...))
	})
	_ = took
	for _, o := range w.outers[n0:] {
		if o.g == simrt.Cur().ID && o.inner != nil && o.err == nil {
			sc.conn = o.inner.conn
		}
	}
	want := 0
	if sc.conn == nil {
		want = 1
	}
	if nLog != want {
		w.violate("C20", "logger", simrt.Sprintf("stats.New: %d dials failed, its error logger was called %d times", want, nLog))
	}
	if sc.conn != nil {
		w.statConns[sc.conn] = sc
	}
	return sc
}

var errNone = errors.New("none")

// call makes one statistics call and checks it.
func (sc *statClient) call(kind string) {
	w := sc.w
	cl := &statCall{kind: kind}
	sc.cur = cl
	sc.n++
	var err error
	var g stats.GeneralStats
	var sl stats.SlabsStats
	var it stats.SlabItemsStats
	name := map[string]string{"sgen": "GetGeneralStats", "sslab": "GetSlabsStats", "sitem": "GetSlabItemsStats", "sdump": "MetaDumpAll"}[kind]
	cleanAt := w.clean() && !w.sawTimeout
	intact, sent0 := false, int64(0)
	if c := sc.conn; c != nil {
		intact, sent0 = !c.faulted && !c.malformed && !c.closed && c.errSeen == nil, c.sent
	}
	took, _ := w.do(simrt.Sprintf("%s (call %d of stats client %d)", name, sc.n, sc.id), nil, func() {
		switch kind {
		case "sgen":
			g, err = sc.c.GetGeneralStats()
		case "sslab":
			sl, err = sc.c.GetSlabsStats()
		case "sitem":
			it, err = sc.c.GetSlabItemsStats()
		case "sdump":
			err = sc.c.MetaDumpAll(func(k stats.MetaDumpKey) {
				cl.entries = append(cl.entries, k)
				if len(cl.entries) > 100000 {
					w.violate("C15", "endless", "MetaDumpAll delivers entries without end")
				}
			})
		}
	})
	sc.cur = nil
	w.tr("stats client %d: %s returned err=%v, %d entries", sc.id, name, err, len(cl.entries))
	if err != nil {
		w.nErrs++
	} else {
		w.nReplies++
	}
	desc := simrt.Sprintf("%s (call %d of stats client %d)", name, sc.n, sc.id)
	if b := w.callBound() + int64(w.plan.P["pause"]); took > b && w.timed() {
		w.violate("C15", "slow-call", simrt.Sprintf("%s took %d ms; bound %d ms", desc, took/ms, b/ms))
	}
	if w.plan.Srv.Mode == "bytes" {
		return
	}
	var a *statAns
	if len(cl.cmds) == 1 {
		a = w.stat.answers[cl.cmds[0]]
	}
	if len(cl.cmds) > 1 {
		w.violate("C15", "two-commands", desc+" sent more than one command")
	}
	for i, e := range cl.entries {
		if a == nil || i >= len(a.dump) || a.dump[i] != e {
			w.violate("C15", "wrong-entry", simrt.Sprintf("%s delivered the entry %+v, which is not entry %d of the answer to this call", desc, e, i+1))
			break
		}
	}
	if err != nil {
		if intact && !sc.conn.faulted && !sc.conn.malformed && (sc.conn.sent == sent0 || sc.conn.errSeen != nil && sc.conn.errSent == sent0) && w.timed() {
			w.violate("C15", "not-sent", simrt.Sprintf("%s failed, or waited in vain, before it sent its command, although nothing happened to its connection: %v", desc, err))
		} else if cleanAt && w.clean() && !w.sawTimeout {
			w.violate("C15", "error-without-fault", simrt.Sprintf("%s failed although the server answered: %v", desc, err))
		} else if a != nil && !sc.conn.malformed && !sc.conn.faulted {
			// an earlier refusal leaves the connection usable
			if a.full && sc.conn.errSeen == nil {
				w.violate("C15", "error-without-fault", simrt.Sprintf("%s failed although the server answered and its connection has no error: %v", desc, err))
			}
			if c := sc.conn; a.full && intact && c.errSeen != nil && w.timed() && c.errRead >= a.end {
				w.violate("C15", "error-without-fault", simrt.Sprintf("%s failed (%v) although it had read the complete answer before", desc, err))
			}
			if a.refused && w.timed() && simrt.Now() > sc.conn.lastDel+ms {
				w.violate("C15", "slow-refusal", simrt.Sprintf("%s returned %d ms after it received the complete one-line error of the server", desc, (simrt.Now()-sc.conn.lastDel)/ms))
			}
		}
		return
	}
	if a == nil {
		w.violate("C15", "no-answer", simrt.Sprintf("%s returned no error, but the server executed no such command for it", desc))
		return
	}
	want := map[string]string{"sgen": "stats", "sslab": "stats slabs", "sitem": "stats items", "sdump": "metadump"}[kind]
	if cl.cmds[0].Kind != want {
		w.violate("C15", "wrong-command", simrt.Sprintf("%s sent %q", desc, cl.cmds[0].Line))
	}
	if a.damaged && kind == "sgen" {
		return // unknown statistics are allowed there
	}
	if !a.full {
		w.violate("C15", "incomplete", simrt.Sprintf("%s returned no error although the server did not send a complete answer: got %+v %+v %+v %d entries", desc, g, sl, it, len(cl.entries)))
		return
	}
	bad := ""
	switch kind {
	case "sgen":
		if g != a.general {
			bad = simrt.Sprintf("got %+v, the answer was %+v", g, a.general)
		}
	case "sslab":
		if !reflect.DeepEqual(sl, a.slabs) {
			bad = simrt.Sprintf("got %+v, the answer was %+v", sl, a.slabs)
		}
	case "sitem":
		if !reflect.DeepEqual(it, a.items) {
			bad = simrt.Sprintf("got %+v, the answer was %+v", it, a.items)
		}
	case "sdump":
		if len(cl.entries) != len(a.dump) {
			bad = simrt.Sprintf("delivered %d entries of %d", len(cl.entries), len(a.dump))
		}
	}
	if bad != "" {
		w.violate("C15", "wrong-data", desc+": "+trunc(bad, 1500))
	}
}

// onStatWire attributes a statistics command to the call in progress.
func (w *World) onStatWire(cmd *Cmd) {
	if sc := w.statConns[cmd.conn]; sc != nil && sc.cur != nil {
		sc.cur.cmds = append(sc.cur.cmds, cmd)
	}
}

func (w *World) runStats() {
	w.stat = &statsWorld{answers: map[*Cmd]*statAns{}}
	w.statConns = map[*Conn]*statClient{}
	for i := range w.plan.Scripts {
		ops := w.plan.Scripts[i]
		w.active++
		simrt.GoHarness(simrt.Sprintf("stats%d", i), func() {
			var sc *statClient
			for _, o := range ops {
				switch o.K {
				case "snew":
					sc = w.newStatClient()
				case "sclose":
					if sc != nil {
						w.do("stats.Client.Close", nil, func() { _ = sc.c.Close() })
						sc = nil
					}
				case "sleep":
					simrt.Sleep(o.D)
				default:
					if sc == nil {
						sc = w.newStatClient()
					}
					sc.call(o.K)
				}
			}
			if sc != nil {
				w.do("stats.Client.Close", nil, func() { _ = sc.c.Close() })
			}
			w.joinEnd()
			w.active--
			if w.active == 0 {
				w.doneQ.WakeAll()
			}
		})
	}
	w.waitScripts()
	simrt.Sleep(60 * sec)
	if w.open > 0 {
		w.violate("C15", "leak", simrt.Sprintf("%d connections are open after all statistics clients were closed", w.open))
	}
}
