package main

import (
	"encoding/json"

	"verifsim/simrt"
)

const (
	us  = int64(1000)
	ms  = 1000 * us
	sec = 1000 * ms
)

// Plan is everything that determines one simulated execution, except the
// scheduler and network choices, which come from Seed or from recorded tapes.
type Plan struct {
	Prop    string           `json:"prop"`
	Profile string           `json:"profile"`
	Index   uint64           `json:"index"`
	Seed    uint64           `json:"seed"`
	Cfg     Cfg              `json:"cfg"`
	Net     NetCfg           `json:"net"`
	Srv     SrvCfg           `json:"srv"`
	Sched   simrt.SchedCfg   `json:"sched"`
	Scripts [][]Op           `json:"scripts"`
	Faults  []Fault          `json:"faults,omitempty"`
	P       map[string]int64 `json:"p,omitempty"` // profile parameters
}

// Cfg is the client configuration. Zero values leave the option unset.
type Cfg struct {
	Conns   int    `json:"conns"`
	Buf     int    `json:"buf,omitempty"`
	WL      int    `json:"wl,omitempty"`
	MB      int    `json:"mb,omitempty"`
	Retry   int64  `json:"retry,omitempty"`
	Health  int64  `json:"health,omitempty"`
	RTO     int64  `json:"rto,omitempty"`
	WTO     int64  `json:"wto,omitempty"`
	Auth    bool   `json:"auth,omitempty"`
	User    string `json:"user,omitempty"`
	Pass    string `json:"pass,omitempty"`
	DefLog  bool   `json:"deflog,omitempty"` // use the library's default dial error logger
	KeepAl  int64  `json:"keepalive,omitempty"`
	ConnCfg bool   `json:"conncfg,omitempty"` // dial function through WithNetConnOptions
	Dial    int    `json:"dial,omitempty"`    // 0 dial function with plain connections, 1 with TCP connections, 2 the library's default (net.DialTimeout)
	OptSeed uint64 `json:"optseed,omitempty"` // order of the options
	Decoys  bool   `json:"decoys,omitempty"`  // options are first given other values
}

func (c *Cfg) wl() int {
	if c.WL == 0 {
		return 500
	}
	return c.WL
}
func (c *Cfg) mb() int {
	if c.MB == 0 {
		return 100
	}
	return c.MB
}
func (c *Cfg) rto() int64 {
	if c.RTO == 0 {
		return sec
	}
	return c.RTO
}
func (c *Cfg) wto() int64 {
	if c.WTO == 0 {
		return sec
	}
	return c.WTO
}
func (c *Cfg) keepAlive() int64 {
	if c.KeepAl == 0 {
		return 30 * sec
	}
	return c.KeepAl
}
func (c *Cfg) retry() int64 {
	if c.Retry == 0 {
		return 10 * sec
	}
	return c.Retry
}
func (c *Cfg) health() int64 {
	if c.Health == 0 {
		return 15 * sec
	}
	return c.Health
}

const connTO = 10 * sec // the library's dial timeout (not configurable)

// NetCfg describes the simulated network.
type NetCfg struct {
	Lat     int64 `json:"lat"`      // base one-way latency
	Jit     int64 `json:"jit"`      // latency jitter
	JitPM   int   `json:"jit_pm"`   // how often a segment has jitter
	SplitPM int   `json:"split_pm"` // how often a segment is split further
	SplitSz int   `json:"split_sz"` // typical size of a piece
	ReadPM  int   `json:"read_pm"`  // how often Read returns less than available
	Win     int   `json:"win"`      // client-to-server window
	RWin    int   `json:"rwin"`     // unread response bytes after which the server stops reading
	Proc    int64 `json:"proc"`     // server processing time per command
	ProcPM  int   `json:"proc_pm"`
	DialLat int64 `json:"dial_lat"`
	Refuse  int   `json:"refuse,omitempty"`    // how failing dials fail
	CloseEr int   `json:"close_err,omitempty"` // Close of a connection returns an error: 1 always, 2 after another error
}

// SrvCfg describes the simulated server.
type SrvCfg struct {
	Mode    string `json:"mode"` // kv, rnd, bytes
	ErrPM   int    `json:"err_pm,omitempty"`
	BadPM   int    `json:"bad_pm,omitempty"`
	HitPM   int    `json:"hit_pm,omitempty"`
	RepMax  int    `json:"rep_max,omitempty"`
	Persist bool   `json:"persist,omitempty"` // data survives a crash
}

// Op is one step of a client script.
type Op struct {
	K   string `json:"k"`
	ID  int    `json:"id,omitempty"`
	P   int    `json:"p,omitempty"`
	R   int    `json:"r,omitempty"` // id of the operation referred to
	Key string `json:"key,omitempty"`
	N   uint32 `json:"n,omitempty"`
	C   uint64 `json:"c,omitempty"`
	CF  int    `json:"cf,omitempty"` // take CAS from the result of this operation
	T   uint32 `json:"t,omitempty"`
	I   bool   `json:"i,omitempty"`
	B   bool   `json:"b,omitempty"`
	L   int    `json:"l,omitempty"`
	VK  int    `json:"vk,omitempty"`
	D   int64  `json:"d,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	On   string `json:"on"` // time, cmd, gcmd, write, read, dial
	Conn int    `json:"conn"`
	N    int64  `json:"n"`
	Do   string `json:"do"`
	Dur  int64  `json:"dur,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
	used bool
}

func (f *Fault) String() string {
	return simrt.Sprintf("%s@%s(conn=%d,n=%d,dur=%d,arg=%d)", f.Do, f.On, f.Conn, f.N, f.Dur, f.Arg)
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// value bytes of operation id
func valueOf(id, n, kind int) []byte {
	b := make([]byte, n)
	head := simrt.Sprintf("<%d>", id)
	switch kind {
	case 1: // looks like protocol text
		pat := simrt.Sprintf("%s\r\nHD\r\nVA 3 c1\r\nEN\r\nSERVER_ERROR x\r\nEND\r\n", head)
		for i := range b {
			b[i] = pat[i%len(pat)]
		}
	case 2: // binary
		r := simrt.NewRNG(simrt.Mix(uint64(id), 0xb1a))
		for i := range b {
			b[i] = byte(r.U64())
		}
		copy(b, head)
	default:
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz"[(i+id)%26]
		}
		copy(b, head)
	}
	return b
}
