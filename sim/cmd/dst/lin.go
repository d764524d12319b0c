package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"verifsim/simrt"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/anishathalye/porcupine"
)

// linearizability of the client-visible history, checked per key with porcupine.

type linIn struct {
	kind string // get set del
	val  string
	cas  uint64
	viv  bool
	inv  bool
	c    bool // CAS requested
	unk  bool // failed: effect unknown
}

type linOut struct {
	typ   string
	data  string
	cas   uint64
	flags string
}

// linState is one key. cas 0 means that the CAS value of the item is not known yet.
type linState struct {
	exists, stale, won, viv bool
	val                     string
	cas                     uint64
}

func linStep(st linState, in linIn, out linOut) (bool, linState) {
	switch in.kind {
	case "get":
		if !st.exists {
			if !in.viv {
				return in.unk || out.typ == "EN", st
			}
			n := linState{exists: true, viv: true, won: true}
			if in.unk {
				return true, n
			}
			n.cas = out.cas
			return out.typ == "VA" && out.data == "" && out.flags == "W", n
		}
		n := st
		fl := ""
		if st.stale {
			if !st.won {
				n.won = true
				fl = "WX"
			} else {
				fl = "XZ"
			}
		} else if st.viv && st.won {
			fl = "Z"
		}
		if in.unk {
			return true, n
		}
		if out.typ != "VA" || out.data != st.val || out.flags != fl {
			return false, st
		}
		if in.c {
			if st.cas != 0 && st.cas != out.cas {
				return false, st
			}
			n.cas = out.cas
		}
		return true, n
	case "set":
		ok := linState{exists: true, val: in.val}
		if in.cas == 0 {
			return in.unk || out.typ == "HD", ok
		}
		if !st.exists {
			return in.unk || out.typ == "NF", st
		}
		may := st.cas == 0 || st.cas == in.cas
		if in.unk {
			if may {
				return true, ok
			}
			return true, st
		}
		if out.typ == "HD" {
			return may, ok
		}
		return out.typ == "EX" && st.cas != in.cas, st
	case "del":
		if !st.exists {
			return in.unk || out.typ == "NF", st
		}
		done := linState{}
		if in.inv {
			done = linState{exists: true, val: st.val, stale: true, viv: st.viv}
		}
		if in.cas == 0 {
			return in.unk || out.typ == "HD", done
		}
		may := st.cas == 0 || st.cas == in.cas
		if in.unk {
			if may {
				return true, done
			}
			return true, st
		}
		if out.typ == "HD" {
			return may, done
		}
		return out.typ == "EX" && st.cas != in.cas, st
	}
	return false, st
}

func (w *World) checkLin() {
	model := porcupine.Model{
		Init: func() interface{} { return linState{} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			ok, n := linStep(st.(linState), in.(linIn), out.(linOut))
			return ok, n
		},
		Equal: func(a, b interface{}) bool { return a.(linState) == b.(linState) },
	}
	byKey := map[string][]*OpRec{}
	for _, op := range w.opList {
		if op.invalid() || op.mayFlush == 0 || op.kind == "ver" || op.kind == "fa" {
			continue
		}
		lk, _ := splitKey(op.key)
		byKey[lk] = append(byKey[lk], op)
	}
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var end int64 = 1 << 60
	for _, k := range keys {
		var hist []porcupine.Operation
		unk := 0
		for _, op := range byKey[k] {
			in := linIn{cas: op.cas}
			switch op.kind {
			case "get", "fget":
				in = linIn{kind: "get", viv: op.op.N > 0, c: op.op.B}
			case "set":
				in.kind, in.val = "set", string(op.val)
			case "del":
				in.kind, in.inv = "del", op.op.I
			}
			h := porcupine.Operation{ClientId: op.id, Call: int64(op.mayFlush), Return: int64(op.retSeq)}
			var out linOut
			if !op.done || op.err != nil {
				in.unk = true
				h.Return = end
				if in.kind == "get" && !in.viv && !in.inv {
					// a failed read may only take a recache token
				}
				unk++
			} else {
				switch op.kind {
				case "get", "fget":
					out.typ = map[memcache.MGetResponseType]string{memcache.MGetResponseTypeVA: "VA", memcache.MGetResponseTypeEN: "EN", memcache.MGetResponseTypeHD: "HD"}[op.get.Type]
					out.data = op.ret
					out.cas = op.get.CAS
					if op.get.Flags&memcache.MGetFlagW != 0 {
						out.flags += "W"
					}
					if op.get.Flags&memcache.MGetFlagX != 0 {
						out.flags += "X"
					}
					if op.get.Flags&memcache.MGetFlagZ != 0 {
						out.flags += "Z"
					}
				case "set":
					out.typ = map[memcache.MSetResponseType]string{memcache.MSetResponseTypeHD: "HD", memcache.MSetResponseTypeEX: "EX", memcache.MSetResponseTypeNF: "NF", memcache.MSetResponseTypeNS: "NS"}[op.set.Type]
				case "del":
					out.typ = map[memcache.MDelResponseType]string{memcache.MDelResponseTypeHD: "HD", memcache.MDelResponseTypeEX: "EX", memcache.MDelResponseTypeNF: "NF"}[op.del.Type]
				}
			}
			h.Input, h.Output = in, out
			hist = append(hist, h)
		}
		w.linOps += len(hist)
		switch porcupine.CheckOperationsTimeout(model, hist, 10*time.Second) {
		case porcupine.Illegal:
			var sb strings.Builder
			sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
			for i, h := range hist {
				if i > 60 {
					sb.WriteString("...\n")
					break
				}
				fmt.Fprintf(&sb, "  [%d,%d] call %d: %+v -> %+v\n", h.Call, h.Return, h.ClientId, h.Input, h.Output)
			}
			w.violate("C05", "not-linearizable", simrt.Sprintf("the history of key %q is not linearizable:\n%s", k, sb.String()))
		case porcupine.Unknown:
			w.probe("lin_timeout")
		default:
			w.probe("lin_keys_ok")
		}
	}
}
