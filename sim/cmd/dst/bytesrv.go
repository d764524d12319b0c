package main

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// A server that may send anything (C14).

func (w *World) bytesOn() bool { return w.plan.Srv.Mode == "bytes" && !w.bytesEnd }

var byteTokens = []string{
	"HD", "VA", "EN", "NS", "EX", "NF", "OK", "MN", "SERVER_ERROR", "CLIENT_ERROR", "ERROR", "VERSION", "STAT", "END", "STORED", "VALUE",
	"\r\n", "\r\n", "\r\n", "\r", "\n", " ", " ", "  ", "c", "W", "X", "Z", "c1", "c18446744073709551616", "0", "1", "2", "3", "7", "12", "64", "100",
	"\x00", "\xff", "V", "VA ", "VA 0\r\n\r\n", "VA 1\r\nx\r\n", "VA 5 c", "VA c\r\n", "S", "SE", "C", "CL", "VE", "VERSIO", "SERVER_ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR \r\n",
	"HD c\r\n", "HD cW\r\n", "EN x\r\n", "OK\r\n", "HD\r\n", "EN\r\n", "VERSION\r\n", "VERSION \r\n", "O\r\n", "\r\n\r\n", "VA 2\r\nab", "abcdef", "-1", "+1", "\t",
}

var hugeNums = []string{"99999999999", "4294967296", "18446744073709551615", "18446744073709551614", "18446744073709551616", "18446744073709551617", "9223372036854775807", "9223372036854775808",
	"1152921504606846976", "99999999999999999999999999999999", "281474976710656", "00000000000000000000000000001", "2147483648000", "36893488147419103233"}

// bytesGen produces one burst of arbitrary bytes.
func bytesGen(r *simrt.RNG, good []byte) []byte {
	switch r.Intn(12) {
	case 0, 1: // a correct reply
		return good
	case 2: // a prefix of it
		return good[:r.Intn(len(good)+1)]
	case 3, 4: // damaged
		b := append([]byte(nil), good...)
		for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
			i := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[i] = byte(r.U64())
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b = append(b[:i+1], b[i:]...)
			case 3:
				b[i] = " \r\ncVAHDW0129"[r.Intn(13)]
			}
		}
		return b
	case 5: // random bytes
		b := make([]byte, r.Intn(40))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 6: // a very large size
		s := "VA " + hugeNums[r.Intn(len(hugeNums))]
		if r.Intn(2) == 0 {
			s += " c5 W"
		}
		return []byte(s + "\r\nabc\r\n")
	case 7: // twice
		return append(append([]byte(nil), good...), good...)
	case 8:
		return nil
	default: // tokens
		var b strings.Builder
		for k := 1 + r.Intn(8); k > 0; k-- {
			b.WriteString(byteTokens[r.Intn(len(byteTokens))])
		}
		if r.Intn(2) == 0 {
			b.WriteString("\r\n")
		}
		return []byte(b.String())
	}
}

func (w *World) bytesAccept(c *Conn) {
	if w.bytesEnd {
		return
	}
	c.bytes = true
	c.faulted = true
	w.anyFault = true
	count(&w.fired, "arbitrary_bytes")
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0xacc, uint64(c.id)))
	if r.Intn(3) == 0 { // unsolicited bytes
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			b := bytesGen(&r, []byte("HD\r\n"))
			simrt.After(int64(r.Intn(1+int(w.plan.P["unsol"]))), func() {
				if !c.srvClosed && len(b) > 0 {
					w.deliver(c, b)
				}
			})
		}
	}
}

// bytesReply is what the server sends in answer to a command.
func (w *World) bytesReply(c *Conn, cmd *Cmd) []byte {
	if !c.bytes {
		if w.stat != nil {
			return []byte("END\r\n")
		}
		return w.srvApply(c, cmd)
	}
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0xb17e5, uint64(c.id), uint64(cmd.idx)))
	var good []byte
	if w.stat != nil {
		good = w.statAnswer(c, cmd).raw
	} else {
		good = w.srvRandom(c, cmd)
	}
	cmd.exp = Exp{Type: "ANY"}
	pm := int(w.plan.P["goodpm"])
	b := good
	if r.Intn(1000) >= pm {
		b = bytesGen(&r, good)
		w.probe("odd_reply")
	}
	if r.Intn(1000) < int(w.plan.P["endpm"]) {
		if len(b) > 0 {
			w.deliver(c, b)
		}
		if r.Intn(2) == 0 {
			w.fin(c)
		} else {
			w.resetAfter(c)
		}
		return nil
	}
	w.tr("server: conn%d %s -> %q", c.id, trunc(cmd.Line, 40), trunc(string(b), 80))
	return b
}

// bytesBehave makes the server behave: connections with odd bytes are closed.
func (w *World) bytesBehave() {
	w.bytesEnd = true
	for _, c := range w.conns {
		if !c.closed && !c.srvClosed {
			w.fin(c)
		}
	}
	w.lastFaultT = simrt.Now()
	_ = fmt.Sprint
}
