package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// The udp world: clients send datagrams which the network loses, duplicates, delays and reorders; some are malformed or
// too big. Framed connections may share the server.
func init() {
	worlds["udp"] = func(r *Run) {
		e := newEnv(r)
		e.build()
		zsim.UDPNet = zsim.UDPProfile{Loss: float64(r.pi("rloss")) / 100, Dup: float64(r.pi("rdup")) / 100, LatMax: time.Duration(r.pi("rlat")) * ms}
		e.start()
		e.udp()
	}
	gens["C16"] = append(gens["C16"], wgen{10, genUDP})
	gens["C06"] = append(gens["C06"], wgen{2, genUDP})
	gens["C03"] = append(gens["C03"], wgen{1, genUDP})
	gens["C04"] = append(gens["C04"], wgen{1, genUDP})
}

func isUDP(network string) bool { return network == "udp" || network == "udp4" || network == "udp6" }

func (e *Env) udpBuf(k int) int {
	if n := e.r.pi("udpbuf"); n > 0 && e.r.plan.Cfg.Addrs[k].Mode == "udp" {
		return n
	}
	return 4096
}

func (e *Env) udp() {
	r := e.r
	addrs := r.plan.Cfg.Addrs
	base := len(zsim.Census())
	stopAt := never
	clients := 0
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() {
			defer func() { clients++ }()
			pl := r.plan.Conns[i]
			if pl.Start > 0 {
				zsim.SleepFor(time.Duration(pl.Start) * ms)
			}
			k := pl.Addr % len(addrs)
			if isUDP(addrs[k].Net) {
				e.udpClient(i, k)
				return
			}
			cn := e.open(i, "")
			if cn.c == nil {
				cn.opsDone, cn.readDone = true, true
				return
			}
			zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, pl.Read) })
			e.play(cn)
		})
	}
	zsim.GoNamed("admin", func() {
		for _, op := range r.plan.Admin {
			if op.D > 0 {
				zsim.SleepFor(time.Duration(op.D) * ms)
			}
			if op.K == "stop" && !e.stopped {
				e.stopped = true
				stopAt = zsim.NowD()
				for _, cn := range e.conns {
					cn.srvClose = cn.srvClose || op.X == 1
				}
				e.closedAll = op.X == 1
				if err := e.srv.Stop(op.X == 1); err != nil {
					r.failP([]string{"C12", "C16"}, "stop-failed", "stopping a running server failed: %v", err)
				}
				r.cov("stop")
			}
		}
	})
	due := func(s *sent) bool { return s.dv != nil && s.dv.Done && s.dv.At < stopAt }
	quiet := func() bool {
		if clients < len(r.plan.Conns) || e.active > 0 {
			return false
		}
		for _, cn := range e.conns {
			if cn.udp {
				for _, s := range cn.sent {
					if s.route && due(s) && s.ex == nil {
						return false
					}
				}
			} else if !cn.opsDone || e.outstanding(cn) != "" {
				return false
			}
		}
		return true
	}
	zsim.WaitUntil(30*time.Second, quiet)
	zsim.SleepFor(time.Duration(r.pi("span"))*ms + 300*ms)
	zsim.WaitUntil(30*time.Second, quiet)
	zsim.Settle()
	if d := e.sleeps(); d > 0 {
		for _, cn := range e.conns {
			for _, s := range cn.sent {
				if cn.udp && s.route && due(s) && s.ex == nil {
					r.fail("C16", "lost", "client %d: a delivered datagram is not handled, although nothing but other handlers that sleep is going on: %s", cn.i, short(s.raw))
				}
			}
		}
		zsim.WaitUntil(d, quiet)
		zsim.Settle()
		r.cov("slow-udp")
	}
	sent := map[string][]frame{}
	for k, a := range addrs {
		if !isUDP(a.Net) {
			continue
		}
		p := e.sockets[k]
		if p == nil {
			r.fail("C16", "no-socket", "the server does not serve %s", addrAt(addrs, k))
			return
		}
		if p.IsClosed() && !e.stopped {
			r.fail("C16", "socket-closed", "the server's socket was closed although nobody stopped the server")
		}
		for _, o := range p.Out {
			f := parseFrame(o.Data)
			sent[o.To] = append(sent[o.To], f)
		}
	}
	for _, cn := range e.conns {
		if !cn.udp {
			if stopAt == never {
				e.checkDispatch(cn)
				e.checkReplies(cn)
			}
			continue
		}
		for _, s := range cn.sent {
			if s.route && due(s) && s.ex == nil {
				r.failP([]string{"C16", "C06"}, "lost", "client %d: a delivered datagram was not handled: %s", cn.i, short(s.raw))
			}
			if s.ex != nil {
				if !s.ex.complete() {
					r.failP([]string{"C04", "C16"}, "incomplete", "client %d: the chain of message id %d stopped at %d of %v", cn.i, s.ex.f.id, s.ex.pos, s.ex.exp)
				}
				if s.dv == nil || !s.dv.Done {
					r.fail("C16", "handled-early", "client %d: a datagram was handled before it was delivered", cn.i)
				}
			}
		}
		cn.got = sent[cn.addr]
		if stopAt != never {
			// replies may fail once the socket is closed
			for _, w := range cn.replies {
				if w.err != nil {
					cn.srvClose = true
				}
			}
		}
		e.checkReplies(cn)
		delete(sent, cn.addr)
	}
	for to, fs := range sent {
		r.fail("C16", "foreign-address", "%d replies were sent to %s, from where nothing came", len(fs), to)
	}
	// the end
	for _, cn := range e.conns {
		if cn.c != nil && (cn.ended == "" || cn.ended == "closew") {
			if cn.ended == "" {
				cn.ended = "close"
			}
			cn.c.Close()
		}
	}
	zsim.SleepFor(2 * time.Second)
	zsim.Settle()
	if left := zsim.Census(); len(left) > base {
		r.fail("C16", "goroutine-leak", "everything was handled but %d server goroutines are left (%d before): %s", len(left), base, left[len(left)-1].Desc)
	}
	for _, cn := range e.conns {
		if !cn.udp {
			e.checkEnded(cn)
		}
	}
	if !e.stopped {
		e.stopped = true
		if err := e.srv.Stop(r.pi("stopall") > 0); err != nil {
			r.failP([]string{"C12", "C16"}, "stop-failed", "stopping a running server failed: %v", err)
		}
	}
	zsim.SleepFor(2 * time.Second)
	zsim.Settle()
	for k, a := range addrs {
		if !isUDP(a.Net) {
			continue
		}
		if s := e.served[a.Net+addrAt(addrs, k)]; !s.done {
			r.fail("C16", "not-stopped", "the serving call of %s does not return after Stop", addrAt(addrs, k))
		}
		if p := e.sockets[k]; !p.IsClosed() {
			r.fail("C16", "not-stopped", "the socket of %s is open after Stop", addrAt(addrs, k))
		}
	}
	e.checkCensus("C16", 0)
}

// udpClient runs a client with a socket of its own.
func (e *Env) udpClient(i, k int) {
	r := e.r
	pl := r.plan.Conns[i]
	cn := &conn{i: i, pl: pl, batches: map[int][]*sent{}, udp: true, onConn: 1}
	me := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(1+i)), Port: 9000 + i}
	cn.addr = me.String()
	e.conns = append(e.conns, cn)
	to := udpTo(addrAt(r.plan.Cfg.Addrs, k))
	sock, err := zsim.ListenPacket("udp", cn.addr)
	if err != nil {
		panic(err)
	}
	zsim.GoNamed(fmt.Sprint("reader ", i), func() {
		buf := make([]byte, 70000)
		for {
			n, from, err := sock.ReadFrom(buf)
			if err != nil {
				return
			}
			if f := parseFrame(buf[:n]); !f.ok {
				r.fail("C16", "broken-frame", "client %d received a datagram that is not one frame: %s", i, short(buf[:n]))
			}
			if from.(*net.UDPAddr).Port != to.(*net.UDPAddr).Port {
				r.fail("C16", "from", "client %d received a reply from %v instead of %v", i, from, to)
			}
			r.cov("reply-datagram")
		}
	})
	lim := e.udpBuf(k)
	for j := range pl.Ops {
		op := &pl.Ops[j]
		if op.D > 0 {
			zsim.SleepFor(time.Duration(op.D) * ms)
		}
		var raw, dg []byte
		var proto *sent
		switch op.K {
		case "bytes":
			dg, _ = hex.DecodeString(op.Hex)
			r.cov("attack")
			f, _ := parseStream(dg)
			if len(f) == 0 || len(f[0].raw) > lim {
				proto = nil // nothing to dispatch in it
			} else {
				proto = &sent{raw: f[0].raw, op: &Op{}}
			}
		case "val", "raw", "body", "stuff", "hbeat", "url", "fit":
			proto = e.messages(cn, op, -1, 0)
			raw = proto.raw
			dg = append(append([]byte(nil), raw...), randBytes(uint64(op.T)+99, op.Tail)...)
			if op.S == "two" {
				dg = append(dg[:len(raw)], raw...)
			}
			if len(raw) > lim {
				r.cov("oversized")
				proto = nil
			} else if len(raw) == lim {
				r.cov("fits-exactly")
			}
		default:
			continue
		}
		if len(dg) > 65507 {
			continue
		}
		cps := op.Cp
		if len(cps) == 0 {
			zsim.Fault("datagram-lost")
		}
		if len(cps) > 1 {
			zsim.Fault("datagram-duplicated")
		}
		for _, d := range cps {
			if d > 0 {
				zsim.Fault("datagram-delayed")
			}
			var s *sent
			if proto != nil {
				c := *proto
				s = &c
				cn.sent = append(cn.sent, s)
			}
			dv := zsim.SendDatagram(me, to, dg, time.Duration(d)*ms)
			if s != nil {
				s.dv = dv
			}
		}
	}
	cn.opsDone = true
}

// ---- generator ---------------------------------------------------------------------------------------------------

func genUDP(g *Gen) *Plan {
	p := &Plan{Kind: "udp"}
	c := &p.Cfg
	g.ambient(c)
	c.MaxByte = 0
	c.TLS = false
	c.P = map[string]int{}
	if g.P(0.3) {
		c.HB = g.pickI(100, 500, 2000)
		c.HBID = g.pickID(1392, 77)
		c.HBPlain = false
	}
	if g.P(0.2) {
		c.Auth = g.pickI(100, 500)
		c.AuthID = g.pickID(1393, 88)
	}
	if g.P(0.1) {
		c.OnMsg = true
	}
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, g.P(0.3))
	ls := labels(p.Reg)
	if g.P(0.3) {
		c.P["udpbuf"] = g.pickI(64, 200, 1000, 4096, 8000, 70000)
	}
	if g.P(0.3) {
		c.P["rloss"], c.P["rdup"], c.P["rlat"] = g.pickI(0, 10, 50), g.pickI(0, 10, 50), g.pickI(0, 5, 40)
	}
	if g.P(0.5) {
		c.P["stopall"] = 1
	}
	g.slow = g.P(0.04)
	n := g.pickI(1, 1, 1, 2)
	for i := 0; i < n; i++ {
		c.Addrs = append(c.Addrs, Addr{Mode: g.pickS("udp", ""), Net: g.pickS("udp", "udp", "udp4", "udp6")})
	}
	framed := false
	if c.HB == 0 && c.Auth == 0 && g.P(0.25) {
		framed = true
		c.Addrs = append(c.Addrs, Addr{Net: g.netKind()})
	}
	nconn := g.Range(1, 4)
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 5, 50), Addr: g.Intn(len(c.Addrs)), Name: uname(i)}
		if framed && cp.Addr == len(c.Addrs)-1 {
			cp = g.witness(p, ids, urls, ls, i, nconn, 2000)
			cp.Addr = len(c.Addrs) - 1
			p.Conns = append(p.Conns, cp)
			continue
		}
		lim := 4096
		if x := c.P["udpbuf"]; x > 0 && c.Addrs[cp.Addr].Mode == "udp" {
			lim = x
		}
		evil := 0.15
		if g.prop == "C06" {
			evil = 0.5
		}
		if g.slow && g.P(0.3) && len(ids) > 0 && i == 0 {
			// a crowd of handlers that take their time
			id := ids[g.Intn(len(ids))]
			for k := g.pickI(10, 40, 70, 150, 300); k > 0; k-- {
				op := Op{K: "raw", ID: id, T: g.T(), N: g.Range(0, 20), Cp: []int{g.pickI(0, 0, 0, 5)}, Sl: map[string]int{}}
				for _, l := range ls {
					if l[0] == 'H' || l == "AUTH" || l == "onmsg" {
						op.Sl[l] = 120000
					}
				}
				cp.Ops = append(cp.Ops, op)
			}
		}
		for k := g.Range(1, 8); k > 0; k-- {
			var op Op
			if g.P(evil) {
				b := g.evil(ids)
				if g.P(0.2) && len(b) > 1 {
					b = b[:g.Intn(len(b))]
				}
				op = Op{K: "bytes", Hex: hex.EncodeToString(b), T: g.T()}
			} else {
				op = g.message(p, ids, urls, ls, tweak{sleep: 0.3, abort: 0.15, reply: 0.7, url: 0.2, rmax: 2}, nconn)
				op.CS = 0
				if op.S == "online" {
					op.S = ""
				}
				if op.N > 5000 {
					op.N = 700
				}
				if lim < 200 && g.P(0.8) {
					op.N, op.H = g.Intn(20), 0
				}
				for j := range op.R {
					if op.R[j].M == "user" || op.R[j].M == "conn" {
						op.R[j] = Rep{M: "Reply", ID: 3, N: 9}
					}
					if op.R[j].N > 5000 {
						op.R[j].N = 10
					}
				}
				if g.P(0.12) {
					op.K, op.N, op.H = "fit", lim-4+g.pickI(-1, 0, 0, 1, 100), 0
					op.M, op.URL = "", ""
					if len(ids) > 0 {
						op.ID = ids[g.Intn(len(ids))]
					}
					if op.N > 60000 {
						op.N = 60000
					}
				}
				if g.P(0.2) {
					op.Tail = g.pickI(1, 3, 4, 16, 50, 3000)
				} else if g.P(0.1) && op.S == "" {
					op.S = "two"
				}
			}
			op.D = g.pickI(0, 0, 0, 1, 20)
			op.J = false
			m := g.pickI(1, 1, 1, 1, 0, 2, 3)
			for ; m > 0; m-- {
				op.Cp = append(op.Cp, g.pickI(0, 0, 0, 1, 7, 30))
			}
			cp.Ops = append(cp.Ops, op)
		}
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.2) {
		p.Admin = append(p.Admin, Op{K: "stop", X: g.Intn(2), D: g.pickI(0, 1, 5, 20, 60)})
	}
	return p
}

var _ = bytes.Equal
var _ = tcpx.PIPED
