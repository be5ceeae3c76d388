package main

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// The administrator of the life world stops, starts and restarts the server while clients are at work. Between two steps
// everything is probed: every address, the old connections and new ones.

// stopRec is a stop that succeeded.
type stopRec struct {
	all              bool
	beginAt, endAt   time.Duration
	beginSeq, endSeq int
	startSeq         int // when the server was told to serve again
	vague            int // connections accepted after this one may be old or new (a restart without a function in between)
}

// stopBound is how long the server may take to close the connections after a close-all stop.
const stopBound = time.Second

const probeBound = 3 * time.Second

// stopFor is the stop that had to close the connection, nil if there was none.
func (e *Env) stopFor(cn *conn) *stopRec {
	if cn.c == nil || !cn.c.Accepted() {
		return nil
	}
	for _, s := range e.stops {
		if s.all && s.endSeq >= cn.c.AcceptSeq() {
			return s
		}
	}
	return nil
}

func (e *Env) admin() {
	r := e.r
	for i := range r.plan.Admin {
		op := &r.plan.Admin[i]
		if op.D > 0 {
			zsim.SleepFor(time.Duration(op.D) * ms)
		}
		e.adminBusy = op.K
		switch op.K {
		case "stop":
			if e.stopped && r.pi("probe") == 0 {
				break
			}
			e.stop([]bool{op.X&1 == 1}, op.S)
		case "afault":
			e.acceptFault(op)
		case "dgram":
			if as := e.addrs(); !e.stopped && isUDP(as[op.X%len(as)].Net) {
				e.probeNew(op.X%len(as), "a stall")
			}
		case "stops":
			var fl []bool
			for k := 0; k < 2+op.CG; k++ {
				fl = append(fl, op.X>>uint(k)&1 == 1)
			}
			e.stop(fl, "")
		case "start":
			if !e.stopped {
				break
			}
			e.startAgain(func() error { return e.srv.Start() }, "start")
		case "again": // start what runs, restart what is stopped: an error, and nothing changes
			if r.pi("probe") == 0 {
				break
			}
			if !e.stopped {
				if err := e.srv.Start(); err == nil {
					r.fail("C13", "start-running", "starting a running server reported success")
				}
				zsim.SleepFor(5 * ms)
				zsim.Settle()
				r.cov("start-running")
				for k := range e.addrs() {
					e.probeNew(k, "a Start of the running server")
				}
				e.probeOld([]string{"C13"})
				break
			}
			ran := false
			if err := e.srv.Restart(op.X&1 == 1, func() { ran = true }); err == nil || ran {
				r.failP([]string{"C13", "C12"}, "restart-stopped", "restarting a stopped server reported %v, its beforeStart function ran: %v", err, ran)
				break
			}
			r.cov("restart-stopped")
			if len(e.stops) > 0 {
				e.notAccepting(e.stops[len(e.stops)-1], "after Stop had returned and Restart had been refused")
				e.probeOld([]string{"C13", "C12"})
			}
		case "restart":
			if e.stopped {
				e.startAgain(func() error { return e.srv.Start() }, "start")
				break
			}
			var rec *stopRec
			var hooks []func()
			for k := 0; k < op.CG; k++ {
				hooks = append(hooks, func() {
					rec.end()
					e.notAccepting(rec, "inside the beforeStart function of a restart")
					zsim.SleepFor(time.Duration(op.N) * ms)
					rec.startSeq = zsim.Seq()
				})
			}
			e.startAgain(func() (err error) {
				e.inCallback(op.S, func() {
					rec = e.beginStop(op.X&1 == 1)
					if op.CG == 0 {
						rec.vague = rec.beginSeq
						rec.startSeq = 0
					}
					err = e.srv.Restart(op.X&1 == 1, hooks...)
					rec.end()
				})
				return err
			}, "restart")
		}
		e.adminBusy = ""
	}
}

func (e *Env) beginStop(all bool) *stopRec {
	e.stopped = true
	rec := &stopRec{all: all, beginAt: zsim.NowD(), beginSeq: zsim.Seq(), endSeq: math.MaxInt64, endAt: math.MaxInt64, startSeq: math.MaxInt64}
	e.stops = append(e.stops, rec)
	e.closedAll = e.closedAll || all
	e.r.cov(map[bool]string{true: "stop-all", false: "stop"}[all])
	return rec
}

func (s *stopRec) end() {
	if s.endSeq == math.MaxInt64 {
		s.endAt, s.endSeq = zsim.NowD(), zsim.Seq()
	}
}

// inCallback lets a handler, a connect or a close callback of some connection call f, and returns when f has returned.
func (e *Env) inCallback(where string, f func()) {
	if where == "" {
		f()
		return
	}
	r := e.r
	as := e.addrs()
	var ks []int
	for k, a := range as {
		if !isUDP(a.Net) && a.Mode != "raw" {
			ks = append(ks, k)
		}
	}
	op, ok := e.probeOp()
	if !ok || len(ks) == 0 {
		f()
		return
	}
	done := false
	mine := &callback{where: where, f: func() { f(); done = true }}
	e.pending = mine
	k := ks[e.nprobe%len(ks)]
	i := 100 + e.nprobe
	cn := e.openPl(i, &CPlan{Addr: k, once: true}, addrAt(as, k))
	cn.srvClose, cn.opsDone = true, true
	if cn.c != nil {
		zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, "") })
		switch where {
		case "handler":
			e.playOps(cn, []Op{op})
		case "close":
			zsim.WaitUntil(time.Second, func() bool { return cn.c.Accepted() })
			e.playOps(cn, []Op{{K: "close"}})
		}
	}
	zsim.WaitUntil(2*time.Second+r.closeSleep(), func() bool { return e.pending != mine })
	if e.pending == mine {
		e.pending = nil
		f()
		return
	}
	if !zsim.WaitUntil(20*time.Second, func() bool { return done }) {
		r.fail("C12", "stop-stuck", "Stop or Restart called by a %s callback does not return", where)
	}
	r.cov("called-by-" + where)
}

type callback struct {
	where string
	f     func()
}

// called runs what is waiting for a callback.
func (e *Env) called(where string) {
	if p := e.pending; p != nil && p.where == where {
		e.pending = nil
		p.f()
	}
}

// stop calls Stop once or several times at once, on a running or a stopped server.
func (e *Env) stop(fl []bool, where string) {
	r := e.r
	was := e.stopped
	if was {
		where = ""
	}
	if !was && where == "" {
		e.stopped = true
	}
	var won *stopRec
	n, wins := 0, 0
	begin := zsim.NowD()
	beginSeq := zsim.Seq()
	call := func(all bool) {
		if err := e.srv.Stop(all); err == nil {
			wins++
			won = &stopRec{all: all, beginAt: begin, beginSeq: beginSeq, endAt: zsim.NowD(), endSeq: zsim.Seq(), startSeq: math.MaxInt64}
			e.stops = append(e.stops, won)
			e.closedAll = e.closedAll || all
			r.cov(map[bool]string{true: "stop-all", false: "stop"}[all])
		} else if !was && len(fl) == 1 {
			r.fail("C12", "stop-failed", "stopping a running server failed: %v", err)
		}
		n++
	}
	if len(fl) == 1 {
		e.inCallback(where, func() {
			e.stopped = true
			begin, beginSeq = zsim.NowD(), zsim.Seq()
			call(fl[0])
		})
	} else {
		for k := range fl {
			k := k
			zsim.GoNamed("stopper", func() { call(fl[k]) })
		}
		if !zsim.WaitUntil(20*time.Second, func() bool { return n == len(fl) }) {
			r.fail("C12", "stop-stuck", "%d of %d concurrent Stop calls do not return", len(fl)-n, len(fl))
			return
		}
		r.cov("concurrent-stops")
	}
	want := 1
	if was {
		want = 0
		r.cov("stop-while-stopped")
	}
	if wins != want {
		r.fail("C12", "stop-count", "%d Stop calls at once (server running: %v): %d succeeded", len(fl), !was, wins)
	}
	if won != nil && r.pi("probe") > 0 {
		e.notAccepting(won, "after Stop had returned")
		e.probeOld([]string{"C12"})
	}
}

// notAccepting: nothing new is accepted on any address.
func (e *Env) notAccepting(rec *stopRec, when string) {
	r := e.r
	as := e.addrs()
	var cs []*zsim.Conn
	for k, a := range as {
		if isUDP(a.Net) {
			cn, s := e.datagram(k)
			if s != nil {
				zsim.SleepFor(5 * ms)
				zsim.Settle()
				if s.ex != nil {
					r.failP([]string{"C12", "C16"}, "served-stopped", "%s: a datagram sent to %s was handled", when, addrAt(as, k))
				}
				_ = cn
			}
			continue
		}
		c, err := zsim.Connect(a.Net, addrAt(as, k), zsim.DialOpt{Seed: 5})
		if err == nil {
			cs = append(cs, c)
		}
	}
	if len(cs) > 0 {
		zsim.SleepFor(100 * ms)
		zsim.Settle()
	}
	for _, c := range cs {
		if c.Accepted() {
			r.fail("C12", "accepted-stopped", "%s a new connection to %v was accepted", when, c.RemoteAddr())
		}
		c.Close()
	}
}

// addrs are the addresses the server serves.
func (e *Env) addrs() []Addr {
	if a := e.r.plan.Cfg.Addrs; len(a) > 0 {
		return a
	}
	mode := ""
	if e.r.plan.Cfg.Direct {
		mode = "direct"
	}
	return []Addr{{Mode: mode, Net: e.network}}
}

// startAgain starts a stopped server, or restarts it, and waits until all is up.
func (e *Env) startAgain(f func() error, what string) {
	r := e.r
	as := e.addrs()
	if len(e.stops) > 0 && what == "start" {
		e.stops[len(e.stops)-1].startSeq = zsim.Seq()
	}
	err := f()
	if err != nil {
		r.failP([]string{"C13", "C12"}, what+"-failed", "%s failed: %v", what, err)
		return
	}
	e.restarted = true
	up := func() int {
		for k, a := range as {
			if !zsim.Listening(a.Net, addrAt(as, k)) {
				return k
			}
		}
		return -1
	}
	if !zsim.WaitUntil(probeBound, func() bool { return up() < 0 }) {
		k := up()
		r.fail("C13", "not-served", "%v after %s, %s %s is not served again", probeBound, what, as[k].Net, addrAt(as, k))
		return
	}
	zsim.Settle()
	e.stopped = false
	r.cov(what)
	if r.pi("probe") > 0 {
		for k := range as {
			e.probeNew(k, what)
		}
		e.probeOld([]string{"C13", "C12"})
	}
}

// probeID is a message id with a handler of its own.
func (e *Env) probeID() (int32, bool) {
	if e.r.plan.Cfg.OnMsg {
		return 3, true
	}
	for _, g := range e.r.plan.Reg {
		if g.K != "h" || e.r.plan.Cfg.HB > 0 && g.ID == e.chain.hbid || e.chain.authOn && g.ID == e.r.plan.Cfg.AuthID {
			continue
		}
		if c := e.chain.byID[g.ID]; len(c) > 0 && c[len(c)-1] != "HB" && c[len(c)-1] != "AUTH" && c[len(c)-1] != "builtin-hb" {
			return g.ID, true
		}
	}
	return 0, false
}

func (e *Env) probeOp() (Op, bool) {
	id, ok := e.probeID()
	e.nprobe++
	return Op{K: "raw", ID: id, N: 9, T: 1000000 + e.nprobe, R: []Rep{{M: "JSON", ID: 5, N: 3}}}, ok
}

// probed: the client sends a request and waits for the answer. It returns what is missing.
func (e *Env) probed(cn *conn) string {
	if cn.raw != nil {
		if cn.raw.done || cn.raw.aborted {
			return ""
		}
		e.nprobe++
		b := randBytes(uint64(e.nprobe)+555, 11)
		cn.off += len(b)
		cn.stream = append(cn.stream, b...)
		n, _ := cn.c.Write(b)
		cn.acked += n
		if !zsim.WaitUntil(probeBound, func() bool { return len(cn.raw.in) >= cn.off && len(cn.c.RecvAll) >= len(cn.raw.out) }) {
			return fmt.Sprintf("the raw handler read %d of %d bytes, the client received %d of %d", len(cn.raw.in), cn.off, len(cn.c.RecvAll), len(cn.raw.out))
		}
		return ""
	}
	op, ok := e.probeOp()
	if !ok {
		return ""
	}
	n0 := len(cn.sent)
	e.playOps(cn, []Op{op})
	if len(cn.sent) == n0 {
		return "the request could not be sent"
	}
	s := cn.sent[n0]
	answered := func() bool {
		if s.ex == nil || !s.ex.complete() || s.ex.depth > 0 {
			return false
		}
		if s.ex.aborted {
			return true
		}
		for _, w := range cn.replies {
			if w.e != s.ex {
				continue
			}
			for k := range cn.got {
				if g := &cn.got[k]; g.ok && frameKey(g.id, g.header, g.body) == w.key {
					return true
				}
			}
		}
		return false
	}
	if !zsim.WaitUntil(probeBound, answered) {
		if s.ex == nil {
			return "the request is not handled"
		}
		return "the request is handled, but its reply does not arrive"
	}
	e.r.cov("probe-old")
	return ""
}

// probeable: the client's own operations are over and nothing it did stands in the way of another request.
func (cn *conn) probeable() bool {
	if cn.c == nil || cn.udp || !cn.opsDone || cn.ended != "" || cn.bad || cn.half || cn.quiet || cn.readDone || !cn.c.Accepted() || cn.upAt == 0 && cn.onConn == 0 {
		return false
	}
	for _, s := range cn.parts {
		if zsim.NowD() <= s.b {
			return false
		}
	}
	return true
}

// probeOld: connections nobody had a reason to close still work.
func (e *Env) probeOld(props []string) {
	for _, cn := range append([]*conn{}, e.conns...) {
		if !cn.probeable() || e.stopFor(cn) != nil || cn.hit("hclose", "raw-end") || e.dying(cn) {
			continue
		}
		if cn.c.PeerClosed() {
			e.r.failP(props, "closed", "connection %d was closed at %v although nothing ended it", cn.i, cn.c.PeerClosedAt())
			continue
		}
		if m := e.probed(cn); m != "" && cn.ended == "" {
			e.r.failP(props, "unserved", "connection %d was not to be closed, but it is no longer served: %s", cn.i, m)
		}
	}
}

// dying: the connection may end of heartbeat loss while it is probed.
func (e *Env) dying(cn *conn) bool {
	for _, c := range e.causes(cn) {
		if c.k == "heartbeat" && c.a <= zsim.NowD()+probeBound {
			return true
		}
	}
	return false
}

// probeNew: a new connection to the address works. It stays for the rest of the run.
func (e *Env) probeNew(k int, what string) {
	r := e.r
	as := e.addrs()
	P := []string{"C13", "C12", "C15"}
	if isUDP(as[k].Net) {
		cn, s := e.datagram(k)
		if s == nil {
			return
		}
		answered := func() bool {
			p := zsim.PacketAt(as[k].Net, addrAt(as, k))
			if p == nil || s.ex == nil {
				return false
			}
			for _, w := range cn.replies {
				for _, o := range p.Out {
					f := parseFrame(o.Data)
					if o.To == cn.addr && f.ok && frameKey(f.id, f.header, f.body) == w.key {
						return true
					}
				}
			}
			return s.ex.aborted
		}
		if !zsim.WaitUntil(probeBound, answered) {
			r.failP(P, "unserved-new", "after %s a datagram to %s %s is not answered", what, as[k].Net, addrAt(as, k))
		}
		r.cov("probe-udp")
		return
	}
	i := 100 + e.nprobe
	pl := &CPlan{Addr: k}
	if as[k].Mode == "raw" {
		pl.H = []Op{{K: "echo", N: 50}}
	}
	cn := e.openPl(i, pl, addrAt(as, k))
	if cn.c == nil {
		return
	}
	cn.srvClose = true
	cn.opsDone = true
	if cn.raw != nil {
		zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.rawReader(cn) })
	} else {
		zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, "") })
	}
	// the connect callbacks of others may come first
	zsim.WaitUntil(probeBound+r.closeSleep(), func() bool { return cn.c.Accepted() && (cn.onConn > 0 || r.plan.Cfg.NoOnConn) })
	if e.dying(cn) {
		return
	}
	if m := e.probed(cn); m != "" {
		r.failP(P, "unserved-new", "after %s a new connection to %s %s (%s) does not work: %s", what, as[k].Net, addrAt(as, k), as[k].Mode, m)
	}
	if cn.c.PeerClosed() {
		r.failP(P, "closed-new", "after %s a new connection to %s %s (%s) was closed", what, as[k].Net, addrAt(as, k), as[k].Mode)
	}
	r.cov("probe-new-" + as[k].Mode)
}

// datagram sends a request to an UDP address from a client of its own.
func (e *Env) datagram(k int) (*conn, *sent) {
	op, ok := e.probeOp()
	if !ok {
		return nil, nil
	}
	if e.r.pi("udpbuf") > 0 && e.addrs()[k].Mode == "udp" && e.nprobe%2 == 0 {
		op.N = e.udpBuf(k) - 200 // as big as the configured buffer allows
	}
	i := 100 + e.nprobe
	cn := &conn{i: i, pl: &CPlan{}, batches: map[int][]*sent{}, udp: true, onConn: 1, opsDone: true}
	me := &net.UDPAddr{IP: net.IPv4(10, 1, 0, byte(1+i)), Port: 9000 + i}
	cn.addr = me.String()
	e.conns = append(e.conns, cn)
	to := udpTo(addrAt(e.addrs(), k))
	s := e.messages(cn, &op, -1, 0)
	cn.sent = append(cn.sent, s)
	s.dv = zsim.SendDatagram(me, to, s.raw, 0)
	return cn, s
}

// checkAccepts: nothing was accepted between the end of a stop and the next start.
func (e *Env) checkAccepts() {
	for _, cn := range e.conns {
		if cn.c == nil || !cn.c.Accepted() {
			continue
		}
		for _, s := range e.stops {
			if a := cn.c.AcceptSeq(); a > s.endSeq && a < s.startSeq {
				e.r.fail("C12", "accepted-stopped", "connection %d was accepted after Stop had returned", cn.i)
			}
		}
	}
}

// checkPool: who is online.
func (e *Env) checkPool(final bool) {
	if !e.r.plan.Cfg.Pool {
		return
	}
	for _, cn := range e.conns {
		if cn.pl.OC != "online" || cn.online == "" || cn.ctx == nil || cn.c == nil {
			continue
		}
		p := cn.ctx.GetPoolRef()
		if p == nil {
			e.r.fail("C11", "no-pool", "connection %d has no pool", cn.i)
			return
		}
		g := p.GetClientPool(cn.online)
		switch {
		case cn.c.PeerClosed() && g != nil:
			e.r.failP([]string{"C11", "C12"}, "pool-left", "connection %d was closed but %q is still in the pool", cn.i, cn.online)
		case !cn.c.PeerClosed() && cn.ended == "" && g == nil:
			e.r.failP([]string{"C11", "C12", "C13"}, "pool-lost", "connection %d is open but %q is no longer in the pool", cn.i, cn.online)
		}
	}
}

// ---- generator ---------------------------------------------------------------------------------------------------

func init() {
	gens["C12"] = append(gens["C12"], wgen{10, genAdmin})
	gens["C13"] = append(gens["C13"], wgen{10, genAdmin})
	gens["C08"] = append(gens["C08"], wgen{1, genAdmin})
}

// where says who calls Stop or Restart: the program, or a callback of the server.
func (g *Gen) where() string {
	if g.P(0.75) {
		return ""
	}
	return g.pickS("handler", "handler", "connect", "close")
}

func genAdmin(g *Gen) *Plan {
	p := &Plan{Kind: "life"}
	c := &p.Cfg
	g.ambient(c)
	c.MaxByte = 0
	c.Pool = g.P(0.6)
	c.P = map[string]int{"probe": 1, "stopend": 1}
	beat := 0
	if g.P(0.25) {
		c.HB = g.pickI(2000, 3000)
		if c.HBID == 0 || c.HBPlain {
			c.HBID = 1392
		}
		c.HBPlain = false
		beat = c.HB * g.pickI(5, 8, 11) / 10
	}
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, false)
	if g.P(0.08) {
		// the two families on one port
		c.Addrs = []Addr{{Mode: g.pickS("", "direct", "raw"), Net: "tcp4", Pt: 2}, {Mode: g.pickS("", "direct", "raw"), Net: "tcp6", Pt: 2}}
		if g.P(0.5) {
			c.Addrs[0].Net, c.Addrs[1].Net = "tcp6", "tcp4"
		}
	} else if g.P(0.5) {
		n := g.Range(1, 3)
		if g.P(0.01) {
			n = g.pickI(5, 9, 12, 20)
		}
		same := false
		for k := 0; k < n; k++ {
			switch g.Intn(5) {
			case 0, 1, 2:
				a := Addr{Mode: g.pickS("", "", "direct"), Net: g.netKind()}
				if c.TLS && (a.Net == "unix" || a.Net == "unixpacket") {
					a.Net = "tcp"
				}
				c.Addrs = append(c.Addrs, a)
			case 3:
				c.Addrs = append(c.Addrs, Addr{Mode: "raw", Net: g.netKind()})
			case 4:
				a := Addr{Mode: g.pickS("udp", ""), Net: "udp"}
				if k > 0 && !same && g.P(0.5) && c.Addrs[0].Net == "tcp" {
					same = true
					a.Pt = 1 // the same port as the first address
				}
				c.Addrs = append(c.Addrs, a)
			}
		}
	}
	raw := false
	for _, a := range c.Addrs {
		raw = raw || a.Mode == "raw"
	}
	if raw {
		// no UnUse with raw addresses
		var rs []Reg
		for _, x := range p.Reg {
			if x.K != "unuse" {
				rs = append(rs, x)
			}
		}
		p.Reg = rs
	}
	var plain []int32
	for _, x := range ids {
		if !(c.HB > 0 && x == c.HBID) && !(c.Auth > 0 && x == c.AuthID) {
			plain = append(plain, x)
		}
	}
	for _, x := range p.Reg {
		if x.K == "hbr" {
			for k, y := range plain {
				if y == x.ID {
					plain = append(plain[:k], plain[k+1:]...)
					break
				}
			}
		}
	}
	if len(plain) == 0 {
		p.Reg = append(p.Reg, Reg{K: "h", ID: 41})
		plain = append(plain, 41)
	}
	ls := labels(p.Reg)
	var tcp []int
	for k, a := range c.Addrs {
		if !isUDP(a.Net) {
			tcp = append(tcp, k)
		}
	}
	nconn := g.Range(1, 4)
	if len(c.Addrs) > 0 && len(tcp) == 0 {
		nconn = 0
	}
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 7, 50, 333, 900), Up: g.profile(), Down: g.profile(), Name: uname(i), Read: g.pickS("", "recv")}
		if len(tcp) > 0 {
			cp.Addr = tcp[g.Intn(len(tcp))]
		}
		cp.Down.Window = 0
		if g.P(0.15) {
			cp.CSl = g.pickI(1, 20, 150, 700)
		}
		if g.P(0.1) {
			cp.XSl = g.pickI(1, 20, 150)
		}
		if g.P(0.5) {
			cp.OC = "online"
		}
		if g.P(0.8) {
			cp.Beat = beat
		}
		if beat > 0 && g.P(0.7) {
			cp.Up = zeroLat(cp.Up)
		}
		if len(c.Addrs) > 0 && c.Addrs[cp.Addr].Mode == "raw" {
			cp.H = []Op{{K: "echo", N: g.pickI(0, 15, 511), T: g.T()}}
			for k := g.Range(0, 3); k > 0; k-- {
				cp.Ops = append(cp.Ops, Op{K: "send", T: g.T(), N: g.pickI(1, 5, 40, 300), D: g.pickI(0, 0, 1, 20, 200)})
			}
			if g.P(0.25) {
				cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset", "vanish"), D: g.pickI(0, 1, 50, 300)})
			}
			g.fit(&cp.Up, 500)
			p.Conns = append(p.Conns, cp)
			continue
		}
		quiet := g.P(0.15)
		for k := g.Range(0, 4); k > 0; k-- {
			m := g.message(p, plain, urls, ls, tweak{sleep: 0.4, reply: 0.5, url: 0.2, rmax: 2}, nconn)
			delete(m.Sl, "HB")
			delete(m.Sl, "AUTH")
			if m.N > 5000 {
				m.N = 50
			}
			for j := range m.R {
				if m.R[j].N > 5000 {
					m.R[j].N = 10
				}
				if quiet && g.P(0.5) {
					m.R[j].N = 3000
				}
			}
			m.D = g.pickI(0, 0, 1, 30, 300)
			if m.K == "wjson" && beat > 0 {
				m.K = "raw"
			}
			cp.Ops = append(cp.Ops, m)
		}
		switch {
		case quiet:
			cp.Quiet = true
			cp.Down.Window = g.pickI(64, 500, 4096)
			g.fit(&cp.Down, 12000)
		case g.P(0.15):
			cp.Ops = append(cp.Ops, Op{K: "cut", ID: plain[0], T: g.T(), N: g.pickI(0, 50, 500), X: g.Range(1, 999)})
		case g.P(0.1):
			cp.Ops = append(cp.Ops, Op{K: "partition", X: g.pickI(10, 100, 1000)})
		}
		if !quiet && g.P(0.3) {
			cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset", "vanish"), D: g.pickI(0, 1, 50, 300, 1000)})
		}
		g.fit(&cp.Up, 500)
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.3) {
		c.P["udpbuf"] = g.pickI(1000, 8000, 30000)
	}
	n := g.Range(1, 4)
	if g.P(0.04) {
		n = g.Range(8, 14)
	}
	for k := 0; k < n; k++ {
		d := g.pickI(0, 0, 1, 20, 60, 350, 1000)
		x := g.Intn(2)
		if g.P(0.08) {
			p.Admin = append(p.Admin, Op{K: "again", X: x, D: d})
		}
		switch y := g.Intn(10); {
		case y < 4 || g.prop == "C13" && y < 6:
			op := Op{K: "restart", X: x, D: d, S: g.where()}
			if (op.S == "" || op.S == "handler") && g.P(0.4) {
				op.CG = g.Range(1, 2)
				op.N = g.pickI(0, 0, 1, 100, 700)
			}
			p.Admin = append(p.Admin, op)
		case y < 7:
			p.Admin = append(p.Admin, Op{K: "stop", X: x, D: d, S: g.where()})
			if g.P(0.08) {
				p.Admin = append(p.Admin, Op{K: "again", X: g.Intn(2), D: g.pickI(0, 0, 1, 100)})
			}
			if g.P(0.8) {
				p.Admin = append(p.Admin, Op{K: "start", D: g.pickI(0, 0, 1, 100, 700)})
			}
		default:
			p.Admin = append(p.Admin, Op{K: "stops", X: g.Intn(16), CG: g.pickI(0, 0, 1, 2), D: d})
			if g.P(0.8) {
				p.Admin = append(p.Admin, Op{K: "start", D: g.pickI(0, 0, 1, 100, 700)})
			}
		}
	}
	return p
}

var _ = bytes.Equal
var _ = tcpx.RELEASE
