package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// Stalled clients next to healthy ones: the healthy ones ask and must be answered in time, whatever the others do. The
// network heals in the end, and then everything that is still open must make progress.

// askBound is how long an answer may take, besides what failing accepts cost.
func (e *Env) askBound() time.Duration {
	return 3*time.Second + time.Duration(e.nfault)*1500*ms
}

// within waits for a condition for as long as an answer may take, which grows with the accepts that begin to fail
// meanwhile.
func (e *Env) within(cond func() bool) bool {
	t0 := zsim.NowD()
	for {
		left := t0 + e.askBound() - zsim.NowD()
		if left <= 0 {
			return false
		}
		if zsim.WaitUntil(left, cond) {
			return true
		}
	}
}

// ask sends a request and waits for the answer.
func (e *Env) ask(cn *conn, op *Op) {
	m := *op
	m.K = "raw"
	m.D = 0
	n0 := len(cn.sent)
	t0 := zsim.NowD()
	e.playOps(cn, []Op{m})
	if len(cn.sent) == n0 {
		return
	}
	s := cn.sent[n0]
	if !s.route {
		return
	}
	want := 0
	for _, rp := range op.R {
		if rp.M == "JSON" {
			want++
		}
	}
	ok := func() bool {
		if cn.c.PeerClosed() {
			return true
		}
		if s.ex == nil || !s.ex.complete() {
			return false
		}
		if s.ex.aborted {
			return true
		}
		n := 0
		for _, w := range cn.replies {
			if w.e != s.ex || w.what != "JSON" {
				continue
			}
			for k := range cn.got {
				if g := &cn.got[k]; g.ok && frameKey(g.id, g.header, g.body) == w.key {
					n++
					break
				}
			}
		}
		return n >= want
	}
	if !e.within(ok) {
		what := "the request is not handled"
		switch {
		case !cn.c.Accepted():
			what = "the connection is not accepted"
		case s.ex != nil && !s.ex.complete():
			what = fmt.Sprintf("its chain is at %d of %v", s.ex.pos, s.ex.exp)
		case s.ex != nil:
			what = "its handler does not reply, or the reply does not arrive"
		}
		e.r.failP([]string{"C15", "C06"}, "starved", "healthy connection %d gets no answer within %v to a request sent at %v: %s", cn.i, e.askBound(), t0, what)
	}
	e.r.cov("answered")
}

// askRaw sends bytes to an echoing raw handler and waits for them to come back.
func (e *Env) askRaw(cn *conn, op *Op) {
	b := randBytes(uint64(op.T), op.N)
	cn.off += len(b)
	cn.stream = append(cn.stream, b...)
	n, _ := cn.c.Write(b)
	cn.acked += n
	if !e.within(func() bool {
		return cn.c.PeerClosed() || cn.raw.done || cn.raw.aborted || len(cn.c.RecvAll) >= cn.off || len(cn.raw.in) >= cn.off && len(cn.raw.out) < cn.off && !cn.raw.writing
	}) {
		e.r.fail("C15", "starved", "healthy raw connection %d gets no answer within %v: the handler read %d of %d bytes, the client received %d", cn.i, e.askBound(), len(cn.raw.in), cn.off, len(cn.c.RecvAll))
	}
	e.r.cov("answered-raw")
}

// acceptFault makes the next accepts of an address fail as if no descriptors were left.
func (e *Env) acceptFault(op *Op) {
	as := e.addrs()
	k := op.X % len(as)
	if isUDP(as[k].Net) {
		return
	}
	var errs []syscall.Errno
	for i := 0; i < op.N; i++ {
		x := syscall.EMFILE
		if op.CG>>uint(i)&1 == 1 {
			x = syscall.ENFILE
		}
		errs = append(errs, x)
	}
	e.nfault += op.N
	zsim.AcceptFault(as[k].Net, addrAt(as, k), errs...)
}

// checkServing: no serving call has returned.
func (e *Env) checkServing() {
	if e.stopped || e.restarted || len(e.stops) > 0 {
		return
	}
	for k, s := range e.served {
		if s.done {
			e.r.failP([]string{"C15", "C06", "C08"}, "server-ended", "the serving call of %s returned although nobody stopped the server: %v", k, s.err)
		}
	}
}

// ---- generator ---------------------------------------------------------------------------------------------------

func init() {
	gens["C15"] = append(gens["C15"], wgen{10, genStall})
}

func genStall(g *Gen) *Plan {
	p := &Plan{Kind: "life"}
	c := &p.Cfg
	g.ambient(c)
	c.MaxByte = 0
	c.Pool = g.P(0.7)
	c.P = map[string]int{"stopend": 1}
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, false)
	raw := -1
	if g.P(0.4) {
		a := Addr{Mode: g.pickS("", "", "direct"), Net: g.netKind()}
		if c.TLS && (a.Net == "unix" || a.Net == "unixpacket") {
			a.Net = "tcp"
		}
		c.Addrs = []Addr{a}
		if g.P(0.6) {
			raw = 1
			c.Addrs = append(c.Addrs, Addr{Mode: "raw", Net: g.netKind()})
			var rs []Reg
			for _, x := range p.Reg {
				if x.K != "unuse" {
					rs = append(rs, x)
				}
			}
			p.Reg = rs
		}
		if g.P(0.4) {
			c.Addrs = append(c.Addrs, Addr{Mode: "udp", Net: "udp"})
		}
	}
	var plain []int32
	for _, x := range ids {
		if !(c.HB > 0 && x == c.HBID) && !(c.Auth > 0 && x == c.AuthID) {
			plain = append(plain, x)
		}
	}
	for _, x := range p.Reg {
		if x.K == "hbr" {
			for k, y := range plain {
				if y == x.ID {
					plain = append(plain[:k], plain[k+1:]...)
					break
				}
			}
		}
	}
	if len(plain) == 0 {
		p.Reg = append(p.Reg, Reg{K: "h", ID: 41})
		plain = append(plain, 41)
	}
	_ = urls
	pid := func() int32 { return plain[g.Intn(len(plain))] }
	nstall, nok := g.Range(1, 3), g.Range(1, 3)
	crowd := 0
	if g.P(0.05) {
		crowd = g.pickI(1, 2, 3, 4, 5)
		switch crowd { // of stalled requests on one connection, or of stalled connections
		case 1, 2, 3:
			nstall = 1
		case 4:
			nstall = g.pickI(20, 20, 70)
		case 5:
			nstall = g.pickI(70, 130, 300)
		}
		nok = 1
	}
	n := nstall + nok
	online := g.P(0.7)
	for i := 0; i < nstall; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 20, 300), Up: g.profile(), Down: g.profile(), Name: uname(i), Read: g.pickS("", "recv")}
		cp.Down.Window = 0
		if online {
			cp.OC = "online"
		}
		if raw > 0 && g.P(0.3) {
			cp.Addr = raw
			cp.Quiet = true
			cp.Down.Window = g.pickI(64, 500)
			cp.H = []Op{{K: g.pickS("echo", "duplex"), N: 99, X: 0, T: g.T()}}
			if cp.H[0].K == "duplex" {
				cp.H[0].X = 5000
			}
			if g.P(0.5) {
				cp.H = []Op{{K: "write", N: 4999, X: 5000, T: g.T()}, cp.H[0]}
			}
			cp.Ops = []Op{{K: "quiet", X: g.pickI(500, 2000, 9000)}, {K: "send", T: g.T(), N: g.pickI(50, 900)}}
			g.fit(&cp.Up, 900)
			p.Conns = append(p.Conns, cp)
			continue
		}
		if c.TLS && g.P(0.3) {
			cp.Mute = true
			p.Conns = append(p.Conns, cp)
			continue
		}
		if crowd >= 1 && crowd <= 3 {
			cp.Quiet = true
			cp.Down.Window = 64
			cp.Up = zsim.NetProfile{}
			for k := g.pickI([]int{0, 18, 70, 140}[crowd], []int{0, 33, 130, 300}[crowd]); k > 0; k-- {
				cp.Ops = append(cp.Ops, Op{K: "raw", ID: pid(), N: 20, T: g.T(), J: k > 1, R: []Rep{{M: "JSON", ID: 4, N: 150}}})
			}
			p.Conns = append(p.Conns, cp)
			continue
		}
		if crowd == 5 {
			cp.Up, cp.Down = zsim.NetProfile{}, zsim.NetProfile{}
			if g.P(0.5) {
				cp.Ops = append(cp.Ops, Op{K: "cut", ID: pid(), T: g.T(), N: 50, X: g.Range(1, 999)})
			}
			p.Conns = append(p.Conns, cp)
			continue
		}
		big := Op{K: "raw", ID: pid(), N: 20, T: g.T(), R: []Rep{{M: g.pickS("JSON", "XML", "Reply"), ID: 4, N: g.pickI(600, 5000)}}}
		switch g.Intn(6) {
		case 0, 1, 2: // does not read
			cp.Quiet = true
			cp.Down.Window = g.pickI(64, 500, 2000)
			g.fit(&cp.Down, 12000)
			for k := g.Range(1, 3); k > 0; k-- {
				big.T = g.T()
				big.D = g.pickI(0, 0, 30)
				cp.Ops = append(cp.Ops, big)
			}
		case 3: // half a message
			if g.P(0.5) {
				big.T = g.T()
				cp.Ops = append(cp.Ops, big)
			}
			cp.Ops = append(cp.Ops, Op{K: "cut", ID: pid(), T: g.T(), N: g.pickI(0, 50, 500), X: g.Range(1, 999)})
		case 4: // gone
			cp.Ops = append(cp.Ops, big, Op{K: "vanish", D: g.pickI(0, 0, 1, 50)})
		case 5: // cut off for a while
			cp.Down.Window = g.pickI(0, 64, 500)
			cp.Ops = append(cp.Ops, Op{K: "partition", X: g.pickI(300, 1500, 5000)}, big)
			if g.P(0.5) {
				cp.Ops[0], cp.Ops[1] = cp.Ops[1], cp.Ops[0]
			}
		}
		g.fit(&cp.Up, 500)
		p.Conns = append(p.Conns, cp)
	}
	for i := nstall; i < n; i++ {
		cp := &CPlan{Start: g.pickI(0, 5, 20, 100, 400, 1000), Up: g.profile(), Down: g.profile(), Name: uname(i), Read: g.pickS("", "recv")}
		cp.Down.Window, cp.Up.Window = 0, 0
		if online {
			cp.OC = "online"
		}
		if raw > 0 && g.P(0.25) {
			cp.Addr = raw
			cp.H = []Op{{K: "echo", N: 99}}
			for k := g.Range(1, 4); k > 0; k-- {
				cp.Ops = append(cp.Ops, Op{K: "ask", T: g.T(), N: g.pickI(1, 40, 300), D: g.pickI(0, 0, 1, 50, 300)})
			}
			g.fit(&cp.Up, 900)
			g.fit(&cp.Down, 900)
			p.Conns = append(p.Conns, cp)
			continue
		}
		for k := g.Range(1, 5); k > 0; k-- {
			op := Op{K: "ask", ID: pid(), T: g.T(), N: g.pickI(0, 10, 300), D: g.pickI(0, 0, 1, 20, 100, 500), R: []Rep{{M: "JSON", ID: 7, N: g.pickI(1, 300)}}}
			if online && c.Pool && g.P(0.4) {
				// first to another healthy client
				op.R = append([]Rep{{M: "user", ID: 8, N: 5, To: 1 + nstall + g.Intn(nok)}}, op.R...)
			}
			if c.Pool && !online && g.P(0.2) {
				op.S = "online"
			}
			if g.P(0.4) {
				// one whose handler may wait for a stalled client: nobody asks when it ends
				cp.Ops = append(cp.Ops, Op{K: "raw", ID: pid(), T: g.T(), N: 7, D: g.pickI(0, 0, 10), R: []Rep{{M: g.pickS("user", "conn"), ID: 9, N: g.pickI(600, 5000), To: 1 + g.Intn(nstall)}}})
			}
			cp.Ops = append(cp.Ops, op)
		}
		if g.P(0.2) {
			cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 1, 50)})
		}
		g.fit(&cp.Up, 900)
		g.fit(&cp.Down, 9000)
		p.Conns = append(p.Conns, cp)
	}
	for k := g.pickI(0, 0, 1, 2); k > 0; k-- {
		n := g.Range(1, 4)
		if g.P(0.03) { // the shortage lasts
			n = g.pickI(25, 60, 130)
		}
		p.Admin = append(p.Admin, Op{K: "afault", X: g.Intn(3), N: n, CG: g.Intn(16), D: g.pickI(0, 1, 20, 100, 400)})
	}
	if len(c.Addrs) > 0 && isUDP(c.Addrs[len(c.Addrs)-1].Net) {
		p.Admin = append(p.Admin, Op{K: "dgram", X: len(c.Addrs) - 1, D: g.pickI(1, 20, 100, 400)})
	}
	return p
}
