package main

import (
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// Deadlines: set on the server before it starts, or on single connections through their contexts. The life world works
// out which deadlines were in force when, and when connections had to end and blocked replies had to fail because of them.

// dlEv is a deadline set on a connection.
type dlEv struct {
	t  time.Duration // when
	k  string        // g r w
	at time.Duration // never: none
}

func (e *Env) hasDL() bool { return len(e.r.plan.Cfg.DL) > 0 }

// serverDeadlines sets the deadlines of the server.
func (e *Env) serverDeadlines() {
	e.rdl0, e.wdl0 = never, never
	for i := range e.r.plan.Cfg.DL {
		op := &e.r.plan.Cfg.DL[i]
		at := zsim.NowD() + time.Duration(op.X)*ms
		t := zsim.Now().Add(time.Duration(op.X) * ms)
		switch op.K {
		case "g":
			e.srv.SetDeadline(t)
			if e.rdl0 == never {
				e.rdl0 = at
			}
			if e.wdl0 == never {
				e.wdl0 = at
			}
		case "r":
			e.srv.SetReadDeadline(t)
			e.rdl0 = at
		case "w":
			e.srv.SetWriteDeadline(t)
			e.wdl0 = at
		}
		e.far(at)
		e.r.cov("deadline-srv-" + op.K)
	}
}

func (e *Env) far(at time.Duration) {
	if at != never && at > e.maxDL {
		e.maxDL = at
	}
}

// connDeadline sets a deadline through a context of a connection.
func (e *Env) connDeadline(cn *conn, c *tcpx.Context, k string, delta int) {
	at, t := never, time.Time{}
	if delta >= 0 {
		at = zsim.NowD() + time.Duration(delta)*ms
		t = zsim.Now().Add(time.Duration(delta) * ms)
	}
	e.far(at)
	cn.dls = append(cn.dls, dlEv{zsim.NowD(), k, at})
	e.anyDL = true
	if cn.setting > 0 {
		cn.dlVague = true // which of two simultaneous calls comes last is open
	}
	cn.setting++
	defer func() { cn.setting-- }()
	switch k {
	case "g":
		_ = c.SetDeadline(t)
	case "r":
		_ = c.SetReadDeadline(t)
	case "w":
		_ = c.SetWriteDeadline(t)
	}
	e.r.cov("deadline-conn-" + k)
}

// seg is a span of time in which a deadline was in force.
type seg struct{ from, to, dl time.Duration }

func (e *Env) segs(cn *conn, kind string) []seg {
	cur := e.rdl0
	if kind == "w" {
		cur = e.wdl0
	}
	out := []seg{{0, never, cur}}
	for _, v := range cn.dls {
		if v.k == kind || v.k == "g" {
			out[len(out)-1].to = v.t
			out = append(out, seg{v.t, never, v.at})
		}
	}
	return out
}

// fires is when an operation that waits from t on runs into its deadline; vague: it was changed at about that time.
func (e *Env) fires(cn *conn, kind string, t time.Duration) (at time.Duration, vague bool) {
	if cn.dlVague {
		return never, true
	}
	ss := e.segs(cn, kind)
	for i, s := range ss {
		if s.to < t || s.dl == never {
			continue
		}
		f := s.dl
		if f < s.from {
			f = s.from
		}
		if f < t {
			f = t
		}
		if f < s.to {
			if s.to != never && f > s.to-slack && s.dl < s.to+slack {
				vague = true
			}
			for _, o := range ss[i:] {
				if o.from > f-slack && o.from <= f+slack && o.from != s.from {
					vague = true
				}
			}
			return f, vague
		}
		if f <= s.to+slack {
			vague = true
		}
	}
	return never, vague
}

// readFires is when the server's reading of the connection runs into its deadline.
func (e *Env) readFires(cn *conn) (time.Duration, bool) { return e.fires(cn, "r", e.started(cn)) }

// writeMay: a write begun at b may have failed at t because of a deadline.
func (e *Env) writeMay(cn *conn, b, t time.Duration) bool {
	if e.r.plan.Cfg.DL == nil && len(cn.dls) == 0 {
		return false
	}
	f, vague := e.fires(cn, "w", b)
	return vague || f <= t+slack
}

// checkWrites: no reply hangs beyond its write deadline.
func (e *Env) checkWrites(cn *conn) {
	if e.r.plan.Cfg.DL == nil && len(cn.dls) == 0 || cn.c == nil {
		return
	}
	now := zsim.NowD()
	one := func(what string, b, d time.Duration, done, failed bool) {
		f, vague := e.fires(cn, "w", b)
		if vague || f == never {
			return
		}
		if !done {
			d = now
		}
		if cn.c.PeerClosed() && cn.c.PeerClosedAt() < f+slack {
			return
		}
		if d > f+slack {
			e.r.fail("C14", "write-deadline", "connection %d: a %s begun at %v, write deadline %v, took until %v (ended %v)", cn.i, what, b, f, d, done)
		} else if failed && d > b+slack {
			e.r.cov("write-deadline-hit")
		}
	}
	for _, w := range cn.replies {
		one(w.what+" reply", w.bt, w.dt, w.done, w.err != nil)
	}
	if w := cn.raw; w != nil && w.wbt > 0 {
		one("raw write", w.wbt, w.wdt, !w.writing, w.werr != nil)
	}
}

// wfailed: some reply was cut by a write deadline; what follows on the connection has no frame boundaries any more.
func (e *Env) wfailed(cn *conn) bool {
	for _, w := range cn.replies {
		if w.err != nil && e.writeMay(cn, w.bt, w.dt) {
			return true
		}
	}
	return false
}

// wextended: the write deadline was changed after it had cut a reply.
func (e *Env) wextended(cn *conn) bool {
	if cn.dlVague {
		return true
	}
	for _, w := range cn.replies {
		if w.err == nil || !e.writeMay(cn, w.bt, w.dt) {
			continue
		}
		for _, v := range cn.dls {
			if v.k != "r" && v.t >= w.bt-slack {
				return true
			}
		}
	}
	return false
}

// ---- generator ---------------------------------------------------------------------------------------------------

func init() {
	gens["C14"] = append(gens["C14"], wgen{10, genDeadline})
	gens["C08"] = append(gens["C08"], wgen{1, genDeadline})
	gens["C02"] = append(gens["C02"], wgen{1, genDeadline})
}

func genDeadline(g *Gen) *Plan {
	p := &Plan{Kind: "life"}
	c := &p.Cfg
	g.ambient(c)
	c.MaxByte = 0
	c.P = map[string]int{}
	if g.P(0.3) {
		c.P["stopend"] = 1
	}
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, false)
	raw := -1
	if g.P(0.3) {
		a := Addr{Mode: g.pickS("", "", "direct"), Net: g.netKind()}
		if c.TLS && (a.Net == "unix" || a.Net == "unixpacket") {
			a.Net = "tcp"
		}
		c.Addrs = []Addr{a, {Mode: "raw", Net: g.netKind()}}
		raw = 1
		var rs []Reg
		for _, x := range p.Reg {
			if x.K != "unuse" {
				rs = append(rs, x)
			}
		}
		p.Reg = rs
	}
	T := func() int { return g.pickI(100, 250, 400, 700, 1500, g.Range(30, 2000)) }
	dl := func(k string, x int) { c.DL = append(c.DL, Op{K: k, X: x}) }
	switch g.Intn(9) {
	case 0:
		dl("g", T())
	case 1:
		dl("r", T())
	case 2, 3:
		dl("w", T())
	case 4, 5:
		dl("r", T())
		dl("w", T())
	case 6:
		x := T()
		dl("g", x)
		if g.P(0.5) {
			dl("r", x*g.Range(1, 10)/10)
		} else {
			dl("w", x*g.Range(1, 10)/10)
		}
	case 7: // far away
		dl(g.pickS("g", "r", "w"), 600000)
	case 8: // none
	}
	if len(c.DL) > 1 && g.P(0.5) {
		c.DL[0], c.DL[1] = c.DL[1], c.DL[0]
	}
	var plain []int32
	for _, x := range ids {
		if !(c.HB > 0 && x == c.HBID) && !(c.Auth > 0 && x == c.AuthID) {
			plain = append(plain, x)
		}
	}
	for _, x := range p.Reg {
		if x.K == "hbr" {
			for k, y := range plain {
				if y == x.ID {
					plain = append(plain[:k], plain[k+1:]...)
					break
				}
			}
		}
	}
	if len(plain) == 0 {
		p.Reg = append(p.Reg, Reg{K: "h", ID: 41})
		plain = append(plain, 41)
	}
	ls := labels(p.Reg)
	nconn := g.Range(1, 4)
	override := g.P(0.6)
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 7, 50, 333, 900), Up: g.profile(), Down: g.profile(), Name: uname(i), Read: g.pickS("", "recv")}
		cp.Down.Window = 0
		if g.P(0.1) {
			cp.CSl = g.pickI(1, 20, 150)
		}
		if g.P(0.1) {
			cp.XSl = g.pickI(1, 20, 150)
		}
		if raw > 0 && g.P(0.4) {
			cp.Addr = raw
		}
		if override && g.P(0.3) {
			cp.DL = append(cp.DL, Op{K: g.pickS("g", "r", "w"), X: g.pickI(-1, 50, 300, 900, 2000, 600000)})
		}
		quiet := g.P(0.4)
		if quiet {
			cp.Quiet = true
			cp.Down.Window = g.pickI(64, 500, 4096)
			g.fit(&cp.Down, 12000)
		}
		if cp.Addr == raw {
			cp.H = []Op{{K: "echo", N: g.pickI(15, 511), T: g.T()}}
			if g.P(0.4) {
				cp.H = []Op{{K: "write", N: g.pickI(499, 5000), X: g.pickI(30, 5000, 9000), T: g.T(), D: g.pickI(0, 0, 100, 500)}, cp.H[0]}
			}
			for k := g.Range(0, 3); k > 0; k-- {
				cp.Ops = append(cp.Ops, Op{K: "send", T: g.T(), N: g.pickI(1, 5, 40, 900), D: g.pickI(0, 0, 1, 20, 200)})
			}
			if g.P(0.2) {
				cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 1, 50, 300)})
			}
			g.fit(&cp.Up, 500)
			p.Conns = append(p.Conns, cp)
			continue
		}
		for k := g.Range(0, 5); k > 0; k-- {
			var m Op
			if override && g.P(0.3) {
				m = Op{K: "raw", ID: plain[g.Intn(len(plain))], N: 5, T: g.T(), S: g.pickS("setg", "setr", "setw"), CG: g.pickI(-1, 0, 50, 300, 900, 2000, 600000)}
			} else {
				m = g.message(p, plain, urls, ls, tweak{sleep: 0.3, reply: 0.7, url: 0.2, rmax: 2}, nconn)
				delete(m.Sl, "HB")
				delete(m.Sl, "AUTH")
				if m.N > 5000 {
					m.N = 50
				}
				for j := range m.R {
					if m.R[j].M == "user" || m.R[j].M == "conn" {
						m.R[j].M = "JSON"
					}
					m.R[j].N = g.pickI(0, 10, 100)
					if quiet {
						m.R[j].N = g.pickI(10, 600, 5000)
					}
				}
			}
			m.D = g.pickI(0, 0, 1, 30, 150, 400)
			cp.Ops = append(cp.Ops, m)
		}
		if g.P(0.2) {
			k := g.pickS("close", "closew", "reset", "vanish")
			if quiet && k == "vanish" {
				k = "close"
			}
			cp.Ops = append(cp.Ops, Op{K: k, D: g.pickI(0, 1, 50, 300, 1000)})
		} else if !quiet && g.P(0.1) {
			cp.Ops = append(cp.Ops, Op{K: "cut", ID: plain[0], T: g.T(), N: g.pickI(0, 50, 500), X: g.Range(1, 999)})
		}
		g.fit(&cp.Up, 500)
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.1) {
		p.Admin = append(p.Admin, Op{K: g.pickS("restart", "stop"), X: g.Intn(2), D: g.pickI(0, 50, 400)})
	}
	return p
}
