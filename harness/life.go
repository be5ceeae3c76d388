package main

import (
	"fmt"
	"math"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// The life world: connections end in every possible way - client close, half-close, reset, silent death, malformed
// input, a handler or callback closing them, heartbeat loss, auth timeout or denial, server stop - and the oracle works
// out from the observed history when each of them had to end, and why.
func init() {
	worlds["life"] = func(r *Run) {
		e := newEnv(r)
		e.onLoss = func(cn *conn, c *tcpx.Context) {
			if d := r.pi("losssleep"); d > 0 {
				zsim.SleepFor(time.Duration(d) * ms)
			}
			if r.pi("lossbye") > 0 {
				e.callbackSends(cn, c, []Rep{{M: "JSON", ID: 12, N: 40}})
			}
			if r.pi("lossclose") > 0 {
				_ = c.CloseConn()
				r.cov("loss-callback-closes")
			}
		}
		e.onConnect = func(cn *conn, c *tcpx.Context) {
			if cn.pl.OC == "online" && r.plan.Cfg.Pool {
				if err := c.Online(cn.pl.Name); err == nil {
					cn.online = cn.pl.Name
				}
			}
			if cn.pl.CSl > 0 {
				zsim.SleepFor(time.Duration(cn.pl.CSl) * ms)
			}
			for _, d := range cn.pl.DL {
				e.connDeadline(cn, c, d.K, d.X)
			}
			switch cn.pl.OC {
			case "close", "close2":
				cn.note("hclose")
				_ = c.CloseConn()
				if cn.pl.OC == "close2" {
					_ = c.CloseConn()
				}
			}
		}
		e.onClose = func(cn *conn, c *tcpx.Context) {
			if cn.pl.XSl > 0 {
				zsim.SleepFor(time.Duration(cn.pl.XSl) * ms)
			}
			if cn.pl.OX == "close" {
				_ = c.CloseConn()
			}
		}
		e.onHandler = func(x *exec, c *tcpx.Context) {
			switch x.op.S {
			case "setg", "setr", "setw":
				e.connDeadline(x.cn, c, x.op.S[3:], x.op.CG)
				return
			}
			if x.op.S != "hclose" {
				return
			}
			n := 1 + x.op.CG
			for k := 1; k < n; k++ {
				e.active++
				zsim.GoNamed("closer", func() { x.cn.note("hclose"); _ = c.CloseConn(); e.active-- })
			}
			x.cn.note("hclose")
			_ = c.CloseConn()
			r.cov("handler-close")
		}
		e.build()
		e.start()
		e.life()
	}
	gens["C08"] = append(gens["C08"], wgen{10, genLife})
	gens["C09"] = append(gens["C09"], wgen{10, genLife})
	gens["C10"] = append(gens["C10"], wgen{10, genLife})
}

const never = time.Duration(math.MaxInt64)

// cause is a reason for a connection to end: not before a, and if it is compelling, not after b.
type cause struct {
	k    string
	a, b time.Duration
	may  bool // need not end the connection
}

const slack = 20 * ms

func (e *Env) life() {
	r := e.r
	cfg := &r.plan.Cfg
	e.mayClose = true
	e.adminLive = len(r.plan.Admin) > 0
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() {
			pl := r.plan.Conns[i]
			if pl.Start > 0 {
				zsim.SleepFor(time.Duration(pl.Start) * ms)
			}
			cn := e.open(i, e.addr)
			cn.srvClose = true
			if cn.c == nil {
				cn.opsDone, cn.readDone = true, true
				return
			}
			if cn.raw != nil {
				zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.rawReader(cn) })
				e.rawPlay(cn)
				return
			}
			zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, pl.Read) })
			if pl.Beat > 0 && cfg.HB > 0 {
				zsim.GoNamed(fmt.Sprint("heart ", i), func() { e.beat(cn) })
			}
			e.play(cn)
		})
	}
	zsim.GoNamed("admin", func() {
		e.admin()
		e.adminDone = true
	})
	// intervals of hours are meant to pass where the plan says so
	long := r.pi("long") > 0
	bound := 5 * time.Minute
	if long {
		bound += 200 * time.Duration(cfg.HB+cfg.Auth) * ms
	}
	ok := zsim.WaitUntil(bound, func() bool {
		if e.nopen < len(r.plan.Conns) || !e.adminDone {
			return false
		}
		for _, cn := range e.conns {
			if !cn.opsDone {
				return false
			}
		}
		return true
	})
	for k := 0; k < 4; k++ {
		if len(e.r.plan.Cfg.DL) > 0 || e.anyDL {
			zsim.SleepFor(100 * ms)
		}
		if d := e.maxDL + 100*ms - zsim.NowD(); d > 0 && e.maxDL < 60*time.Second {
			zsim.SleepFor(d) // let the deadlines pass
		}
	}
	for _, cn := range e.conns {
		cn.quiet = false
		if cn.pl.Mute && cn.c != nil && cfg.TLS {
			cn.c.Hello()
		}
	}
	ok = zsim.WaitUntil(bound, func() bool { return !e.busy() }) && ok
	if !e.adminDone {
		r.failP([]string{"C12", "C13"}, "admin-stuck", "%s does not return", e.adminBusy)
		return
	}
	// long enough for every deadline to pass, but not for an end beyond it
	wait := 500*ms + stopBound
	if cfg.HB > 0 && (cfg.HB < 30000 || long) {
		wait += 3*time.Duration(cfg.HB)*ms + time.Duration(r.pi("losssleep"))*ms
	}
	if cfg.Auth > 0 && (cfg.Auth < 30000 || long) {
		wait += time.Duration(cfg.Auth) * ms
	}
	for _, cn := range e.conns {
		wait += time.Duration(cn.pl.XSl+cn.pl.CSl) * ms
		for _, s := range cn.parts {
			if w := s.b - zsim.NowD(); w > 0 {
				zsim.SleepFor(w)
			}
		}
	}
	zsim.SleepFor(wait)
	for k := 0; k < 200 && r.hasRaw(); k++ {
		n := e.rawMoved()
		zsim.SleepFor(400 * ms)
		if e.rawMoved() == n {
			break
		}
	}
	zsim.Settle()
	if !ok || e.busy() && !zsim.WaitUntil(30*time.Second, func() bool { return !e.busy() }) {
		for _, cn := range e.conns {
			for _, x := range cn.execs {
				if x.depth > 0 {
					l := x.exp[x.pos-1]
					p := "C08"
					switch l {
					case "HB":
						p = "C09"
					case "AUTH":
						p = "C10"
					}
					r.failP([]string{p, "C08"}, "blocked", "connection %d: %s for message id %d does not return", cn.i, l, x.f.id)
				}
			}
			if !cn.opsDone {
				r.failP([]string{"C08", "C09", "C10"}, "stuck", "client %d cannot send", cn.i)
			}
		}
	}
	for _, cn := range e.conns {
		if cn.pl.Beat > 0 && !e.calm {
			e.calm = true
			zsim.SleepFor(500 * ms)
			zsim.Settle()
		}
	}
	for _, cn := range e.conns {
		e.checkEnd(cn)
	}
	zsim.WaitUntil(40*time.Second, func() bool { // small windows take their time
		for _, cn := range e.conns {
			if cn.c != nil && cn.raw == nil && !cn.srvClose && cn.ended != "close" && cn.ended != "reset" && cn.ended != "vanish" && len(cn.got) < cn.nOK && !cn.readDone && !e.wfailed(cn) {
				return false
			}
		}
		return true
	})
	for _, cn := range e.conns {
		e.checkWrites(cn)
		e.checkRaw(cn, false)
		if !cn.srvClose {
			e.checkDispatch(cn)
			if cn.raw == nil && cn.c != nil {
				e.checkReplies(cn)
			}
		}
	}
	e.checkAccepts()
	e.checkServing()
	e.checkPool(false)
	// end what is left, and look at what remains
	gone := false
	for _, cn := range e.conns {
		if cn.c == nil || cn.c.PeerClosed() {
			continue
		}
		gone = gone || cn.ended == "vanish"
		if cn.ended == "" {
			cn.end("close")
			cn.c.Close()
		}
	}
	if (gone || r.pi("stopend") > 0 || e.restarted) && !e.stopped {
		rec := e.beginStop(true)
		if err := e.srv.Stop(true); err != nil {
			r.fail("C12", "stop-failed", "stopping a running server failed: %v", err)
		}
		rec.end()
	} else if gone {
		// already stopped without closing the connections: only the clients are left to end them
		for _, cn := range e.conns {
			if cn.c != nil && cn.ended == "vanish" && !cn.c.PeerClosed() && cn.ctx != nil {
				_ = cn.ctx.CloseConn()
			}
		}
	}
	zsim.SleepFor(500*ms + r.closeSleep())
	zsim.Settle()
	for _, cn := range e.conns {
		if cn.c != nil && cn.ended == "vanish" && !cn.c.PeerClosed() && cn.ctx == nil {
			continue
		}
		e.checkEnded(cn)
		e.checkRaw(cn, true)
	}
	e.checkPool(true)
	if !r.leaky() {
		e.checkCensus("C08", 0)
	}
	n := make([]int, len(e.conns))
	over := make([]bool, len(e.conns))
	for i, cn := range e.conns {
		n[i] = cn.losses
		over[i] = cn.c != nil && cn.c.PeerClosed()
	}
	zsim.SleepFor(4*time.Duration(cfg.HB)*ms + time.Duration(cfg.Auth)*ms + time.Second)
	zsim.Settle()
	for i, cn := range e.conns {
		if cn.losses != n[i] && over[i] {
			r.failP([]string{"C09", "C08"}, "late-loss", "heartbeat-loss callback ran for connection %d, which had ended before", cn.i)
		}
		if cn.onClose > 1 {
			r.fail("C08", "double-close", "close callback ran %d times for connection %d", cn.onClose, cn.i)
		}
	}
}

func (r *Run) closeSleep() time.Duration {
	d := 0
	for _, c := range r.plan.Conns {
		d += c.XSl + c.CSl
	}
	return time.Duration(d) * ms
}

// leaky: a vanished client of a server without connect callback may have to be left alone.
func (r *Run) leaky() bool {
	if !r.plan.Cfg.NoOnConn {
		return false
	}
	for _, c := range r.plan.Conns {
		for _, o := range c.Ops {
			if o.K == "vanish" {
				return true
			}
		}
	}
	return false
}

// busy: some handler runs that must return by itself.
func (e *Env) busy() bool {
	n := e.active
	for _, cn := range e.conns {
		if cn.raw != nil {
			n -= cn.raw.depth
		}
	}
	return n > 0
}

// started is when the server began to watch the connection.
func (e *Env) started(cn *conn) time.Duration {
	if e.r.plan.Cfg.NoOnConn {
		return cn.c.AcceptedAt()
	}
	return cn.upAt
}

// causes lists the reasons the connection had to end, from what was observed.
func (e *Env) causes(cn *conn) []cause {
	cfg := &e.r.plan.Cfg
	var cs []cause
	t0 := e.started(cn)
	x := time.Duration(cn.pl.XSl) * ms
	lat := cn.pl.Up.LatMax + cn.pl.Up.LatMin
	if cfg.HB > 0 && e.chain.hbid != -99999 && e.hbRegistered() {
		d := 3 * time.Duration(cfg.HB) * ms
		loss := time.Duration(e.r.pi("losssleep")) * ms
		if cn.lossTook > loss {
			loss = cn.lossTook // its write had to wait
		}
		if cn.inLoss {
			loss = zsim.NowD()
		}
		if cn.ended == "vanish" {
			for _, v := range cn.evs {
				if v.k == "beat" && v.t >= cn.endAt-slack {
					cn.unsure = true // it may have died with the client
				}
			}
		}
		if cn.unsure && !e.hbVisible() || cn.bad {
			cs = append(cs, cause{k: "heartbeat", a: t0 + d, b: never, may: true})
		} else {
			last := t0
			near := false
			for _, v := range cn.evs {
				if v.k != "beat" {
					continue
				}
				t := v.t
				if t < t0 {
					t = t0
				}
				if t > last+d+slack {
					break // came too late
				}
				if t > last+d-slack {
					cs = append(cs, cause{k: "heartbeat", a: last + d, b: last + d + loss, may: true})
					near = true
				}
				last = t
			}
			_ = near
			cs = append(cs, cause{k: "heartbeat", a: last + d, b: last + d + loss})
		}
	}
	if cfg.Auth > 0 && e.chain.authOn && cn.raw == nil {
		dl := t0 + time.Duration(cfg.Auth)*ms
		c := cause{k: "auth", a: dl, b: dl}
		for _, v := range cn.evs {
			if v.k != "pass" && v.k != "deny" {
				continue
			}
			if v.t > dl+slack {
				break
			}
			if v.t > dl-slack {
				c.may = true // pass or deny at the deadline: either
				if v.k == "deny" {
					cs = append(cs, cause{k: "auth", a: v.t, b: v.t, may: true})
				}
				break
			}
			if v.k == "deny" {
				c = cause{k: "auth", a: v.t, b: v.t}
			} else {
				c.k = ""
			}
			break
		}
		// several signals at the same moment: whichever is seen first decides
		if first := firstEv(cn, "pass", "deny"); first != nil && first.t <= dl+slack {
			for i := range cn.evs {
				v := &cn.evs[i]
				if v != first && (v.k == "pass" || v.k == "deny") && v.k != first.k && v.t <= first.t+slack {
					c = cause{k: "auth", a: first.t, b: never, may: true}
				}
			}
		}
		if c.k != "" {
			cs = append(cs, c)
		}
	}
	for _, v := range cn.evs {
		if v.k == "hclose" {
			cs = append(cs, cause{k: "handler", a: v.t, b: v.t})
			break
		}
	}
	if cn.raw != nil {
		if v := firstEv(cn, "raw-end"); v != nil {
			cs = append(cs, cause{k: "raw", a: v.t, b: v.t + x})
		}
	} else if cn.ended == "close" || cn.ended == "closew" || cn.ended == "reset" {
		b := cn.endAt
		if b < t0 {
			b = t0
		}
		for _, s := range cn.parts {
			if b < s.b {
				b = s.b
			}
		}
		cs = append(cs, cause{k: "client", a: cn.endAt, b: b + lat + x})
	}
	if cn.bad {
		cs = append(cs, cause{k: "input", a: 0, b: never, may: true})
	}
	if f, vague := e.readFires(cn); f != never || vague {
		if cn.raw == nil {
			b := f
			if b != never {
				b += x
			} else {
				f = 0
			}
			cs = append(cs, cause{k: "deadline", a: f, b: b, may: vague})
			if vague {
				cs = append(cs, cause{k: "deadline", a: 0, b: never, may: true})
			}
		}
	}
	for _, st := range e.stops {
		if !st.all || st.endSeq < cn.c.AcceptSeq() {
			continue
		}
		b := st.endAt
		if b < t0 {
			b = t0
		}
		vague := st.vague > 0 && cn.c.AcceptSeq() > st.vague
		cs = append(cs, cause{k: "stop", a: st.beginAt, b: b + x + stopBound, may: vague})
		if !vague {
			break
		}
	}
	return cs
}

func firstEv(cn *conn, ks ...string) *cev {
	for i := range cn.evs {
		for _, k := range ks {
			if cn.evs[i].k == k {
				return &cn.evs[i]
			}
		}
	}
	return nil
}

func (e *Env) hbRegistered() bool {
	for _, g := range e.r.plan.Reg {
		if g.K == "hb" {
			return true
		}
	}
	return false
}

// hbVisible: the heartbeat handler is the harness's own.
func (e *Env) hbVisible() bool {
	c := e.chain.byID[e.chain.hbid]
	return len(c) > 0 && c[len(c)-1] == "HB"
}

func propOf(k string) string {
	switch k {
	case "heartbeat":
		return "C09"
	case "auth":
		return "C10"
	case "stop":
		return "C12"
	case "raw":
		return "C17"
	case "deadline":
		return "C14"
	}
	return "C08"
}

// checkEnd compares how and when a connection ended with how and when it had to.
func (e *Env) checkEnd(cn *conn) {
	r := e.r
	cfg := &r.plan.Cfg
	if cn.c == nil || !cn.c.Accepted() {
		return
	}
	cs := e.causes(cn)
	closed := cn.c.PeerClosed()
	at := cn.c.PeerClosedAt()
	now := zsim.NowD()
	if !closed {
		at = now
	}
	desc := func() string {
		s := ""
		for _, c := range cs {
			s += fmt.Sprintf(" %s[%v,%v]", c.k, c.a, c.b)
		}
		return s
	}
	explained := false
	for _, c := range cs {
		if at >= c.a-slack && at <= c.b+slackAfter(c.b) {
			explained = true
		}
		if !c.may && c.b+slackAfter(c.b) < at {
			what := fmt.Sprintf("was closed at %v", at)
			if !closed {
				what = "is still open"
			}
			r.failP([]string{propOf(c.k), "C08"}, "late-"+c.k, "connection %d had to end by %v (%s) but %s; evs %v", cn.i, c.b, c.k, what, cn.evs)
		}
	}
	if closed && !explained {
		ps := []string{"C08"}
		if cfg.HB > 0 {
			ps = append(ps, "C09")
		}
		if cfg.Auth > 0 {
			ps = append(ps, "C10")
		}
		if len(cfg.DL) > 0 || e.anyDL {
			ps = append(ps, "C14")
		}
		r.failP(ps, "closed", "connection %d was closed at %v without reason (possible reasons:%s); evs %v", cn.i, at, desc(), cn.evs)
	}
	// which one was it?
	var hb *cause
	others := false
	lastHB := time.Duration(0)
	unclear := false
	for i := range cs {
		c := &cs[i]
		if c.k == "heartbeat" {
			if c.may {
				unclear = true
			}
			hb = c
			lastHB = c.a
		} else if c.a-slack <= lastHB || c.k == "input" {
			others = true
		}
	}
	if hb != nil && !unclear {
		endOther := never
		for _, c := range cs {
			if c.k != "heartbeat" && c.a < endOther {
				endOther = c.a
			}
		}
		switch {
		case endOther > hb.a+slack && closed:
			if cn.losses != 1 {
				r.fail("C09", "loss-count", "connection %d lost its heartbeat at %v, but the loss callback ran %d times", cn.i, hb.a, cn.losses)
			}
			if cn.lossSeen {
				r.fail("C09", "loss-after-close", "the heartbeat-loss callback of connection %d ran after the close", cn.i)
			}
			if v := firstEv(cn, "loss"); v != nil && (v.t < hb.a-slack || v.t > hb.a+slack) {
				r.fail("C09", "loss-time", "the heartbeat of connection %d was lost at %v, but the loss callback ran at %v", cn.i, hb.a, v.t)
			}
			r.cov("ended-heartbeat")
		case closed && at < hb.a-slack:
			if cn.losses != 0 {
				r.fail("C09", "false-loss", "the heartbeat-loss callback ran for connection %d, which ended for another reason at %v (heartbeat due by %v)", cn.i, at, hb.a)
			}
		case cn.losses > 1:
			r.fail("C09", "loss-count", "the heartbeat-loss callback ran %d times for connection %d", cn.losses, cn.i)
		}
	} else if hb == nil && cn.losses != 0 || cn.losses > 1 {
		r.fail("C09", "false-loss", "the heartbeat-loss callback ran %d times for connection %d without a lost heartbeat", cn.losses, cn.i)
	}
	_ = others
	for _, c := range cs {
		if closed && at >= c.a-slack && at <= c.b+slackAfter(c.b) {
			r.cov("end-" + c.k)
		}
	}
	if !closed {
		r.cov("end-none")
	}
	// only a client that ended first may expect everything it sent to be handled
	cn.srvClose = false
	for _, c := range cs {
		if c.k != "client" && c.a-slack <= at {
			cn.srvClose = true
		}
	}
}

func slackAfter(b time.Duration) time.Duration {
	if b > never-time.Hour {
		return 0
	}
	return slack
}

// ---- generator ---------------------------------------------------------------------------------------------------

func genLife(g *Gen) *Plan {
	p := &Plan{Kind: "life"}
	c := &p.Cfg
	g.ambient(c)
	c.MaxByte = 0
	c.HB, c.Auth = 0, 0
	c.P = map[string]int{}
	hb := g.prop == "C09" || g.P(0.4)
	au := g.prop == "C10" || g.P(0.3)
	if g.prop == "C09" && g.P(0.8) {
		au = false
	}
	if g.prop == "C10" && g.P(0.7) {
		hb = false
	}
	if hb {
		c.HB = g.pickI(200, 300, 500, 1000)
		if g.P(0.06) {
			c.HB = g.pickI(80, 1500, 70000, 4000000)
			c.P["long"] = 1
		}
		c.HBID = g.pickID(1392, 1392, 77, 0)
		c.HBThrough = g.P(0.4)
		c.HBRewrite = g.P(0.6)
		c.HBPlain = c.HBID == 1392 && !c.HBThrough && g.P(0.5)
		if g.P(0.2) {
			c.P["losssleep"] = g.pickI(1, 30, 300)
		}
		if g.P(0.15) {
			c.P["lossbye"] = 1
		}
		if g.P(0.15) {
			c.P["lossclose"] = 1
		}
	} else {
		c.HBRewrite = false
	}
	if au {
		c.Auth = g.pickI(100, 250, 400, 700, 1500)
		if g.P(0.06) {
			c.Auth = g.pickI(80, 5500, 70000, 4000000)
			c.P["long"] = 1
		}
		c.AuthID = g.pickID(1393, 1393, 88)
		c.AuthThr = g.P(0.4)
	}
	if g.P(0.3) {
		c.P["stopend"] = 1
	}
	ids := []int32(nil)
	var urls []string
	p.Reg, ids, urls = g.genReg(c, false)
	hbid, rew := c.HBID, false
	for _, x := range p.Reg {
		if x.K == "hbr" {
			hbid, rew = x.ID, true
		}
	}
	var plain []int32 // ids without a meaning of their own
	for _, x := range ids {
		if !(hb && (x == hbid || x == c.HBID)) && !(au && x == c.AuthID) {
			plain = append(plain, x)
		}
	}
	if len(plain) == 0 && len(urls) == 0 {
		p.Reg = append(p.Reg, Reg{K: "h", ID: 41})
		plain = append(plain, 41)
	}
	ls := labels(p.Reg)
	nconn := g.Range(1, 4)
	if g.P(0.002) {
		nconn = g.pickI(20, 40, 70, 110)
	}
	d, A := c.HB, c.Auth
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 7, 50, 333), Up: g.profile(), Down: g.profile(), Name: uname(i), Read: g.pickS("", "recv")}
		cp.Down.Window = 0 // no reply blocks on a client that died silently
		if hb && !rew {
			cp.Up.LatMax, cp.Up.LatMin = 0, 0
		}
		if g.P(0.1) {
			cp.CSl = g.pickI(1, 20, 150)
		}
		if g.P(0.1) {
			cp.XSl = g.pickI(1, 20, 150)
		}
		if g.P(0.05) {
			cp.OC = g.pickS("close", "close2")
		}
		if g.P(0.1) {
			cp.OX = "close"
		}
		if !c.TLS {
			g.callbackReps(p, cp, i, nconn)
		}
		// a timeline of events
		type ev struct {
			t  int
			op Op
		}
		var evs []ev
		put := func(t int, op Op) {
			if t < 0 {
				t = 0
			}
			evs = append(evs, ev{t, op})
		}
		span := 0
		if hb {
			t := 0
			n := g.pickI(0, 1, 1, 2, 3, 5, 8)
			mode := g.Intn(5)
			for k := 0; k < n; k++ {
				var w int
				switch mode {
				case 0:
					w = d
				case 1:
					w = d * g.Range(1, 29) / 10
				case 2:
					w = 3*d + g.pickI(-40, -25, -1, 0, 1, 25, 40, -d/2)
				case 3:
					w = d*g.Range(1, 3) + g.pickI(-30, -1, 0, 0, 1, 30)
				default:
					w = g.pickI(0, 1, d/3, d, 2*d, 2*d+d/2)
				}
				if w < 0 {
					w = 0
				}
				t += w
				op := Op{K: "stuff", ID: hbid, T: g.T()}
				if hbid == 1392 && g.P(0.2) && k == 0 {
					op = Op{K: "hbeat", ID: 1392, T: g.T()}
				}
				if rew {
					if g.P(0.1) {
						op.S = "none"
					}
					if g.P(0.2) {
						op.Sl = map[string]int{"HB": g.pickI(-5, -1, 10, 100, d)}
					}
				}
				put(t, op)
				if g.P(0.1) {
					op.T = g.T()
					op.K = "stuff"
					put(t, op)
				}
			}
			span = t + 3*d
		}
		if au {
			if A > span {
				span = A
			}
			for k := g.pickI(0, 1, 1, 1, 2, 3, 6); k > 0; k-- {
				op := Op{K: "stuff", ID: c.AuthID, T: g.T(), S: g.pickS("pass", "pass", "pass", "deny", "none")}
				if g.P(0.2) {
					op.Sl = map[string]int{"AUTH": g.pickI(-5, -1, 10, 100, A)}
				}
				put(g.pickI(0, 0, 1, A/2, A-40, A-30, A-1, A, A+1, A+30, A*2, g.Intn(A)), op)
			}
			if nconn < 5 && g.P(0.01) {
				// over and over
				at := g.pickI(0, 1, A/2, A-40)
				for k := g.pickI(20, 40, 70, 140, 300); k > 0; k-- {
					put(at, Op{K: "stuff", ID: c.AuthID, T: g.T(), S: g.pickS("pass", "pass", "pass", "none")})
				}
			}
		}
		if span == 0 {
			span = 600
		}
		for k := g.Range(0, 3); k > 0; k-- {
			m := g.message(p, plain, urls, ls, tweak{sleep: 0.3, reply: 0.3, url: 0.2, rmax: 1}, nconn)
			delete(m.Sl, "HB")
			delete(m.Sl, "AUTH")
			if m.N > 5000 {
				m.N = 50
			}
			for j := range m.R {
				if m.R[j].N > 5000 {
					m.R[j].N = 10
				}
			}
			put(g.Intn(span+200), m)
		}
		hc := 0.15
		if g.prop == "C08" {
			hc = 0.35
		}
		if g.P(hc) && len(plain) > 0 {
			m := Op{K: "raw", ID: plain[g.Intn(len(plain))], N: 5, T: g.T(), S: "hclose", CG: g.pickI(0, 0, 1, 2)}
			put(g.Intn(span+200), m)
			if g.P(0.3) {
				m.T = g.T()
				put(evs[len(evs)-1].t, m)
			}
		}
		if g.P(0.08) {
			put(g.Intn(span+200), Op{K: "bytes", Hex: g.pickS("ffffffff", "000000030000000000", "00000000", "0000000c00000001ffffffffffffffff", "80000000")})
		}
		if (rew || !hb) && g.P(0.15) {
			put(g.Intn(span), Op{K: "partition", X: g.pickI(10, 100, 300, 1000)})
		}
		end := 0.35
		if g.prop == "C08" {
			end = 0.6
		}
		if g.P(end) {
			t := g.Intn(span + 300)
			if g.P(0.3) {
				t = g.pickI(0, span, d*3, A, span-1, span+1)
			}
			k := g.pickS("close", "closew", "reset", "vanish", "close")
			if k == "reset" {
				cp.Up.DropRST = g.P(0.5)
			}
			put(t, Op{K: k})
		}
		// in order of time
		for a := 1; a < len(evs); a++ {
			for b := a; b > 0 && evs[b-1].t > evs[b].t; b-- {
				evs[b-1], evs[b] = evs[b], evs[b-1]
			}
		}
		last := 0
		for _, x := range evs {
			x.op.D = x.t - last
			last = x.t
			cp.Ops = append(cp.Ops, x.op)
		}
		if g.P(0.15) {
			for k := range cp.Ops {
				cp.Ops[k].J = true
			}
		}
		g.fit(&cp.Up, 500)
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.2) {
		p.Admin = append(p.Admin, Op{K: "stop", X: g.Intn(2), D: g.pickI(0, 1, 50, 400, 1000, 3*d, A)})
	}
	return p
}
