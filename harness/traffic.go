package main

import (
	"fmt"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// The traffic world: clients exchange well-formed messages with a server over every kind of link, and end in every
// orderly or disorderly way.
func init() {
	worlds["traffic"] = func(r *Run) {
		e := newEnv(r)
		e.build()
		e.start()
		e.traffic()
	}
	for p, w := range map[string]int{"C01": 10, "C02": 10, "C03": 10, "C04": 10, "C05": 10} {
		gens[p] = append(gens[p], wgen{w, genTraffic})
	}
}

func (e *Env) traffic() {
	r := e.r
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() {
			pl := r.plan.Conns[i]
			if pl.Start > 0 {
				zsim.SleepFor(time.Duration(pl.Start) * ms)
			}
			cn := e.open(i, e.addr)
			if cn.c == nil {
				cn.opsDone, cn.readDone = true, true
				return
			}
			zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, pl.Read) })
			e.play(cn)
		})
	}
	ok := zsim.WaitUntil(60*time.Second+e.sleeps(), func() bool {
		if len(e.conns) < len(r.plan.Conns) || e.active > 0 {
			return false
		}
		for _, cn := range e.conns {
			if !cn.opsDone || e.outstanding(cn) != "" {
				return false
			}
		}
		return true
	})
	// a little longer, for what must not happen
	zsim.SleepFor(200 * ms)
	zsim.Settle()
	_ = ok
	for _, cn := range e.conns {
		e.checkDispatch(cn)
	}
	for _, cn := range e.conns {
		e.checkReplies(cn)
	}
	if !ok {
		for _, cn := range e.conns {
			if !cn.opsDone {
				r.failP([]string{"C01", "C02", "C03", "C04", "C05", "C15"}, "stuck", "client %d cannot send although the server should be reading", cn.i)
			}
			if s := e.outstanding(cn); s != "" {
				r.failP([]string{"C01", "C02", "C03", "C04", "C05", "C15"}, "no-progress", "connection %d: %s", cn.i, s)
			}
		}
	}
	e.finish()
}

// sleeps is how long the handlers of a plan sleep all in all.
func (e *Env) sleeps() time.Duration {
	var d time.Duration
	var add func(ops []Op)
	add = func(ops []Op) {
		for i := range ops {
			for _, s := range ops[i].Sl {
				if s > 60 {
					d += time.Duration(s) * ms
				}
			}
			add(ops[i].B)
		}
	}
	for _, cp := range e.r.plan.Conns {
		add(cp.Ops)
	}
	return d
}

// finish closes what is still open and checks how the connections end.
func (e *Env) finish() {
	for _, cn := range e.conns {
		if cn.c != nil && (cn.ended == "" || cn.ended == "closew") {
			if cn.ended == "" {
				cn.ended = "close"
			}
			cn.c.Close()
		}
	}
	zsim.SleepFor(3 * time.Second)
	zsim.Settle()
	for _, cn := range e.conns {
		e.checkEnded(cn)
	}
	e.checkCensus("C08", 0)
}

// ---- generator ------------------------------------------------------------------------------------------------

// genReg makes a registration script and returns the routes it offers.
func (g *Gen) genReg(c *Cfg, rich bool) (regs []Reg, ids []int32, urls []string) {
	used := map[int32]bool{}
	if c.HB > 0 {
		used[c.HBID] = true
	}
	if c.Auth > 0 {
		used[c.AuthID] = true
	}
	nexts := func(n int) []bool {
		var b []bool
		for i := 0; i < n; i++ {
			b = append(b, g.P(0.35))
		}
		return b
	}
	active := map[string]bool{}
	var known []string
	ng := 0
	hbDone, authDone := c.HB == 0, c.Auth == 0
	steps := g.Range(2, 4)
	if rich {
		steps = g.Range(4, 14)
	}
	route := func() {
		n := 0
		if g.P(0.5) {
			n = g.Intn(4)
			if rich && g.P(0.01) {
				n = g.pickI(20, 40, 70, 130, 260)
			}
		}
		if g.P(0.3) {
			u := g.pickS("/a", "/a/b", "/A", "/a/", "/", "x y", "/路")
			for _, v := range urls {
				if v == u {
					return
				}
			}
			urls = append(urls, u)
			regs = append(regs, Reg{K: "url", URL: u, N: n, Next: nexts(n)})
			return
		}
		id := g.id()
		if used[id] || c.HBRewrite && id == c.HBID+1 {
			return
		}
		used[id] = true
		ids = append(ids, id)
		regs = append(regs, Reg{K: "h", ID: id, N: n, Next: nexts(n)})
	}
	for s := 0; s < steps; s++ {
		switch x := g.Intn(10); {
		case x < 2 && (rich || ng < 2):
			n := g.Range(1, 3)
			if rich && g.P(0.01) {
				n = g.pickI(20, 40, 70, 130, 260)
			}
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, fmt.Sprint("g", ng))
				ng++
			}
			regs = append(regs, Reg{K: "global", L: ls, Next: nexts(n)})
		case x < 5:
			var ls []string
			i := g.Range(1, 2)
			if rich && g.P(0.01) {
				i = g.pickI(12, 20, 40, 70)
			}
			for ; i > 0; i-- {
				if len(known) > 0 && g.P(0.4) {
					l := known[g.Intn(len(known))]
					if !active[l] {
						active[l] = true
						ls = append(ls, l)
					}
				} else {
					l := fmt.Sprint("a", len(known))
					known = append(known, l)
					active[l] = true
					ls = append(ls, l)
				}
			}
			if len(ls) > 0 {
				regs = append(regs, Reg{K: "use", L: ls, Next: nexts(len(ls))})
			}
		case x < 7:
			var ls []string
			for _, l := range known {
				if active[l] && g.P(0.5) {
					active[l] = false
					ls = append(ls, l)
				}
			}
			if len(ls) > 0 {
				regs = append(regs, Reg{K: "unuse", L: ls})
			}
		case x == 7 && !hbDone:
			hbDone = true
			regs = append(regs, Reg{K: "hb"})
			if c.HBRewrite {
				id := c.HBID
				if g.P(0.5) && !used[c.HBID+1] {
					id = c.HBID + 1
					used[id] = true
				}
				regs = append(regs, Reg{K: "hbr", ID: id})
				ids = append(ids, id)
			}
		case x == 8 && !authDone:
			authDone = true
			regs = append(regs, Reg{K: "auth"})
			ids = append(ids, c.AuthID)
		default:
			route()
		}
	}
	for len(ids)+len(urls) < 2 {
		route()
	}
	if !hbDone {
		regs = append(regs, Reg{K: "hb"})
		if c.HBRewrite {
			regs = append(regs, Reg{K: "hbr", ID: c.HBID})
			ids = append(ids, c.HBID)
		}
	}
	if !authDone {
		regs = append(regs, Reg{K: "auth"})
		ids = append(ids, c.AuthID)
	}
	if c.HB > 0 && g.P(0.5) {
		regs = append(regs, Reg{K: "use", L: []string{"zlast"}, Next: nexts(1)})
	}
	return
}

// labels lists every label of a registration script.
func labels(regs []Reg) []string {
	var out []string
	for i, g := range regs {
		switch g.K {
		case "global", "use":
			out = append(out, g.L...)
		case "h", "url":
			for k := 0; k < g.N; k++ {
				out = append(out, fmt.Sprintf("o%d.%d", i, k))
			}
			out = append(out, fmt.Sprintf("H%d", i))
		}
	}
	return append(out, "onmsg", "HB", "AUTH")
}

type tweak struct {
	sleep, abort, reply, url, scope float64
	rmax                            int
}

func (g *Gen) message(p *Plan, ids []int32, urls []string, ls []string, t tweak, nconn int) Op {
	op := Op{T: g.T()}
	op.N = g.size()
	op.H = 0
	if g.P(0.4) {
		op.H = g.Range(1, 3)
	}
	if p.Kind == "traffic" && g.P(0.02) {
		op.H = g.pickI(9, 20, 20, 1000, 4080, 66000) // many keys, or a big one
	}
	op.X = g.Intn(12)
	if len(urls) > 0 && g.P(t.url) {
		op.K = "url"
		op.URL = urls[g.Intn(len(urls))]
		if g.P(0.05) {
			op.URL = "/nowhere"
		}
		op.M = g.pickS("json", "json", "protobuf", "xml")
		if g.P(0.2) {
			op.ID = g.pickID(7, -1, 99, p.Cfg.HBID, p.Cfg.AuthID)
			if len(ids) > 0 && g.P(0.5) {
				op.ID = ids[g.Intn(len(ids))]
			}
		}
	} else {
		op.ID = 99
		if len(ids) > 0 && g.P(0.96) {
			op.ID = ids[g.Intn(len(ids))]
		}
		switch g.Intn(8) {
		case 0, 1, 2:
			op.K = "val"
			op.M = g.pickS(marshNames...)
		case 3:
			op.K = "stuff"
		case 4:
			op.K = "body"
		case 5:
			op.K = "wjson"
			op.H = 0
		default:
			op.K = "raw"
		}
	}
	if g.P(t.sleep) {
		op.Sl = map[string]int{}
		for k := g.Range(1, 3); k > 0; k-- {
			l := ls[g.Intn(len(ls))]
			if g.slow && g.P(0.3) {
				op.Sl[l] = g.pickI(11000, 35000, 65000, 310000, 4000000)
			} else if g.P(0.5) {
				op.Sl[l] = g.Range(1, 60)
			} else {
				op.Sl[l] = -g.Range(1, 8)
			}
		}
	}
	if g.P(t.abort) {
		op.Ab = ls[g.Intn(len(ls))]
	}
	if g.P(t.scope) {
		op.CS = 1
	}
	if g.P(0.3) && p.Cfg.Pool {
		op.S = "online"
	}
	if g.P(t.reply) {
		for k := g.Range(1, t.rmax); k > 0; k-- {
			op.R = append(op.R, g.rep(p, op.K == "url", nconn))
		}
	}
	return op
}

func (g *Gen) rep(p *Plan, url bool, nconn int) Rep {
	r := Rep{ID: g.id(), N: g.size()}
	if g.P(0.4) {
		r.H = g.Range(1, 2)
	}
	if p.Kind == "traffic" && g.P(0.01) {
		r.H = g.pickI(9, 1000, 66000)
	}
	switch x := g.Intn(12); {
	case url && x < 5:
		r.M = g.pickS("jurl", "purl")
	case x < 2:
		r.M = g.pickS("user", "conn")
		r.To = 1 + g.Intn(nconn)
	case x < 4:
		r.M = "with:" + g.pickS(marshNames...)
	case x < 6:
		r.M = "Reply"
	default:
		r.M = g.pickS("JSON", "JSON", "XML", "TOML", "YAML", "ProtoBuf")
	}
	if g.P(0.2) {
		r.D = g.Range(1, 30)
	}
	r.Go = g.P(0.1)
	r.Sh = g.P(0.1)
	r.Eq = g.P(0.05)
	return r
}

// callbackReps: what the callbacks of a connection send.
func (g *Gen) callbackReps(p *Plan, cp *CPlan, i, nconn int) {
	if g.P(0.1) {
		for k := g.Range(1, 2); k > 0; k-- {
			r := g.rep(p, false, nconn)
			r.D, r.Go = 0, false
			if r.N > 5000 {
				r.N = 60
			}
			cp.CR = append(cp.CR, r)
		}
	}
	if nconn > 1 && g.P(0.15) {
		for k := g.Range(1, 2); k > 0; k-- {
			to := g.Intn(nconn)
			if to == i {
				continue
			}
			cp.XR = append(cp.XR, Rep{M: g.pickS("conn", "user"), ID: g.id(), N: g.Range(0, 300), H: g.Intn(2), To: 1 + to})
		}
	}
}

// small keeps a message of a long series short.
func (g *Gen) small(m *Op) {
	if m.N > 100 {
		m.N = g.Range(0, 64)
	}
	if m.H > 3 {
		m.H = 1
	}
	for i := range m.R {
		if m.R[i].N > 100 {
			m.R[i].N = g.Range(0, 64)
		}
		if m.R[i].H > 3 {
			m.R[i].H = 1
		}
	}
}

func genTraffic(g *Gen) *Plan {
	p := &Plan{Kind: "traffic"}
	g.ambient(&p.Cfg)
	c := &p.Cfg
	rich := g.prop == "C04" || g.P(0.15)
	if g.prop == "C04" && g.P(0.4) {
		if c.HB == 0 {
			c.HB, c.HBID = 40000, g.pickID(1392, 77, 0)
		}
		c.HBPlain = false
		c.HBThrough = g.P(0.5)
		c.HBRewrite = true
	}
	c.OnMsg = g.P(0.08) || g.prop == "C04" && g.P(0.1)
	if c.OnMsg {
		c.HB = 0
		c.Auth = 0
	}
	if g.P(0.04) {
		g.slow = true
		c.HB, c.Auth = 0, 0
	}
	// a server with the feature off must not treat its message id specially: register the default ids as routes
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, rich)
	ls := labels(p.Reg)
	if len(ls) == 3 {
		ls = append(ls, "H0")
	}
	t := tweak{sleep: 0.25, abort: 0.03, reply: 0.4, url: 0.25, scope: 0.2, rmax: 2}
	nconn := g.pickI(1, 1, 2, 2, 3)
	nop := g.Range(1, 6)
	switch g.prop {
	case "C01":
		nop = g.Range(2, 8)
	case "C02":
		t.reply, t.rmax = 0.9, 4
		t.sleep = 0.3
		nconn = g.pickI(1, 2, 2, 3)
	case "C03":
		t.scope, t.sleep, t.url = 0.8, 0.4, 0.5
		nop = g.Range(3, 9)
		nconn = g.pickI(1, 2, 2, 3)
	case "C04":
		t.abort, t.sleep = 0.3, 0.3
		t.reply = 0.1
		nop = g.Range(2, 8)
	case "C05":
		t.sleep = 0.5
		t.reply = 0.2
	}
	// now and then a connection lives through a lot of messages
	haul := g.P(0.0025)
	if haul {
		nconn, nop = 1, g.Range(100, 300)
		if g.P(0.2) {
			nop = g.pickI(520, 1030, 1030, 1030, 2100)
		}
		t.reply, t.rmax = t.reply*0.7, 1
		if g.prop == "C02" {
			t.reply, t.rmax = 0.95, 2
		}
		t.sleep, t.abort = 0.03, 0.01
	}
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Up: g.profile(), Down: g.profile(), Start: g.pickI(0, 0, 0, 5, 40)}
		cp.Read = g.pickS("", "", "recv", "block", "limit", "unpack")
		cp.Name = uname(i)
		g.callbackReps(p, cp, i, nconn)
		vol := 0
		pipeP := 0.1
		if haul {
			pipeP = 0.01
		} else if g.prop == "C05" {
			pipeP = 0.6
		}
		for k := 0; k < nop; k++ {
			if g.P(pipeP) {
				op := Op{K: "pipe", T: g.T()}
				if g.P(0.3) {
					op.S = "json"
				}
				n := g.pickI(1, 2, 2, 3, 4, 6)
				if g.P(0.05) {
					n = g.Range(10, 40)
					if g.P(0.15) {
						n = g.pickI(63, 64, 65, 70, 128, 130, 257, 300)
						if g.P(0.1) {
							n = g.pickI(600, 1030)
						}
					}
				}
				for j := 0; j < n; j++ {
					tt := t
					if op.S == "json" {
						tt.url = 0
					}
					m := g.message(p, ids, urls, ls, tt, nconn)
					if m.K == "wjson" {
						m.K = "raw"
					}
					if op.S == "json" {
						m.K, m.M, m.H = "val", "json", 0
					} else if g.P(0.15) {
						m.D = g.Range(1, 20)
					}
					if n > 8 && m.N > 1000 {
						m.N = 30
					}
					if n > 60 && len(m.R) > 0 && j%16 != 0 {
						m.R = nil
					}
					vol += m.N + m.H
					op.B = append(op.B, m)
				}
				op.J = g.P(0.3)
				cp.Ops = append(cp.Ops, op)
				continue
			}
			m := g.message(p, ids, urls, ls, t, nconn)
			m.J = g.P(0.4)
			if g.P(0.2) {
				m.D = g.Range(1, 50)
			}
			if !haul && g.P(0.0002) && (m.K == "raw" || m.K == "body") {
				if n := g.pickI(1<<22+9, 1<<24+3); c.MaxByte == 0 || n+1000 < int(c.MaxByte) {
					m.N, m.H = n, 0
				}
			}
			if haul {
				g.small(&m)
				m.J = g.P(0.7)
				m.D = 0
				if g.P(0.02) {
					m.D = g.Range(1, 50)
				}
			}
			vol += m.N + m.H
			cp.Ops = append(cp.Ops, m)
			for g.P(0.06) {
				// byte for byte the same once more
				a := Op{K: "again", J: g.P(0.5), R: m.R, CS: m.CS}
				if g.P(0.3) {
					a.X = 1 + g.Intn(20)
					a.R = nil
				}
				if g.P(0.3) {
					a.Sl = m.Sl
				}
				vol += m.N + m.H
				cp.Ops = append(cp.Ops, a)
			}
			if g.P(0.08) && c.HB > 0 && !c.HBRewrite {
				cp.Ops = append(cp.Ops, Op{K: "stuff", ID: c.HBID, T: g.T()})
			}
			if g.P(0.05) {
				cp.Ops = append(cp.Ops, Op{K: "wait"})
			}
		}
		// the end
		x := g.Intn(100)
		cut := 0.25
		if g.prop == "C01" {
			cut = 0.4
		}
		switch {
		case x < 40: // stays open until the run is over
		case x < 85:
			if g.P(cut) {
				op := Op{K: "cut", ID: 1, T: g.T(), N: g.size(), X: g.Intn(1000), J: true}
				vol += op.N
				cp.Ops = append(cp.Ops, op)
			} else if g.P(cut) && (g.prop == "C05" || g.P(0.3)) {
				op := Op{K: "cutpipe", T: g.T(), X: g.Range(1, 3), J: true}
				for j := g.Range(1, 4); j > 0; j-- {
					m := g.message(p, ids, urls, ls, t, nconn)
					if m.K == "wjson" {
						m.K = "raw"
					}
					vol += m.N + m.H
					op.B = append(op.B, m)
				}
				if g.P(0.5) {
					op.N = g.Range(1, 60)
				}
				cp.Ops = append(cp.Ops, op)
			}
			k := g.pickS("close", "closew", "closew")
			op := Op{K: k}
			if g.P(0.3) {
				op.D = g.Range(1, 100)
			}
			cp.Ops = append(cp.Ops, op)
		default:
			cp.Up.DropRST = g.P(0.5)
			op := Op{K: "reset"}
			if g.P(0.5) {
				op.D = g.Range(1, 60)
			}
			cp.Ops = append(cp.Ops, op)
		}
		for k := range cp.Ops {
			if n := len(cp.Ops); k+1 < n && isEnd(cp.Ops[k+1].K) && g.P(0.7) {
				cp.Ops[k].J = true
			}
		}
		if !c.TLS && g.P(0.03) {
			m := g.message(p, ids, urls, ls, tweak{}, 1)
			if m.K != "url" {
				m.K, m.S, m.H, m.D = "wjson", "once", 0, 0
				m.N = g.pickI(0, 5, 100, 5000, 60000)
				cp.Ops = []Op{m}
				vol = m.N
			}
		}
		g.fit(&cp.Up, vol)
		p.Conns = append(p.Conns, cp)
	}
	// replies may go to any connection
	down := 0
	for _, cp := range p.Conns {
		for _, r := range append(append([]Rep{}, cp.CR...), cp.XR...) {
			down += r.N + r.H + 50
		}
		for _, op := range cp.Ops {
			for _, r := range op.R {
				down += r.N + r.H + 50
			}
			for _, b := range op.B {
				for _, r := range b.R {
					down += r.N + r.H + 50
				}
			}
		}
	}
	for _, cp := range p.Conns {
		g.fit(&cp.Down, down)
	}
	return p
}
