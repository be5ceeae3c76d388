package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// The pool worlds. "pool": handlers go online, offline, look names up and send to them while connections end and
// reconnect; the recorded history must be linearizable against a map from names to connections. "cpool": the operations
// of a client pool itself, used directly from many goroutines.
func init() {
	worlds["pool"] = poolWorld
	worlds["cpool"] = cpoolWorld
	gens["C11"] = append(gens["C11"], wgen{10, genPool})
	gens["C19"] = append(gens["C19"], wgen{10, genCPool})
}

// pin is the input of an operation on a name, pout its output.
type pin struct {
	k    string // online offline end get send
	c    int    // connection (1-based)
	name string
}

type pout struct {
	ok     bool
	c      int          // get: whose context; send: where it went
	ending map[int]bool // connections whose end had begun when the operation returned
}

type pst struct {
	holder int
	ended  uint64
}

var poolModel = porcupine.Model{
	Init: func() interface{} { return pst{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s := state.(pst)
		in := input.(pin)
		out := output.(pout)
		dead := s.ended>>uint(in.c)&1 == 1
		switch in.k {
		case "online":
			if out.ok {
				if dead {
					return false, s
				}
				s.holder = in.c
				return true, s
			}
			return out.ending[in.c], s
		case "offline":
			if s.holder == in.c {
				s.holder = 0
			}
			return true, s
		case "end":
			if s.holder == in.c {
				s.holder = 0
			}
			s.ended |= 1 << uint(in.c)
			return true, s
		case "get":
			return out.c == s.holder, s
		case "send":
			if out.ok {
				return s.holder != 0 && out.c == s.holder, s
			}
			return s.holder == 0 || out.ending[s.holder], s
		}
		return false, s
	},
	Equal: func(a, b interface{}) bool { return a.(pst) == b.(pst) },
	DescribeOperation: func(i, o interface{}) string {
		return fmt.Sprint(i, o)
	},
}

type phist struct {
	e    *Env
	t    int64
	ops  []*pop
	ends map[int]*pop
}

type pop struct {
	in   pin
	out  pout
	call int64
	ret  int64 // 0: still running
	by   int
	key  string // frame of a send
	at   time.Duration
}

func (h *phist) now() int64 { h.t++; return h.t }

func (h *phist) call(by int, in pin) *pop {
	o := &pop{in: in, call: h.now(), by: by, at: zsim.NowD()}
	h.ops = append(h.ops, o)
	return o
}

func (h *phist) done(o *pop, out pout) {
	out.ending = map[int]bool{}
	for c, x := range h.ends {
		if x.call > 0 {
			out.ending[c] = true
		}
	}
	o.out = out
	o.ret = h.now()
}

// ending records that something began to end connection c.
func (h *phist) ending(c int) {
	if h.ends[c] == nil {
		h.ends[c] = &pop{in: pin{k: "end", c: c}, call: h.now(), at: zsim.NowD()}
	}
}

func poolWorld(r *Run) {
	e := newEnv(r)
	h := &phist{e: e, ends: map[int]*pop{}}
	bound := map[*conn]string{}
	pend := map[*conn]int{}
	e.onLoss = func(cn *conn, c *tcpx.Context) { h.ending(cn.i + 1) }
	e.onHandler = func(x *exec, c *tcpx.Context) {
		cn := x.cn
		n := x.op.URL
		me := cn.i + 1
		reg := func() bool { // one name per connection at a time
			if b := bound[cn]; b != "" && b != n {
				return false
			}
			bound[cn] = n
			return true
		}
		switch x.op.S {
		case "ponline":
			if n == "" || !reg() {
				return
			}
			pend[cn]++
			o := h.call(me, pin{"online", me, n})
			err := c.Online(n)
			h.done(o, pout{ok: err == nil})
			pend[cn]--
			r.cov("online")
			if err != nil && !o.out.ending[me] {
				r.fail("C11", "online-failed", "going online as %q on open connection %d failed: %v", n, cn.i, err)
			}
		case "poffline":
			n = bound[cn]
			if n == "" {
				return
			}
			alone := pend[cn] == 0
			pend[cn]++
			o := h.call(me, pin{"offline", me, n})
			_ = c.Offline()
			h.done(o, pout{ok: true})
			pend[cn]--
			if alone && pend[cn] == 0 && x.op.X == 1 {
				// nothing else happened meanwhile
				fresh := true
				for _, q := range h.ops {
					if q != o && q.by == me && (q.in.k == "online" || q.in.k == "offline") && (q.ret == 0 || q.ret > o.call) {
						fresh = false
					}
				}
				if fresh {
					bound[cn] = ""
				}
			}
			r.cov("offline")
		case "pget":
			o := h.call(me, pin{"get", 0, n})
			g := c.GetPoolRef().GetClientPool(n)
			k := 0
			if g != nil {
				if gc := e.connOf(g); gc != nil {
					k = gc.i + 1
				} else {
					k = 63
				}
			}
			h.done(o, pout{c: k})
			r.cov("get")
		case "psend":
			o := h.call(me, pin{"send", 0, n})
			tag := fmt.Sprintf("ps%d", len(h.ops))
			sm := r.plan.Cfg.Marsh
			if sm == "" {
				sm = "json"
			}
			v := value(sm, tag, x.op.X)
			o.key = frameKey(5, []byte("{}"), refMarshal(sm, v))
			err := c.SendToUsername(n, 5, v)
			h.done(o, pout{ok: err == nil})
			r.cov("send")
			if err != nil {
				r.cov("send-error")
			}
		case "hclose":
			h.ending(me)
			_ = c.CloseConn()
			r.cov("handler-close")
		}
	}
	e.build()
	e.start()
	clients := 0
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() {
			defer func() { clients++ }()
			pl := r.plan.Conns[i]
			if pl.Start > 0 {
				zsim.SleepFor(time.Duration(pl.Start) * ms)
			}
			cn := e.open(i, e.addr)
			if cn.c == nil {
				cn.opsDone, cn.readDone = true, true
				return
			}
			cn.srvClose = true
			zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, "") })
			zsim.GoNamed(fmt.Sprint("end watcher ", i), func() {
				if zsim.WaitUntil(time.Hour, func() bool { return cn.c.PeerClosed() }) {
					zsim.SleepFor(ms)
					zsim.Settle()
					if !cn.c.Accepted() {
						return
					}
					if h.ends[i+1] == nil {
						r.failP([]string{"C11", "C08"}, "closed", "connection %d was closed without reason", i)
						return
					}
					h.ends[i+1].ret = h.now()
				}
			})
			cn.onEnd = func() { h.ending(i + 1) }
			e.play(cn)
		})
	}
	adminDone := false
	zsim.GoNamed("admin", func() {
		for _, op := range r.plan.Admin {
			zsim.SleepFor(time.Duration(op.D) * ms)
			if op.K == "stop" && !e.stopped {
				e.stopped = true
				if op.X == 1 {
					for i := range r.plan.Conns {
						h.ending(i + 1)
					}
				}
				_ = e.srv.Stop(op.X == 1)
			}
		}
		adminDone = true
	})
	if !zsim.WaitUntil(2*time.Minute, func() bool { return clients == len(r.plan.Conns) && adminDone && e.active == 0 }) {
		r.failP([]string{"C11"}, "stuck", "the clients or their handlers do not come to an end (%d handlers running)", e.active)
	}
	zsim.SleepFor(200 * ms)
	zsim.Settle()
	pool := func() *tcpx.ClientPool {
		for _, cn := range e.conns {
			if cn.ctx != nil {
				return cn.ctx.GetPoolRef()
			}
		}
		return nil
	}
	names := map[string]bool{}
	for _, o := range h.ops {
		names[o.in.name] = true
	}
	final := func() {
		p := pool()
		if p == nil {
			return
		}
		for _, n := range nameList {
			if !names[n] {
				continue
			}
			o := h.call(0, pin{"get", 0, n})
			g := p.GetClientPool(n)
			k := 0
			if g != nil {
				k = 63
				if gc := e.connOf(g); gc != nil {
					k = gc.i + 1
				}
			}
			h.done(o, pout{c: k})
		}
	}
	final()
	// close everything: all registrations must go
	for _, cn := range e.conns {
		if cn.c != nil && !cn.c.PeerClosed() {
			h.ending(cn.i + 1)
			cn.ended = "close"
			cn.c.Close()
		}
	}
	zsim.SleepFor(2 * time.Second)
	zsim.Settle()
	for _, cn := range e.conns {
		if cn.c != nil && cn.c.Accepted() && !cn.c.PeerClosed() {
			r.failP([]string{"C08", "C11"}, "socket-leak", "connection %d has ended but the server has not closed its socket", cn.i)
		}
	}
	final()
	// where did the sends go?
	got := map[string][]int{}
	for _, cn := range e.conns {
		if cn.c == nil {
			continue
		}
		fs, _ := parseStream(cn.c.Peer.Written)
		for _, f := range fs {
			if f.ok && f.id == 5 && bytes.Contains(f.body, []byte("ps")) {
				k := frameKey(f.id, f.header, f.body)
				got[k] = append(got[k], cn.i+1)
			}
		}
	}
	for _, o := range h.ops {
		if o.in.k != "send" {
			continue
		}
		w := got[o.key]
		if len(w) > 1 {
			r.fail("C11", "sent-twice", "one send to %q went to connections %v", o.in.name, w)
		}
		if len(w) == 1 {
			o.out.c = w[0]
		}
		if o.out.ok && len(w) == 0 {
			r.fail("C11", "send-lost", "a send to %q reported success but was written to no connection", o.in.name)
		}
		if !o.out.ok && len(w) == 1 && o.ret > 0 {
			r.cov("send-unclear")
		}
	}
	h.check("C11")
}

var nameList = func() []string {
	l := []string{"ann", "Ann", "bob", "日本", "bob ", "0", "a\x00b", "a"}
	long := strings.Repeat("x", 70)
	l = append(l, long, long+"y", long[:40], long[:40]+"z")
	for i := len(l); i < 90; i++ {
		l = append(l, fmt.Sprint("user-", i))
	}
	return l
}()

func (g *Gen) name(nn int) string { return nameList[g.Intn(nn)] }

func (h *phist) check(prop string) {
	r := h.e.r
	end := h.now()
	for _, n := range nameList {
		var ops []porcupine.Operation
		part := map[int]bool{}
		add := func(o *pop, id int) {
			ret := o.ret
			if ret == 0 {
				ret = end
			}
			ops = append(ops, porcupine.Operation{ClientId: id, Input: o.in, Output: o.out, Call: o.call, Return: ret})
		}
		id := 0
		for _, o := range h.ops {
			if o.in.name != n {
				continue
			}
			if o.ret == 0 {
				continue
			}
			if o.in.c > 0 {
				part[o.in.c] = true
			}
			id++
			add(o, id)
		}
		if len(ops) == 0 {
			continue
		}
		for c := 1; c < 60; c++ {
			if part[c] && h.ends[c] != nil {
				id++
				add(h.ends[c], id)
			}
		}
		r.covN("history-ops", len(ops))
		if !linearizable(poolModel, ops) {
			s := ""
			for _, o := range ops {
				s += fmt.Sprintf("\n  [%d,%d] %s c%d -> ok=%v c%d", o.Call, o.Return, o.Input.(pin).k, o.Input.(pin).c, o.Output.(pout).ok, o.Output.(pout).c)
			}
			r.fail(prop, "history", "the history of name %q cannot be explained by one registration at a time:%s", n, s)
		}
		r.cov("history")
	}
}

// linearizable runs porcupine; a history it cannot decide in time counts as fine.
func linearizable(m porcupine.Model, ops []porcupine.Operation) bool {
	return porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) != porcupine.Illegal
}

func genPool(g *Gen) *Plan {
	p := &Plan{Kind: "pool"}
	c := &p.Cfg
	g.ambient(c)
	c.Pool = true
	c.MaxByte, c.Auth = 0, 0
	c.NoOnConn = false
	c.HB = 0
	c.HBRewrite = false
	if g.P(0.15) {
		c.HB, c.HBID, c.HBThrough, c.HBPlain = g.pickI(100, 300), 1392, false, false
		p.Reg = append(p.Reg, Reg{K: "hb"})
	}
	p.Reg = append(p.Reg, Reg{K: "h", ID: 1}, Reg{K: "h", ID: 2})
	ls := labels(p.Reg)
	nn := g.pickI(1, 1, 2, 3)
	nconn := g.Range(2, 5)
	if g.P(0.05) {
		nn = 12
	}
	if g.P(0.004) {
		// a crowd, everybody under an own name
		n := g.pickI(10, 20, 40)
		for i := 0; i < n; i++ {
			cp := &CPlan{Up: zeroLat(g.profile()), Start: g.pickI(0, 0, 10, 30)}
			cp.Ops = append(cp.Ops, Op{K: "raw", ID: 1, N: 3, T: g.T(), URL: nameList[i], S: "ponline"})
			for k := g.Range(0, 3); k > 0; k-- {
				cp.Ops = append(cp.Ops, Op{K: "raw", ID: 2, N: 3, T: g.T(), URL: nameList[g.Intn(n)], S: g.pickS("pget", "psend"), D: g.pickI(0, 5, 50)})
			}
			if g.P(0.2) {
				cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 0, 1, 5, 50)})
			}
			g.fit(&cp.Up, 300)
			p.Conns = append(p.Conns, cp)
		}
		return p
	}
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Up: g.profile(), Down: g.profile(), Start: g.pickI(0, 0, 0, 1, 10, 30)}
		cp.Down.Window = 0
		if g.P(0.6) {
			cp.Up = zeroLat(cp.Up)
		}
		for k := g.Range(1, 6); k > 0; k-- {
			op := Op{K: "raw", ID: g.pickID(1, 2), N: 3, T: g.T(), URL: g.name(nn)}
			op.S = g.pickS("ponline", "ponline", "ponline", "poffline", "pget", "psend", "psend")
			op.X = g.Intn(2)
			op.J = g.P(0.3)
			if g.P(0.3) {
				op.D = g.pickI(1, 5, 20)
			}
			if g.P(0.3) {
				op.Sl = map[string]int{ls[g.Intn(len(ls))]: g.pickI(-1, -3, -8, 1, 5)}
			}
			cp.Ops = append(cp.Ops, op)
			if k == 1 && g.P(0.5) {
				if g.P(0.4) {
					cp.Ops = append(cp.Ops, Op{K: "raw", ID: 1, N: 3, T: g.T(), S: "hclose", J: g.P(0.5)})
					if g.P(0.5) {
						cp.Ops = append(cp.Ops, Op{K: "raw", ID: 1, N: 3, T: g.T(), URL: op.URL, S: "ponline"})
					}
				} else {
					cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 0, 1, 5)})
				}
			}
		}
		g.fit(&cp.Up, 300)
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.12) {
		p.Admin = append(p.Admin, Op{K: "stop", X: g.pickI(0, 1, 1), D: g.pickI(0, 1, 5, 20, 50)})
	}
	return p
}

func zeroLat(p zsim.NetProfile) zsim.NetProfile {
	p.LatMin, p.LatMax = 0, 0
	return p
}

// ---- the pool used directly -------------------------------------------------------------------------------------

type cin struct {
	k    string
	v    int
	name string
}

var cpoolModel = porcupine.Model{
	Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range ops {
			n := o.Input.(cin).name
			m[n] = append(m[n], o)
		}
		var out [][]porcupine.Operation
		for _, n := range nameList {
			if len(m[n]) > 0 {
				out = append(out, m[n])
			}
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		in := input.(cin)
		switch in.k {
		case "set", "online":
			return true, in.v
		case "get":
			return output.(int) == state.(int), state
		default:
			return true, 0
		}
	},
}

func cpoolWorld(r *Run) {
	pool := tcpx.NewClientPool()
	if r.pi("global") > 0 {
		pool = tcpx.GlobalClientPool
	}
	ctxs := make([]*tcpx.Context, 1)
	idx := map[*tcpx.Context]int{nil: 0}
	for i := 1; i <= 40; i++ {
		c := tcpx.NewContext(nil, nil)
		ctxs = append(ctxs, c)
		idx[c] = i
	}
	var ops []porcupine.Operation
	var t int64
	tick := func() int64 { t++; return t }
	nv := 0
	do := func(client int, op Op) {
		in := cin{k: op.S, name: op.URL}
		if op.S == "set" || op.S == "online" {
			nv++
			in.v = 1 + nv%40
		}
		call := tick()
		out := 0
		switch op.S {
		case "set":
			pool.SetClientPool(in.name, ctxs[in.v])
		case "online":
			pool.Online(in.name, ctxs[in.v])
		case "get":
			g := pool.GetClientPool(in.name)
			k, ok := idx[g]
			if !ok {
				k = 63
			}
			out = k
		case "delete":
			pool.DeleteFromClientPool(in.name)
		case "offline":
			pool.Offline(in.name)
		}
		ops = append(ops, porcupine.Operation{ClientId: client, Input: in, Output: out, Call: call, Return: tick()})
		r.cov("op-" + op.S)
	}
	done := 0
	for i, cp := range r.plan.Conns {
		i, cp := i, cp
		zsim.GoNamed(fmt.Sprint("user ", i), func() {
			for _, op := range cp.Ops {
				if op.D > 0 {
					zsim.SleepFor(time.Duration(op.D) * ms)
				}
				do(i, op)
			}
			done++
		})
	}
	if !zsim.WaitUntil(time.Minute, func() bool { return done == len(r.plan.Conns) }) {
		r.fail("C19", "stuck", "pool operations do not return")
		return
	}
	used := map[string]bool{}
	for _, o := range ops {
		used[o.Input.(cin).name] = true
	}
	for i, n := range nameList {
		if i > 3 && !used[n] {
			continue
		}
		do(90, Op{S: "get", URL: n})
		if k := idx[pool.Clients[n]]; ops[len(ops)-1].Output.(int) != k {
			r.fail("C19", "state", "the pool's map holds context %d for %q, the lookup says %v", k, n, ops[len(ops)-1].Output)
		}
	}
	r.covN("history-ops", len(ops))
	if !linearizable(cpoolModel, ops) {
		s := ""
		for _, o := range ops {
			s += fmt.Sprintf("\n  [%d,%d] %d: %v -> %v", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		}
		r.fail("C19", "history", "the history of the pool is not linearizable:%s", s)
	}
}

func genCPool(g *Gen) *Plan {
	p := &Plan{Kind: "cpool", Cfg: Cfg{P: map[string]int{"global": g.pickI(0, 0, 1)}}}
	nn := g.pickI(1, 1, 2, 4)
	if g.P(0.05) {
		nn = 12
	}
	left := 34
	if g.P(0.002) {
		// many names
		nn = g.pickI(20, 40, 90)
		for i := 0; i < 2; i++ {
			cp := &CPlan{}
			for k := 0; k < nn; k++ {
				cp.Ops = append(cp.Ops, Op{S: g.pickS("set", "online"), URL: nameList[k]})
				if g.P(0.3) {
					cp.Ops = append(cp.Ops, Op{S: g.pickS("get", "get", "delete"), URL: g.name(nn)})
				}
			}
			p.Conns = append(p.Conns, cp)
		}
		return p
	}
	for i := g.Range(2, 6); i > 0; i-- {
		cp := &CPlan{}
		for k := g.Range(1, 7); k > 0 && left > 0; k-- {
			left--
			op := Op{S: g.pickS("set", "online", "get", "get", "get", "delete", "offline"), URL: g.name(nn)}
			if g.P(0.15) {
				op.D = g.Range(1, 3)
			}
			cp.Ops = append(cp.Ops, op)
		}
		p.Conns = append(p.Conns, cp)
	}
	return p
}
