package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// Raw connections: the byte stream itself is handed to the handler. They live in the life world, next to framed ones.

type rawState struct {
	pos     int
	aborted bool
	depth   int
	in      []byte // what the handler read
	out     []byte // what the handler wrote successfully
	pend    []byte // what it is writing
	same    int    // bytes received and found right so far
	reading int
	began   bool
	done    bool
	eof     bool
	werr    error
	ctx     *tcpx.Context
	wbt     time.Duration // the last write
	wdt     time.Duration
	rdt     time.Duration // when reading failed
	writing bool
}

func (m *chainRef) rawChain() []string {
	return append(append(append([]string{}, m.globals...), m.anchors...), "raw")
}

// rawRun is every middleware and the handler of a raw connection.
func (e *Env) rawRun(label string, handler bool, c *tcpx.Context, cn *conn) {
	r := e.r
	w := cn.raw
	exp := e.chain.rawChain()
	switch {
	case w.done:
		r.fail("C17", "again", "%s ran for raw connection %d, whose chain had already ended", label, cn.i)
	case w.aborted:
		r.fail("C17", "after-abort", "%s ran for raw connection %d after the chain was aborted", label, cn.i)
	case w.pos >= len(exp) || exp[w.pos] != label:
		r.fail("C17", "order", "%s ran for raw connection %d at position %d of %v", label, cn.i, w.pos, exp)
	}
	if w.began && w.ctx != c {
		r.fail("C17", "context", "the chain of raw connection %d runs on several contexts", cn.i)
	}
	if cn.onConn == 0 && !r.plan.Cfg.NoOnConn {
		r.fail("C08", "message-before-connect", "raw connection %d was handled before its connect callback", cn.i)
	}
	if !w.began {
		w.began = true
		w.ctx = c
		cn.addCtx(c)
		if v, ok := c.GetCtxPerConn("ck"); ok {
			r.failP([]string{"C17", "C03"}, "context", "raw connection %d starts with a connection value: %v", cn.i, v)
		}
		if v, ok := c.GetCtxPerRequest("rk"); ok {
			r.failP([]string{"C17", "C03"}, "context", "raw connection %d starts with a request value: %v", cn.i, v)
		}
		c.SetCtxPerConn("ck", cn.i)
		c.SetCtxPerRequest("rk", cn.i)
	}
	if v, ok := c.GetCtxPerConn("ck"); !ok || v != cn.i {
		r.failP([]string{"C17", "C03"}, "context", "raw connection %d sees a foreign or no connection value: %v", cn.i, v)
	}
	if v, ok := c.GetCtxPerRequest("rk"); !ok || v != cn.i {
		r.failP([]string{"C17", "C03"}, "context", "raw connection %d sees a foreign or no request value: %v", cn.i, v)
	}
	if c.ConnReader == nil || c.ConnWriter == nil {
		r.fail("C17", "no-stream", "raw connection %d has no reader or writer", cn.i)
		return
	}
	w.pos++
	w.depth++
	e.active++
	last := w.pos == len(exp)
	for i := range cn.pl.H {
		op := &cn.pl.H[i]
		if op.S == label || op.S == "" && handler {
			e.rawOp(cn, c, op, label)
		}
	}
	switch {
	case cn.pl.RAb == label:
		w.aborted = true
		c.Abort()
		r.cov("raw-abort")
	case e.chain.next[label] && !handler:
		c.Next()
		if !w.aborted && w.pos < len(exp) {
			r.fail("C17", "next-returned-early", "Next called by %s of raw connection %d returned before the rest of the chain had run", label, cn.i)
		}
	}
	w.depth--
	e.active--
	if w.depth == 0 && (w.aborted || last) {
		w.done = true
	}
	if w.aborted || w.pos == len(exp) {
		cn.note("raw-end")
	}
}

func (e *Env) rawRead(cn *conn, c *tcpx.Context, buf []byte) (int, error) {
	w := cn.raw
	w.reading++
	n, err := c.ConnReader.Read(buf)
	w.reading--
	if n > 0 {
		at := len(w.in)
		if at+n > len(cn.stream) || !bytes.Equal(cn.stream[at:at+n], buf[:n]) {
			e.r.fail("C17", "read", "raw connection %d: the handler read %s at offset %d, the client sent something else", cn.i, short(buf[:n]), at)
		}
		w.in = append(w.in, buf[:n]...)
		if e.r.pi("rawbeat") > 0 {
			cn.note("beat")
			c.RecvHeartBeat()
		}
	}
	if err != nil {
		w.eof = true
		w.rdt = zsim.NowD()
	}
	return n, err
}

func (e *Env) rawWrite(cn *conn, c *tcpx.Context, b []byte) bool {
	w := cn.raw
	at := len(w.out)
	w.pend = append(append([]byte(nil), w.out...), b...)
	w.wbt, w.writing = zsim.NowD(), true
	n, err := c.ConnWriter.Write(b)
	w.wdt, w.writing = zsim.NowD(), false
	if n < 0 || n > len(b) || err == nil && n < len(b) {
		e.r.fail("C17", "write-count", "raw connection %d: writing %d bytes reports %d, %v", cn.i, len(b), n, err)
		return false
	}
	_ = at
	w.out = append(w.out, b[:n]...)
	if err != nil {
		w.werr = err
		return false
	}
	return true
}

func (e *Env) rawOp(cn *conn, c *tcpx.Context, op *Op, label string) {
	w := cn.raw
	if op.D > 0 {
		zsim.SleepFor(time.Duration(op.D) * ms)
	}
	for k := 0; k < op.CG; k++ {
		zsim.Yield()
	}
	buf := make([]byte, 1+op.N)
	switch op.K {
	case "echo", "sink":
		got := 0
		for op.X == 0 || got < op.X {
			b := buf
			if op.X > 0 && len(b) > op.X-got {
				b = b[:op.X-got]
			}
			n, err := e.rawRead(cn, c, b)
			got += n
			if op.K == "echo" && n > 0 && !e.rawWrite(cn, c, b[:n]) {
				return
			}
			if err != nil {
				return
			}
		}
		e.r.cov("raw-" + op.K)
	case "write":
		b := randBytes(uint64(op.T), op.X)
		for len(b) > 0 {
			n := len(b)
			if n > 1+op.N {
				n = 1 + op.N
			}
			if !e.rawWrite(cn, c, b[:n]) {
				return
			}
			b = b[n:]
		}
		e.r.cov("raw-write")
	case "duplex": // reads to the end while writing
		done := false
		zsim.GoNamed("raw reader", func() {
			for {
				if _, err := e.rawRead(cn, c, buf); err != nil {
					break
				}
			}
			done = true
		})
		b := randBytes(uint64(op.T), op.X)
		for len(b) > 0 {
			n := len(b)
			if n > 500 {
				n = 500
			}
			if !e.rawWrite(cn, c, b[:n]) {
				break
			}
			b = b[n:]
		}
		zsim.WaitUntil(time.Hour, func() bool { return done })
		e.r.cov("raw-duplex")
	case "hclose":
		cn.note("hclose")
		_ = c.CloseConn()
		e.r.cov("handler-close")
	}
	_ = w
	_ = label
}

// rawPlay runs the operations of a raw client.
func (e *Env) rawPlay(cn *conn) {
	for k := range cn.pl.Ops {
		op := &cn.pl.Ops[k]
		if cn.ended != "" && cn.ended != "closew" {
			break
		}
		if op.D > 0 {
			zsim.SleepFor(time.Duration(op.D) * ms)
		}
		switch op.K {
		case "send":
			if cn.ended != "" {
				continue
			}
			b := randBytes(uint64(op.T), op.N)
			cn.off += len(b)
			cn.stream = append(cn.stream, b...)
			n, _ := cn.c.Write(b)
			cn.acked += n
		case "ask":
			if cn.ended == "" {
				e.askRaw(cn, op)
			}
		case "close":
			cn.end("close")
			cn.c.Close()
		case "closew":
			if cn.ended == "" {
				cn.end("closew")
				cn.c.CloseWrite()
			}
		case "reset":
			cn.end("reset")
			cn.c.Reset()
		case "vanish":
			cn.end("vanish")
			cn.c.Vanish()
		case "partition":
			cn.c.Partition()
			cn.parts = append(cn.parts, span{zsim.NowD(), zsim.NowD() + time.Duration(op.X)*ms})
			zsim.At(time.Duration(op.X)*ms, cn.c.Heal)
		case "quiet":
			cn.quiet = true
			zsim.At(time.Duration(op.X)*ms, func() { cn.quiet = false })
		}
	}
	cn.quiet = false
	cn.opsDone = true
}

// rawReader reads everything the handler writes.
func (e *Env) rawReader(cn *conn) {
	rng := zsim.NewRand(zsim.Hash64(e.r.plan.Seed, 900, uint64(cn.i)))
	buf := make([]byte, 1+rng.Intn(3000))
	for {
		if cn.quiet {
			zsim.WaitUntil(time.Hour, func() bool { return !cn.quiet || cn.c.IsClosed() })
		}
		_, err := cn.c.Read(buf)
		e.rawRecv(cn, false)
		if err != nil {
			cn.readErr = err
			break
		}
	}
	cn.readDone = true
}

func (e *Env) rawRecv(cn *conn, full bool) {
	w := cn.raw
	got := cn.c.RecvAll
	all := w.pend
	if len(w.out) > len(all) {
		all = w.out
	}
	from := w.same
	if full || from > len(got) || from > len(all) {
		from = 0
	}
	if len(got) <= len(all) && bytes.Equal(got[from:], all[from:len(got)]) {
		w.same = len(got)
	} else {
		k := 0
		for k < len(got) && k < len(all) && got[k] == all[k] {
			k++
		}
		e.r.fail("C17", "received", "raw connection %d: from offset %d on the client received something the handler did not write: %s", cn.i, k, short(got[k:]))
	}
}

func (r *Run) hasRaw() bool {
	for _, a := range r.plan.Cfg.Addrs {
		if a.Mode == "raw" {
			return true
		}
	}
	return false
}

// rawMoved counts the progress of raw connections.
func (e *Env) rawMoved() int {
	n := 0
	for _, cn := range e.conns {
		if cn.raw != nil && cn.c != nil {
			n += len(cn.raw.in) + len(cn.raw.out) + len(cn.c.RecvAll) + cn.raw.pos
		}
	}
	return n
}

// checkRaw looks at a raw connection when everything has come to rest; final: every connection has ended.
func (e *Env) checkRaw(cn *conn, final bool) {
	r := e.r
	w := cn.raw
	if w == nil || cn.c == nil || !cn.c.Accepted() {
		return
	}
	e.rawRecv(cn, true)
	exp := e.chain.rawChain()
	if !w.began {
		r.fail("C17", "not-run", "the chain of raw connection %d did not run", cn.i)
		return
	}
	if final && !w.aborted && w.pos < len(exp) {
		r.fail("C17", "incomplete", "the chain of raw connection %d stopped at %d of %v", cn.i, w.pos, exp)
	}
	healthy := cn.ended == "" || cn.ended == "closew"
	rf, vague := e.readFires(cn)
	if w.reading > 0 && !vague && zsim.NowD() > rf+slackAfter(rf) {
		r.fail("C14", "read-deadline", "raw connection %d: the handler still waits for input, read deadline %v", cn.i, rf)
	}
	timedOut := w.eof && (vague || w.rdt >= rf-slack)
	if healthy && cn.ended == "" && w.eof && !timedOut && !cn.hit("hclose", "loss") && e.stopFor(cn) == nil {
		r.failP([]string{"C17", "C14"}, "read-failed", "raw connection %d: reading failed at %v although the client has not ended (read deadline %v)", cn.i, w.rdt, rf)
	}
	if healthy && w.reading > 0 && len(w.in) < cn.acked && !cn.c.PeerClosed() {
		r.fail("C17", "read-stuck", "raw connection %d: the handler waits for input after %d of %d bytes sent", cn.i, len(w.in), cn.acked)
	}
	if w.reading > 0 && cn.ended != "" && cn.ended != "vanish" {
		r.fail("C17", "read-stuck", "raw connection %d: the handler still waits for input although the client has ended (%s)", cn.i, cn.ended)
	}
	// reading to the end of a stream that ended in an orderly way must give all of it
	if w.eof && !timedOut && (cn.ended == "closew" || cn.ended == "close" && !cn.pl.Up.DropRST) && !cn.hit("hclose", "loss") && e.stopFor(cn) == nil && len(w.in) < cn.acked {
		r.fail("C17", "read-lost", "raw connection %d: the handler read to the end and got %d of %d bytes sent", cn.i, len(w.in), cn.acked)
	}
	if healthy && !cn.pl.Down.DropRST && len(cn.c.RecvAll) < len(w.out) {
		r.fail("C17", "write-lost", "raw connection %d: the handler wrote %d bytes, the client received %d", cn.i, len(w.out), len(cn.c.RecvAll))
	}
	if healthy && w.werr != nil && !e.writeMay(cn, w.wbt, w.wdt) && !cn.hit("hclose", "loss") && e.stopFor(cn) == nil {
		r.fail("C17", "write-failed", "raw connection %d: writing to a healthy connection failed: %v", cn.i, w.werr)
	}
	r.covN("raw-bytes-in", len(w.in))
	r.covN("raw-bytes-out", len(w.out))
}

func (cn *conn) hit(ks ...string) bool { return firstEv(cn, ks...) != nil }

// ---- generator ---------------------------------------------------------------------------------------------------

func init() {
	gens["C17"] = append(gens["C17"], wgen{10, genRaw})
	gens["C08"] = append(gens["C08"], wgen{2, genRaw})
	gens["C09"] = append(gens["C09"], wgen{1, genRaw})
}

func genRaw(g *Gen) *Plan {
	p := &Plan{Kind: "life"}
	c := &p.Cfg
	g.ambient(c)
	c.Auth, c.HB = 0, 0
	c.MaxByte = 0
	c.TLS = false
	c.P = map[string]int{}
	if g.prop == "C09" || g.P(0.25) {
		c.HB = g.pickI(200, 500, 1000)
		c.HBID = 1392
		c.HBRewrite = false
		c.HBPlain = g.P(0.5)
		c.P["rawbeat"] = 1
		if g.P(0.2) {
			c.P["losssleep"] = g.pickI(1, 30, 300)
		}
	}
	if g.P(0.3) {
		c.P["stopend"] = 1
	}
	regs, ids, urls := g.genReg(c, g.P(0.3))
	for _, x := range regs {
		if x.K != "unuse" {
			p.Reg = append(p.Reg, x)
		}
	}
	// used again without having been unused: drop
	seen := map[string]bool{}
	for i := range p.Reg {
		if p.Reg[i].K != "use" {
			continue
		}
		var ls []string
		for _, l := range p.Reg[i].L {
			if !seen[l] {
				seen[l] = true
				ls = append(ls, l)
			}
		}
		p.Reg[i].L = ls
	}
	c.Addrs = []Addr{{Mode: "raw", Net: g.netKind()}}
	if g.P(0.3) {
		c.Addrs = append(c.Addrs, Addr{Mode: "raw", Net: g.netKind()})
	}
	framed := -1
	if g.P(0.4) {
		framed = len(c.Addrs)
		c.Addrs = append(c.Addrs, Addr{Mode: g.pickS("", "direct"), Net: g.netKind()})
	} else if g.P(0.2) {
		c.MaxByte = int32(g.pickI(1, 16, 100, 3000)) // there are no messages in raw mode
	}
	var plain []int32
	for _, x := range ids {
		if x != c.HBID {
			plain = append(plain, x)
		}
	}
	ls := labels(p.Reg)
	var mids []string
	for _, x := range p.Reg {
		if x.K == "use" || x.K == "global" {
			mids = append(mids, x.L...)
		}
	}
	nconn := g.Range(1, 4)
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Start: g.pickI(0, 0, 0, 5, 50), Up: g.profile(), Down: g.profile(), Addr: g.Intn(len(c.Addrs))}
		if c.HB == 0 && g.P(0.1) {
			cp.CSl = g.pickI(1, 20)
		}
		if g.P(0.1) {
			cp.XSl = g.pickI(1, 20, 150)
		}
		if g.P(0.05) {
			cp.OX = "close"
		}
		if cp.Addr == framed {
			cp.Down.Window = 0
			for k := g.Range(1, 4); k > 0 && (len(plain) > 0 || len(urls) > 0); k-- {
				m := g.message(p, plain, urls, ls, tweak{sleep: 0.2, reply: 0.5, url: 0.2, rmax: 1}, nconn)
				if m.N > 5000 {
					m.N = 50
				}
				for j := range m.R {
					if m.R[j].N > 5000 {
						m.R[j].N = 10
					}
				}
				m.D = g.pickI(0, 0, 5, 60)
				cp.Ops = append(cp.Ops, m)
			}
			if g.P(0.4) {
				cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 10, 100)})
			}
			p.Conns = append(p.Conns, cp)
			continue
		}
		vol, wvol := 0, 0
		// the handler
		for k := g.pickI(1, 1, 1, 2, 3); k > 0; k-- {
			op := Op{K: g.pickS("echo", "echo", "sink", "write", "write", "duplex"), N: g.pickI(0, 1, 15, 99, 511, 4095), T: g.T()}
			switch op.K {
			case "echo", "sink":
				op.X = g.pickI(0, 0, 1, 10, 100, 3000)
			case "write", "duplex":
				op.X = g.pickI(0, 1, 30, 700, 5000)
				if g.P(0.15) { // in one piece or in several
					op.X = g.pickI(20000, 33000, 66000, 140000)
					op.N = g.pickI(op.X, op.X/2, op.X/7)
				}
				wvol += op.X
				if op.N > 0 && op.X/op.N > 300 || op.N == 0 && op.X > 300 {
					op.N = op.X / 100
				}
			}
			if g.P(0.2) {
				op.D = g.pickI(1, 10, 100)
			}
			op.CG = g.pickI(0, 0, 0, 1, 5)
			if len(mids) > 0 && g.P(0.1) {
				op.S = mids[g.Intn(len(mids))]
			}
			cp.H = append(cp.H, op)
		}
		if g.P(0.15) {
			cp.H = append(cp.H, Op{K: "hclose", D: g.pickI(0, 0, 20)})
		}
		if len(mids) > 0 && g.P(0.15) {
			cp.RAb = mids[g.Intn(len(mids))]
		}
		if g.P(0.05) {
			cp.H = nil
		}
		if g.P(0.1) {
			cp.Ops = append(cp.Ops, Op{K: "quiet", X: g.pickI(1, 50, 400)})
		}
		for k := g.pickI(0, 1, 1, 2, 3, 5); k > 0; k-- {
			op := Op{K: "send", T: g.T(), N: g.pickI(1, 1, 5, 40, 300, 3000), D: g.pickI(0, 0, 0, 1, 20, 200)}
			if g.P(0.04) {
				op.N = g.pickI(20000, 70000)
			}
			if g.P(0.002) {
				op.N = g.pickI(300000, 1100000, 2200000)
			}
			if c.HB > 0 {
				op.D = g.pickI(0, 1, c.HB, c.HB*2, c.HB*5/2, c.HB*3-30, c.HB*3+30)
			}
			vol += op.N
			cp.Ops = append(cp.Ops, op)
		}
		if g.P(0.1) {
			cp.Ops = append(cp.Ops, Op{K: "partition", X: g.pickI(10, 200)})
		}
		if g.P(0.6) {
			cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "closew", "reset", "vanish"), D: g.pickI(0, 0, 0, 1, 50, 300)})
		}
		if vol > 20000 {
			for k := range cp.H {
				cp.H[k].N += 200 + vol/300
				if vol > 200000 && (cp.H[k].K == "echo" || cp.H[k].K == "sink") {
					cp.H[k].X *= 1000
				}
			}
			wvol += vol
		}
		g.fit(&cp.Up, vol)
		g.fit(&cp.Down, 6000+wvol)
		p.Conns = append(p.Conns, cp)
	}
	if g.P(0.15) {
		p.Admin = append(p.Admin, Op{K: "stop", X: g.Intn(2), D: g.pickI(0, 1, 50, 400)})
	}
	return p
}

var _ = fmt.Sprint
