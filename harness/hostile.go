package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"runtime"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// The hostile world: some clients send malformed or oversized input, others are well-behaved witnesses. The witnesses
// must be served as if they were alone, and the server must survive and keep accepting.
func init() {
	worlds["hostile"] = func(r *Run) {
		e := newEnv(r)
		e.malformed = true
		e.build()
		e.start()
		e.hostile()
	}
	gens["C06"] = append(gens["C06"], wgen{10, genHostile})
	gens["C07"] = append(gens["C07"], wgen{10, genLimit})
}

func (e *Env) hostile() {
	r := e.r
	var m0, m1 runtime.MemStats
	mem := r.pi("mem") > 0
	if mem {
		runtime.ReadMemStats(&m0)
	}
	var spread func(i int)
	spread = func(i int) {
		pl := r.plan.Conns[i]
		if pl.Start > 0 {
			zsim.SleepFor(time.Duration(pl.Start) * ms)
		}
		cn := e.open(i, e.addr)
		if cn.c == nil {
			cn.opsDone, cn.readDone = true, true
			return
		}
		zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, pl.Read) })
		e.play(cn)
		if cn.bad && cn.ended == "" && r.plan.Cfg.MaxByte > 0 && r.on("C07") && cn.overSent() {
			// the client waits for the server's reaction
			lat := cn.pl.Up.LatMax + cn.pl.Up.LatMin
			if !zsim.WaitUntil(500*ms+lat, func() bool { return cn.c.PeerClosed() }) {
				r.fail("C07", "not-closed", "connection %d announced a message beyond the limit of %d bytes and was not closed within 500 ms", cn.i, r.plan.Cfg.MaxByte)
			}
			r.cov("refused-promptly")
		}
	}
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() { spread(i) })
	}
	ok := zsim.WaitUntil(60*time.Second, func() bool {
		if len(e.conns) < len(r.plan.Conns) || e.active > 0 {
			return false
		}
		for _, cn := range e.conns {
			if !cn.opsDone || e.outstanding(cn) != "" {
				return false
			}
		}
		return true
	})
	zsim.SleepFor(200 * ms)
	zsim.Settle()
	if mem {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 12<<20 {
			r.fail("C07", "buffered", "refusing a message with an announced length beyond the limit allocated %d bytes", d)
		}
		r.cov("memory-check")
	}
	for _, cn := range e.conns {
		e.checkDispatch(cn)
		if !cn.bad {
			e.checkReplies(cn)
		}
		if cn.c != nil && !cn.bad && cn.ended == "" && cn.c.PeerClosed() {
			r.failP([]string{"C06", "C07"}, "witness-closed", "the server closed connection %d, which did nothing wrong", cn.i)
		}
	}
	if !ok {
		for _, cn := range e.conns {
			if s := e.outstanding(cn); s != "" || !cn.opsDone {
				r.failP([]string{"C06", "C07"}, "no-progress", "connection %d: %s", cn.i, s)
			}
		}
	}
	e.finish()
}

// overSent: the client sent (at least the length of) a message beyond the limit in a place where the server looks for a length.
func (cn *conn) overSent() bool {
	for _, s := range cn.sent {
		if s.cut && s.end-len(s.raw) == cn.badAt {
			return cn.acked >= cn.badAt+4
		}
	}
	return cn.pl.hasOver() && cn.acked >= cn.badAt+4
}

func (p *CPlan) hasOver() bool {
	for _, o := range p.Ops {
		if o.K == "bytes" {
			return false
		}
	}
	for _, o := range p.Ops {
		if o.K == "over" {
			return true
		}
	}
	return false
}

// ---- generators ---------------------------------------------------------------------------------------------------

func (g *Gen) serverPlan(kind string) (p *Plan, ids []int32, urls []string, ls []string) {
	p = &Plan{Kind: kind}
	g.ambient(&p.Cfg)
	p.Cfg.MaxByte = 0
	p.Reg, ids, urls = g.genReg(&p.Cfg, false)
	ls = labels(p.Reg)
	return
}

// witness makes a well-behaved client.
func (g *Gen) witness(p *Plan, ids []int32, urls, ls []string, i, nconn int, maxN int) *CPlan {
	cp := &CPlan{Up: g.profile(), Down: g.profile(), Start: g.pickI(0, 0, 5, 40, 200), Name: uname(i)}
	cp.Read = g.pickS("", "recv", "unpack")
	t := tweak{sleep: 0.2, reply: 0.8, url: 0.2, scope: 0.1, rmax: 2}
	vol := 0
	for k := g.Range(1, 5); k > 0; k-- {
		m := g.message(p, ids, urls, ls, t, nconn)
		if m.N > maxN {
			m.N = maxN
		}
		for j := range m.R {
			if m.R[j].To > 0 {
				m.R[j] = Rep{M: "JSON", ID: 1, N: 5}
			}
			if m.R[j].N > 2000 {
				m.R[j].N = 2000
			}
		}
		if g.P(0.5) {
			m.D = g.Range(1, 100)
		}
		vol += m.N
		cp.Ops = append(cp.Ops, m)
	}
	g.fit(&cp.Up, vol)
	return cp
}

func be(x uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, x); return b }

func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// evil makes malformed or unusual bytes.
func (g *Gen) evil(ids []int32) []byte {
	id := int32(99)
	if len(ids) > 0 {
		id = ids[g.Intn(len(ids))]
		if id > 1<<20 && g.P(0.95) {
			id = 99 // read as a length it would make the server allocate that much, which only costs time here
		}
	}
	hdr := []byte("{}")
	body := randBytes(g.Uint64(), g.pickI(0, 1, 5, 40, 300))
	u := func() uint32 {
		switch g.Intn(8) {
		case 0:
			return 0
		case 1:
			return uint32(g.Intn(20))
		case 2:
			return math.MaxUint32 - uint32(g.Intn(20))
		case 3:
			return 1<<31 + uint32(g.Intn(20))
		case 4:
			if g.P(0.3) {
				return 1<<31 - 1 - uint32(g.Intn(20))
			}
			return 1<<31 + uint32(g.Uint64()>>33)
		case 5:
			return uint32(g.Intn(400))
		}
		return uint32(g.Uint64()) | 1<<31
	}
	pipes := []string{`"enable"`, `"enable;"`, `"enable;x"`, `"enable;-1"`, `"enable;0"`, `"enable;-9223372036854775808"`, `"enable;99999999999999999999"`,
		`"enable;1000000000"`, `"enable;9223372036854775807"`, `"disable;3"`, `"disable;-3"`, `";"`, `""`, `"enable;2;3"`, `7`, `null`, `true`, `{}`, `[1]`, `"enable;1"`, `"enable;2"`, `"enable; 2"`, `" enable;2"`, `"enable;+2"`, `"enable;0x2"`, `1e9`}
	switch g.Intn(14) {
	case 0: // impossible outer length
		n := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 1 << 31, 1<<31 + 1, math.MaxUint32, math.MaxUint32 - 3, math.MaxUint32 - 4}[g.Intn(15)]
		b := cat(be(n), be(uint32(id)), be(2), be(uint32(len(body))), hdr, body)
		if n < 12 && g.P(0.5) {
			return b[:4+n]
		}
		return b
	case 1, 2: // inconsistent inner lengths
		b := encode(id, hdr, body)
		copy(b[8:], be(u()))
		if g.P(0.5) {
			copy(b[12:], be(u()))
		}
		return b
	case 3:
		b := encode(id, hdr, body)
		copy(b[12:], be(u()))
		return b
	case 4: // broken headers
		h := []string{``, `{`, `}`, `[]`, `"x"`, `1`, `null`, `true`, `{"a":}`, `{"a":1}x`, "\xff\xfe", `{"a":{"b":{"c":[[[[1]]]]}}}`, "\x00\x00", `{"":null}`}[g.Intn(14)]
		return encode(id, []byte(h), body)
	case 5: // broken routing
		k := []string{`5`, `null`, `["URL_PATTERN"]`, `{}`, `"NOWHERE"`, `""`, `"url_pattern"`}[g.Intn(7)]
		h := `{"Router-Type":` + k + `,"Router-Pattern-Value":"/a"}`
		if g.P(0.5) {
			v := []string{`5`, `null`, `["/a"]`, `{}`, `""`, `"/zzz"`}[g.Intn(6)]
			h = `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":` + v + `}`
		} else if g.P(0.3) {
			h = `{"Router-Type":"URL_PATTERN"}`
		}
		return encode(id, []byte(h), body)
	case 6, 7, 8: // broken batches
		h := `{"[tcpx-buffer-in-serial]":` + pipes[g.Intn(len(pipes))] + `}`
		b := encode(id, []byte(h), body)
		for k := g.Intn(4); k > 0; k-- {
			switch g.Intn(5) {
			case 0:
				b = cat(b, be(uint32(g.Intn(12))), randBytes(g.Uint64(), g.Intn(12)))
			case 1:
				x := encode(id, []byte(`{`), body)
				b = cat(b, x)
			case 2:
				x := encode(id, hdr, body)
				copy(x[8:], be(u()))
				b = cat(b, x)
			case 3:
				b = cat(b, encode(id, []byte(h), body))
			default:
				b = cat(b, encode(id, hdr, body))
			}
		}
		return b
	case 9: // random
		n := g.pickI(1, 3, 4, 8, 15, 16, 30, 200)
		b := randBytes(g.Uint64(), n)
		if len(b) >= 4 && g.P(0.7) {
			copy(b, be(uint32(g.Intn(300))))
		} else if len(b) >= 4 && g.P(0.9) {
			b[0] |= 0x80
		} else {
			b[0] &= 3
		}
		return b
	case 10: // truncated
		b := encode(id, hdr, body)
		return b[:g.Intn(len(b))]
	case 11: // mutated
		b := encode(id, []byte(`{"a":"b"}`), body)
		for k := g.Range(1, 4); k > 0; k-- {
			b[g.Intn(len(b))] ^= byte(1 << g.Intn(8))
		}
		if n := binary.BigEndian.Uint32(b); n > 1<<20 && n < 1<<31 {
			b[0] = 0
			b[1] = 0
		}
		return b
	case 12: // a block that contains another one
		in := encode(id, hdr, []byte("inner"))
		b := encode(id, hdr, in)
		copy(b[12:], be(0))
		return b
	default: // announces more than it sends
		n := uint32(g.pickI(13, 100, 5000, 1<<20, 1<<24))
		return cat(be(n), be(uint32(id)), be(2), be(n-14), hdr, body)
	}
}

func genHostile(g *Gen) *Plan {
	p, ids, urls, ls := g.serverPlan("hostile")
	if g.P(0.3) {
		p.Cfg.MaxByte = int32(g.pickI(1<<20, 300000))
	}
	if g.P(0.1) {
		p.Cfg.OnMsg = true
		p.Cfg.HB, p.Cfg.Auth = 0, 0
	}
	nw, na := g.Range(1, 2), g.Range(1, 3)
	n := nw + na
	for i := 0; i < nw; i++ {
		p.Conns = append(p.Conns, g.witness(p, ids, urls, ls, i, n, 5000))
	}
	for i := 0; i < na; i++ {
		cp := &CPlan{Up: g.profile(), Down: g.profile(), Start: g.pickI(0, 0, 10, 50)}
		vol := 0
		for k := g.Range(0, 2); k > 0; k-- {
			m := g.message(p, ids, urls, ls, tweak{url: 0.3, reply: 0.3, rmax: 1}, n)
			if m.N > 2000 {
				m.N = 100
			}
			for j := range m.R {
				if m.R[j].To > 0 || m.R[j].N > 2000 {
					m.R[j] = Rep{M: "JSON", ID: 1, N: 5}
				}
			}
			m.J = g.P(0.5)
			vol += m.N
			cp.Ops = append(cp.Ops, m)
		}
		for k := g.pickI(1, 1, 1, 2, 3); k > 0; k-- {
			b := g.evil(ids)
			vol += len(b)
			op := Op{K: "bytes", Hex: hex.EncodeToString(b), J: g.P(0.5)}
			if g.P(0.2) {
				op.D = g.Range(1, 50)
			}
			cp.Ops = append(cp.Ops, op)
		}
		switch g.Intn(5) {
		case 0:
		case 1:
			cp.Ops = append(cp.Ops, Op{K: "close", D: g.pickI(0, 0, 30)})
		case 2, 3:
			cp.Ops = append(cp.Ops, Op{K: "closew", D: g.pickI(0, 0, 30)})
		case 4:
			cp.Up.DropRST = g.P(0.5)
			cp.Ops = append(cp.Ops, Op{K: "reset", D: g.pickI(0, 0, 30)})
		}
		g.fit(&cp.Up, vol)
		p.Conns = append(p.Conns, cp)
	}
	// the witnesses do not have to be first
	for i := len(p.Conns) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		p.Conns[i], p.Conns[j] = p.Conns[j], p.Conns[i]
	}
	return p
}

func genLimit(g *Gen) *Plan {
	p, ids, urls, ls := g.serverPlan("hostile")
	lim := g.pickI(40, 64, 100, 200, 1000, 5000, 70000)
	if g.P(0.5) {
		lim += g.Intn(30)
	}
	p.Cfg.MaxByte = int32(lim)
	p.Cfg.P = map[string]int{}
	near := func() int {
		return g.pickI(lim, lim, lim-1, lim+1, lim+1, lim+g.Range(2, 40), lim*2, g.Range(14, lim), g.Range(14, lim), lim-g.Range(0, 10))
	}
	nconn := g.Range(1, 3)
	for i := 0; i < nconn; i++ {
		cp := &CPlan{Up: g.profile(), Down: g.profile(), Start: g.pickI(0, 0, 10, 50), Name: uname(i)}
		vol := 0
		fit := func(n int) Op {
			m := g.message(p, ids, nil, ls, tweak{sleep: 0.2, reply: 0.3, rmax: 1}, nconn)
			m.K, m.N, m.H = "fit", n, 0
			for j := range m.R {
				if m.R[j].To > 0 || m.R[j].N > 2000 {
					m.R[j] = Rep{M: "JSON", ID: 1, N: 5}
				}
			}
			vol += n
			return m
		}
		_ = urls
		for k := g.Range(1, 5); k > 0; k-- {
			if g.P(0.35) {
				op := Op{K: "pipe", T: g.T()}
				for j := g.Range(2, 5); j > 0; j-- {
					n := near()
					if g.P(0.6) && n > lim {
						n = lim
					}
					op.B = append(op.B, fit(n))
				}
				cp.Ops = append(cp.Ops, op)
				continue
			}
			n := near()
			if g.P(0.5) && n > lim {
				n = lim - g.Intn(3)
			}
			op := fit(n)
			op.J = g.P(0.4)
			if g.P(0.2) {
				op.D = g.Range(1, 40)
			}
			cp.Ops = append(cp.Ops, op)
		}
		if g.P(0.5) {
			// announce too much, send little
			n := g.pickI(lim+1, lim+2, lim*2, 1<<20, 1<<24, 1<<26)
			if g.P(0.15) && lim <= 5000 {
				n = 1 << 26
				p.Cfg.P["mem"] = 1
			} else if g.P(0.2) {
				n = math.MaxInt32 - g.Intn(5)
				if lim > 1<<20 {
					n = lim + 1
				}
			}
			if n <= lim {
				n = lim + 1
			}
			cp.Ops = append(cp.Ops, Op{K: "over", N: n, X: g.pickI(4, 4, 5, 16, 18, 40), ID: 1, T: g.T(), J: true})
		}
		if g.P(0.3) {
			cp.Ops = append(cp.Ops, Op{K: g.pickS("close", "closew", "reset"), D: g.pickI(0, 5, 100)})
		}
		g.fit(&cp.Up, vol)
		p.Conns = append(p.Conns, cp)
	}
	return p
}
