package main

import (
	"fmt"
	"math"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// Gen makes plans from a seed.
type Gen struct {
	*zsim.Rand
	tag  int
	prop string
	slow bool // some handlers take minutes
}

func (g *Gen) T() int { g.tag++; return g.tag }

func (g *Gen) pickI(xs ...int) int       { return xs[g.Intn(len(xs))] }
func (g *Gen) pickS(xs ...string) string { return xs[g.Intn(len(xs))] }
func (g *Gen) pickID(xs ...int32) int32  { return xs[g.Intn(len(xs))] }
func (g *Gen) strategy() zsim.Strategy {
	s := zsim.Strategy{SchedSeed: g.Uint64() >> 1}
	switch x := g.Intn(100); {
	case x < 8:
		s.Mode = "fifo"
		s.RandSel = g.P(0.5)
	case x < 45:
		s.Mode = "walk"
		s.P = []float64{0.005, 0.02, 0.1, 0.3}[g.Intn(4)]
		s.PV = s.P * float64(1+g.Intn(4))
		if s.PV > 0.6 {
			s.PV = 0.6
		}
	case x < 75:
		s.Mode = "pct"
		s.D = 1 + g.Intn(5)
		s.Len = []int{300, 2000, 8000}[g.Intn(3)]
	default:
		s.Mode = "stall"
		s.Hot = []int{5, 20, 60}[g.Intn(3)]
		s.Hold = []int{20, 200, 2000}[g.Intn(3)]
		s.P = []float64{0, 0.01, 0.05}[g.Intn(3)]
		s.PV = s.P * 2
	}
	return s
}

func (g *Gen) profile() zsim.NetProfile {
	var p zsim.NetProfile
	switch g.Intn(6) {
	case 0, 1:
	case 2:
		p.MaxSeg = g.pickI(2, 3, 5, 16, 100, 1460)
	case 3:
		p.MaxSeg = g.pickI(7, 50, 600)
		p.LatMax = time.Duration(g.pickI(1, 5, 20)) * time.Millisecond
	case 4:
		p.LatMin = time.Duration(g.Intn(10)) * time.Millisecond
		p.LatMax = p.LatMin + time.Duration(g.Intn(10))*time.Millisecond
	case 5:
		p.ReadFrag = true
	}
	p.EOFData = g.P(0.4)
	if g.P(0.15) {
		p.Window = g.pickI(64, 1000, 4096, 70000)
	}
	return p
}

// fit keeps fine segmentation and small windows to small volumes.
func (g *Gen) fit(p *zsim.NetProfile, volume int) {
	if volume < 1500 && g.P(0.3) {
		p.OneByte = true
	}
	if p.MaxSeg > 0 && volume/p.MaxSeg > 400 {
		p.MaxSeg = 1 + volume/400
	}
	if p.Window > 0 && volume/p.Window > 100 {
		p.Window = 1 + volume/100
	}
	if volume > 20000 {
		p.ReadFrag = false
	}
}

func (g *Gen) id() int32 {
	switch g.Intn(10) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return g.pickID(math.MaxInt32, math.MinInt32)
	case 3:
		return g.pickID(1392, 1393, -1392)
	}
	return int32(1 + g.Intn(6))
}

func (g *Gen) size() int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return g.Range(1000, 1030)
	case 3:
		if g.P(0.4) {
			return g.Range(4070, 4100)
		}
		return g.Range(200, 600)
	case 4:
		if g.P(0.02) {
			return g.pickI(300000, 300000, 900000, 1<<20+7)
		}
		if g.P(0.25) {
			return g.pickI(65535, 65536, 16384, 16385, 100000, 200000)
		}
		return g.Range(1, 64)
	}
	return g.Range(2, 64)
}

// uname is the user name of a client; some names differ in case only.
func uname(i int) string {
	if i%2 == 1 {
		return fmt.Sprint("U", i/2)
	}
	return fmt.Sprint("u", i/2)
}

func (g *Gen) netKind() string {
	if g.P(0.6) {
		return "tcp"
	}
	return g.pickS("tcp4", "tcp6", "unix", "unixpacket")
}

func (g *Gen) ambient(c *Cfg) {
	c.Net = g.netKind()
	c.TLS = c.Net != "unix" && c.Net != "unixpacket" && g.P(0.15)
	if g.P(0.5) {
		c.Marsh = g.pickS(marshNames...)
	}
	c.Pool = g.P(0.5)
	c.Sig = g.P(0.4)
	c.Direct = g.P(0.2)
	if g.P(0.3) {
		c.HB = g.pickI(40000, 60000)
		c.HBID = g.pickID(1392, 1392, 77, 0)
		c.HBThrough = g.P(0.5)
		c.HBRewrite = g.P(0.5)
		c.HBPlain = c.HBID == 1392 && !c.HBThrough && g.P(0.5)
	}
	if g.P(0.25) {
		c.Auth = 120000
		c.AuthID = g.pickID(1393, 1393, 88)
		c.AuthThr = g.P(0.5)
	}
	if g.P(0.2) {
		c.MaxByte = int32(g.pickI(1<<22, 1<<24, math.MaxInt32))
	}
	c.NoOnConn = g.P(0.1)
	c.NoOnClose = g.P(0.1)
}

// weighted plan generators per property
type wgen struct {
	w int
	f func(*Gen) *Plan
}

var gens = map[string][]wgen{}

func genPlan(prop string, seed uint64) *Plan {
	g := &Gen{Rand: zsim.NewRand(seed), prop: prop}
	gs := gens[prop]
	t := 0
	for _, x := range gs {
		t += x.w
	}
	k := g.Intn(t)
	for _, x := range gs {
		if k < x.w {
			p := x.f(g)
			p.Seed = g.Uint64() >> 1
			p.Strat = g.strategy()
			return p
		}
		k -= x.w
	}
	return nil
}
