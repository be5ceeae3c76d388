package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// The exit world: exit hooks are registered and termination signals arrive, once or repeatedly, while the server works.
func init() {
	worlds["exit"] = func(r *Run) {
		e := newEnv(r)
		e.build()
		e.exit()
	}
	gens["C18"] = append(gens["C18"], wgen{10, genExit})
}

func (e *Env) exit() {
	r := e.r
	var hooks []*Op
	var sigs []*Op
	for i := range r.plan.Admin {
		op := &r.plan.Admin[i]
		switch op.K {
		case "hook":
			hooks = append(hooks, op)
		case "sig":
			sigs = append(sigs, op)
		}
	}
	began, ended := 0, 0
	sent := 0
	var firstAt time.Duration
	total := time.Duration(0)
	zsim.OnExit(func() {
		switch {
		case zsim.ExitCode() == -1:
			r.fail("C18", "killed", "a termination signal killed the process although exit hooks were registered")
		case sent == 0:
			r.fail("C18", "no-signal", "the process exited without a signal")
		case ended < len(hooks):
			r.fail("C18", "hooks-skipped", "the process exited after %d of %d hooks had completed", ended, len(hooks))
		case zsim.ExitCode() != 0:
			r.fail("C18", "status", "the process exited with status %d", zsim.ExitCode())
		}
		r.cov("exited")
	})
	var fs []func()
	for k, h := range hooks {
		k, h := k, h
		total += time.Duration(h.D) * ms
		fs = append(fs, func() {
			switch {
			case sent == 0:
				r.fail("C18", "no-signal", "hook %d ran without a signal", k)
			case k < began:
				r.fail("C18", "twice", "hook %d ran more than once", k)
			case k != began || ended < k:
				r.fail("C18", "order", "hook %d ran when %d hooks had begun and %d had completed", k, began, ended)
			}
			began++
			if h.D > 0 {
				zsim.SleepFor(time.Duration(h.D) * ms)
			}
			for j := 0; j < h.CG; j++ {
				zsim.Yield()
			}
			switch h.S {
			case "stop":
				if !e.stopped {
					e.stopped = true
					e.closedAll = h.X == 1
					_ = e.srv.Stop(h.X == 1)
				}
			case "go": // a hook may use goroutines and channels of its own
				done := false
				zsim.GoNamed("hook worker", func() { zsim.Yield(); done = true })
				zsim.WaitUntil(time.Second, func() bool { return done })
			}
			ended++
			r.cov("hook")
		})
	}
	signals := func() {
		for _, s := range sigs {
			if s.D > 0 {
				zsim.SleepFor(time.Duration(s.D) * ms)
			}
			for j := 0; j < s.CG; j++ {
				zsim.Yield()
			}
			if sent == 0 {
				firstAt = zsim.NowD()
			}
			sent++
			r.cov(fmt.Sprint("signal-", s.ID))
			zsim.Fault("signal")
			zsim.Kill(syscall.Signal(s.ID))
		}
	}
	zsim.GoNamed("registrar", func() {
		for j := 0; j < r.pi("late"); j++ {
			zsim.Yield()
		}
		e.srv.BeforeExit(fs...)
		zsim.GoNamed("signals", signals)
	})
	if r.pi("serve") > 0 {
		e.start()
		for i := range r.plan.Conns {
			i := i
			zsim.GoNamed(fmt.Sprint("client ", i), func() {
				if e.stopped {
					return
				}
				cn := e.open(i, e.addr)
				cn.srvClose = true
				if cn.c == nil {
					return
				}
				zsim.GoNamed(fmt.Sprint("reader ", i), func() { e.readLoop(cn, "") })
				e.play(cn)
			})
		}
	}
	if len(sigs) > 0 {
		zsim.WaitUntil(time.Minute, func() bool { return sent > 0 })
		zsim.SleepFor(total + 5*time.Second)
		r.fail("C18", "not-exited", "a termination signal arrived at %v, but the process has not exited; %d of %d hooks have completed", firstAt, ended, len(hooks))
		return
	}
	zsim.SleepFor(5 * time.Second)
	if began > 0 {
		r.fail("C18", "no-signal", "a hook ran without a signal")
	}
}

func genExit(g *Gen) *Plan {
	p := &Plan{Kind: "exit"}
	c := &p.Cfg
	g.ambient(c)
	c.P = map[string]int{}
	var ids []int32
	var urls []string
	p.Reg, ids, urls = g.genReg(c, false)
	ls := labels(p.Reg)
	if g.P(0.7) {
		c.P["serve"] = 1
	}
	c.P["late"] = g.pickI(0, 0, 3, 20)
	nh := g.pickI(0, 1, 1, 2, 2, 3, 5)
	if g.P(0.02) {
		nh = g.pickI(9, 20, 40, 70, 130)
	}
	for k := nh; k > 0; k-- {
		h := Op{K: "hook", D: g.pickI(0, 0, 0, 1, 50, 3000), CG: g.pickI(0, 0, 1, 5, 30)}
		switch g.Intn(6) {
		case 0:
			h.S = "stop"
			h.X = g.Intn(2)
		case 1:
			h.S = "go"
		}
		p.Admin = append(p.Admin, h)
	}
	n := g.pickI(1, 1, 1, 2, 3, 6)
	if g.P(0.05) {
		n = 0
	}
	for ; n > 0; n-- {
		p.Admin = append(p.Admin, Op{K: "sig", ID: g.pickID(2, 15, 3), D: g.pickI(0, 0, 0, 1, 30, 60, 1000), CG: g.pickI(0, 0, 1, 3, 10)})
	}
	if c.P["serve"] > 0 {
		nconn := g.Range(0, 2)
		for i := 0; i < nconn; i++ {
			p.Conns = append(p.Conns, g.witness(p, ids, urls, ls, i, nconn, 500))
		}
	}
	return p
}
