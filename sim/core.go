// Package sim is a deterministic single-process simulator: a cooperative goroutine scheduler with a virtual clock.
//
// Exactly one simulated goroutine runs at any time. Every switch between goroutines, every choice among ready select
// cases and the order of events falling on the same virtual instant is a numbered decision. Decision 0 is the default
// (continue the current goroutine, else the longest-ready one); a run's schedule is its sparse list of deviations from
// the default, so a run is a pure function of (code, plan, schedule) and can be replayed and minimised.
package zsim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Rand is a small deterministic PRNG (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Float() float64     { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool   { return r.Float() < p }
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Hash64 mixes the given words into one.
func Hash64(xs ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range xs {
		h ^= x
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	return h
}

type gstate uint8

const (
	gReady gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	id      int
	name    string
	dial    func(network, addr string) (*Conn, error)
	site    int // spawn site in instrumented code, 0 for harness goroutines
	parent  int
	state   gstate
	wake    chan struct{}
	why     string // what it is blocked on
	cond    func() bool
	condOK  bool
	prio    uint64
	pending uintptr // map about to be accessed
	pendW   bool
	stallTo int // decision number until which it is not picked while others are ready
	atSite  int
	run     int // steps since it was last switched to
	born    int64
	killed  bool
}

// event is something that happens at a virtual instant without a goroutine of its own.
type event struct {
	at   int64
	seq  int
	fn   func()
	dead bool
	pos  int
}

type item struct {
	g *G
	e *event
}

// Strategy decides the schedule of a recorded run.
type Strategy struct {
	Mode      string  `json:"mode"`
	P         float64 `json:"p,omitempty"`     // preemption probability at ordinary statements
	PV        float64 `json:"pv,omitempty"`    // preemption probability at visible operations
	D         int     `json:"d,omitempty"`     // PCT change points
	Len       int     `json:"len,omitempty"`   // PCT estimated length
	Hot       int     `json:"hot,omitempty"`   // one site in Hot is a stall site
	Hold      int     `json:"hold,omitempty"`  // decisions a stalled goroutine is held back
	RandSel   bool    `json:"rsel,omitempty"`  // random select case / event order
	SchedSeed uint64  `json:"sseed,omitempty"` // seed of the schedule PRNG
}

// Options configure one run.
type Options struct {
	Seed     uint64
	Strat    Strategy
	Replay   bool // follow Devs instead of Strat
	Devs     map[int]int
	MaxSteps int
	Trace    bool
}

// Result of one run.
type Result struct {
	Crash      string // non-empty: the simulated process died (uncaught panic, fatal error)
	CrashStack string
	Exited     bool
	ExitCode   int
	StepCap    bool
	CapInfo    string
	Deadlock   bool // nothing left to run although main had not finished
	Steps      int
	Decisions  int
	Switches   int
	Devs       map[int]int
	Hash       uint64
	SimTime    time.Duration
	Faults     map[string]int
	Spawned    int
	Trace      []string
	Blocked    []string
}

type Sim struct {
	opt       Options
	gs        []*G
	live      int
	cur       *G
	ready     []item
	waiters   []*G // goroutines blocked in WaitUntil
	now       int64
	timers    []*event
	eseq      int
	steps     int
	decisions int
	switches  int
	devs      map[int]int
	rng       *Rand // schedule choices
	aux       *Rand // map iteration order, pools and other environment choices
	hash      uint64
	ended     bool
	killing   bool
	killAck   chan struct{}
	done      chan struct{}
	res       *Result
	chans     map[uintptr]*hchan
	keep      []any
	mapOps    int
	pctPoints map[int]bool
	lowPrio   uint64
	net       *netState
	sig       sigState
	keyOrder  map[any]int
	faults    map[string]int
	trace     []string
	lastSite  int
	endHooks  []func()
}

// S is the run in progress, nil outside runs.
var S *Sim

// Epoch is the wall-clock time at which every run starts.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

func on() bool { return S != nil && S.cur != nil }

// Run executes main under the simulator and returns when it has finished, crashed or exceeded its budget.
func Run(opt Options, main func()) *Result {
	if S != nil {
		panic("sim: nested Run")
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 400000
	}
	s := &Sim{opt: opt, done: make(chan struct{}, 1), killAck: make(chan struct{}, 1), res: &Result{}, chans: map[uintptr]*hchan{}, devs: map[int]int{}, keyOrder: map[any]int{}, faults: map[string]int{}}
	ss := opt.Strat.SchedSeed
	if ss == 0 {
		ss = opt.Seed
	}
	s.rng = NewRand(Hash64(ss, 1))
	s.aux = NewRand(Hash64(opt.Seed, 2))
	s.hash = 1469598103934665603
	s.lowPrio = 1 << 40
	if opt.Strat.Mode == "pct" {
		s.pctPoints = map[int]bool{}
		for i := 0; i < opt.Strat.D; i++ {
			s.pctPoints[s.rng.Intn(opt.Strat.Len+1)] = true
		}
	}
	s.net = newNetState(s)
	S = s
	g := s.newG("main", 0)
	s.start(g, main)
	s.popReady(g)
	g.state = gRunning
	s.cur = g
	g.wake <- struct{}{}
	<-s.done
	// terminate what is left, one goroutine at a time
	for _, g := range s.gs {
		if g.state != gDead && !(g.state == gRunning && g == s.cur) {
			if g.cond == nil {
				s.res.Blocked = append(s.res.Blocked, g.String())
			}
		}
	}
	s.killing = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.state == gDead {
			continue
		}
		g.killed = true
		s.cur = g
		g.wake <- struct{}{}
		<-s.killAck
	}
	r := s.res
	r.Steps, r.Decisions, r.Switches, r.Devs, r.Hash = s.steps, s.decisions, s.switches, s.devs, s.hash
	r.SimTime = time.Duration(s.now)
	r.Faults = s.faults
	r.Spawned = len(s.gs)
	r.Trace = s.trace
	S = nil
	return r
}

func (g *G) String() string {
	st := "?"
	if g.site > 0 {
		st = SiteName(g.site)
	} else {
		st = "harness:" + g.name
	}
	return fmt.Sprintf("goroutine %d started at %s, at %s, %s", g.id, st, SiteName(g.atSite), g.whyString())
}
func (g *G) whyString() string {
	if g.state == gBlocked {
		return "blocked on " + g.why
	}
	return "ready"
}

func (s *Sim) newG(name string, site int) *G {
	g := &G{id: len(s.gs) + 1, name: name, site: site, wake: make(chan struct{}, 1), state: gReady, born: s.now}
	if s.cur != nil {
		g.parent = s.cur.id
	}
	if s.opt.Strat.Mode == "pct" {
		g.prio = s.rng.Uint64()>>20 | 1<<43
	}
	s.gs = append(s.gs, g)
	s.live++
	return g
}

func (s *Sim) start(g *G, fn func()) {
	s.ready = append(s.ready, item{g: g})
	go func() {
		<-g.wake
		finished := false
		defer func() {
			if r := recover(); r != nil && !s.killing {
				s.crash(fmt.Sprint(r), string(debug.Stack()))
			} else if !finished && !s.killing && !s.ended && r == nil {
				// runtime.Goexit called by the code itself
				finished = true
			}
			s.gexit(g, finished)
		}()
		if g.killed {
			return
		}
		fn()
		finished = true
	}()
}

// gexit runs on the goroutine that ends.
func (s *Sim) gexit(g *G, finished bool) {
	g.state = gDead
	s.live--
	if s.killing {
		s.killAck <- struct{}{}
		return
	}
	if s.ended {
		s.done <- struct{}{}
		return
	}
	if g.id == 1 {
		s.ended = true
		s.done <- struct{}{}
		return
	}
	s.dispatch(nil)
}

func (s *Sim) crash(msg, stack string) {
	if s.res.Crash == "" {
		s.res.Crash = msg
		s.res.CrashStack = stack
	}
	s.ended = true
}

// Fatal ends the simulated process like an unrecoverable runtime error.
func Fatal(msg string) {
	if !on() {
		panic(msg)
	}
	S.crash("fatal error: "+msg, string(debug.Stack()))
	S.stop()
}

// stop ends the run from the current goroutine; it does not return.
func (s *Sim) stop() {
	s.ended = true
	g := s.cur
	s.done <- struct{}{}
	<-g.wake
	runtime.Goexit()
}

// Abort ends the run at once (used by oracles that found a violation).
func Abort() {
	if on() {
		S.chkKill()
		S.stop()
	}
}

func (s *Sim) chkKill() {
	if s.killing {
		runtime.Goexit()
	}
}

// Y is the yield point inserted before every statement of the instrumented code.
func Y(site int) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	s.cur.atSite = site
	s.step(site, false)
}

// yv is the yield point at visible operations (locks, channels, maps, network).
func yv() {
	s := S
	if s.killing {
		runtime.Goexit()
	}
	s.step(s.cur.atSite, true)
}

// Yield lets harness code be preempted.
func Yield() {
	if on() {
		yv()
	}
}

func (s *Sim) step(site int, visible bool) {
	s.steps++
	g := s.cur
	g.run++
	if s.steps >= s.opt.MaxSteps {
		s.res.StepCap = true
		s.res.CapInfo = g.String()
		s.stop()
	}
	if len(s.ready) == 0 {
		return
	}
	n := s.decisions
	s.decisions++
	if s.opt.Replay {
		if v, ok := s.opt.Devs[n]; ok {
			s.applyDev(g, n, v)
		}
		return
	}
	st := &s.opt.Strat
	sw := false
	switch st.Mode {
	case "fifo":
	case "walk":
		p := st.P
		if visible {
			p = st.PV
		}
		sw = p > 0 && s.rng.P(p)
	case "pct":
		if s.pctPoints[s.steps] {
			s.lowPrio--
			g.prio = s.lowPrio
		}
		if g.run > 5000 { // fairness: do not let a spinning goroutine starve the rest
			s.lowPrio--
			g.prio = s.lowPrio
			g.run = 0
		}
		best := g.prio
		for _, it := range s.ready {
			if p := s.prioOf(it); p > best {
				sw = true
			}
		}
	case "stall":
		if g.stallTo == 0 && Hash64(uint64(site), st.SchedSeed, s.opt.Seed)%uint64(st.Hot) == 0 && s.rng.P(0.5) {
			g.stallTo = n + 1 + s.rng.Intn(st.Hold+1)
			sw = true
		} else {
			p := st.P
			if visible {
				p = st.PV
			}
			sw = p > 0 && s.rng.P(p)
		}
	}
	if !sw {
		if g.run > 20000 && !s.opt.Replay {
			sw = true
			g.run = 0
		} else {
			return
		}
	}
	i := s.choose(g)
	if i < 0 {
		return
	}
	it := s.ready[i]
	s.devs[n] = itemID(it)
	s.switchTo(g, i)
}

func itemID(it item) int {
	if it.g != nil {
		return it.g.id
	}
	return -it.e.seq
}

func (s *Sim) prioOf(it item) uint64 {
	if it.g != nil {
		return it.g.prio
	}
	return Hash64(uint64(it.e.seq), s.opt.Seed)>>20 | 1<<43
}

// choose picks an index of ready for a run being recorded, -1 for none.
func (s *Sim) choose(cur *G) int {
	n := len(s.ready)
	if n == 0 {
		return -1
	}
	switch s.opt.Strat.Mode {
	case "fifo":
		return 0
	case "pct":
		best, bi := uint64(0), 0
		for i, it := range s.ready {
			if p := s.prioOf(it); p > best {
				best, bi = p, i
			}
		}
		return bi
	case "stall":
		// prefer those not held back
		k := 0
		for _, it := range s.ready {
			if it.g == nil || it.g.stallTo <= s.decisions {
				k++
			}
		}
		if k > 0 {
			j := s.rng.Intn(k)
			for i, it := range s.ready {
				if it.g == nil || it.g.stallTo <= s.decisions {
					if j == 0 {
						return i
					}
					j--
				}
			}
		}
		return s.rng.Intn(n)
	}
	return s.rng.Intn(n)
}

func (s *Sim) applyDev(g *G, n, v int) {
	for i, it := range s.ready {
		if itemID(it) == v {
			s.devs[n] = v
			s.switchTo(g, i)
			return
		}
	}
}

func (s *Sim) removeReady(i int) item {
	it := s.ready[i]
	copy(s.ready[i:], s.ready[i+1:])
	s.ready[len(s.ready)-1] = item{}
	s.ready = s.ready[:len(s.ready)-1]
	return it
}

func (s *Sim) popReady(g *G) {
	for i, it := range s.ready {
		if it.g == g {
			s.removeReady(i)
			return
		}
	}
}

// switchTo preempts the running goroutine g in favour of ready[i].
func (s *Sim) switchTo(g *G, i int) {
	it := s.removeReady(i)
	if it.e != nil {
		// an event happens now; the goroutine goes on afterwards
		s.note(it)
		s.fire(it.e)
		return
	}
	g.state = gReady
	s.ready = append(s.ready, item{g: g})
	s.handoff(it.g)
	<-g.wake
	if s.killing {
		runtime.Goexit()
	}
}

func (s *Sim) note(it item) {
	s.switches++
	id := itemID(it)
	at := 0
	if it.g != nil {
		at = it.g.atSite
	}
	s.hash = (s.hash ^ uint64(id)*0x100000001b3 ^ uint64(at)<<32) * 0x9E3779B97F4A7C15
	s.hash ^= s.hash >> 31
	if s.opt.Trace {
		if it.g != nil {
			s.trace = append(s.trace, fmt.Sprintf("%12v run g%d (%s) at %s", time.Duration(s.now), it.g.id, it.g.label(), SiteName(at)))
		} else {
			s.trace = append(s.trace, fmt.Sprintf("%12v event %d", time.Duration(s.now), it.e.seq))
		}
	}
}

func (g *G) label() string {
	if g.site > 0 {
		return "go@" + SiteName(g.site)
	}
	return g.name
}

func (s *Sim) handoff(to *G) {
	s.note(item{g: to})
	to.state = gRunning
	to.run = 0
	to.stallTo = 0
	s.cur = to
	to.wake <- struct{}{}
}

// dispatch gives control to the next goroutine when the current one cannot continue. If self is not nil and becomes
// the one to run, dispatch returns without parking; otherwise it parks self until it is woken.
func (s *Sim) dispatch(self *G) {
	for {
		if s.ended {
			// ended by an event
			s.done <- struct{}{}
			if self != nil {
				<-self.wake
				runtime.Goexit()
			}
			return
		}
		if len(s.ready) == 0 {
			if s.wakeCond() {
				continue
			}
			if !s.advance() {
				// nothing will ever happen again
				s.res.Deadlock = true
				s.ended = true
				continue
			}
			continue
		}
		i := 0
		if len(s.ready) > 1 {
			n := s.decisions
			s.decisions++
			if s.opt.Replay {
				if v, ok := s.opt.Devs[n]; ok {
					for j, it := range s.ready {
						if itemID(it) == v {
							i = j
							s.devs[n] = v
							break
						}
					}
				}
			} else {
				i = s.choose(nil)
				if i != 0 {
					s.devs[n] = itemID(s.ready[i])
				}
			}
		}
		it := s.removeReady(i)
		if it.e != nil {
			s.note(it)
			s.fire(it.e)
			continue
		}
		if it.g == self {
			s.note(it)
			self.state = gRunning
			self.run = 0
			self.stallTo = 0
			s.cur = self
			return
		}
		s.handoff(it.g)
		if self != nil {
			<-self.wake
			if s.killing {
				runtime.Goexit()
			}
		}
		return
	}
}

func (s *Sim) fire(e *event) {
	if e.dead {
		return
	}
	e.dead = true
	s.steps++
	if s.steps >= s.opt.MaxSteps && !s.ended {
		s.res.StepCap = true
		s.res.CapInfo = "events only"
		s.ended = true
		return
	}
	e.fn()
}

func (s *Sim) wakeCond() bool {
	any := false
	for _, g := range s.waiters {
		if g.cond != nil && g.state == gBlocked && g.cond() {
			g.condOK = true
			s.makeReady(g)
			any = true
		}
	}
	return any
}

// advance moves the clock to the next event and makes all events of that instant ready.
func (s *Sim) advance() bool {
	for len(s.timers) > 0 && s.timers[0].dead {
		s.heapPop()
	}
	if len(s.timers) == 0 {
		return false
	}
	t := s.timers[0].at
	if t > s.now {
		s.now = t
	}
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		e := s.heapPop()
		if !e.dead {
			s.ready = append(s.ready, item{e: e})
		}
	}
	return true
}

// After schedules fn at now+d. Events due now compete with the ready goroutines.
func (s *Sim) After(d time.Duration, fn func()) *event {
	s.eseq++
	if d < 0 {
		d = 0
	}
	at := s.now + int64(d)
	if at < s.now {
		at = 1<<63 - 1
	}
	e := &event{at: at, seq: s.eseq, fn: fn}
	if d == 0 {
		s.ready = append(s.ready, item{e: e})
		return e
	}
	s.heapPush(e)
	return e
}

// At schedules fn d from now on behalf of the harness.
func At(d time.Duration, fn func()) { S.After(d, fn) }

func (s *Sim) heapPush(e *event) {
	s.timers = append(s.timers, e)
	i := len(s.timers) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(i, p) {
			break
		}
		s.timers[i], s.timers[p] = s.timers[p], s.timers[i]
		i = p
	}
}
func (s *Sim) less(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.at != b.at {
		return a.at < b.at
	}
	return a.seq < b.seq
}
func (s *Sim) heapPop() *event {
	e := s.timers[0]
	n := len(s.timers) - 1
	s.timers[0] = s.timers[n]
	s.timers[n] = nil
	s.timers = s.timers[:n]
	i := 0
	for {
		l, r, m := 2*i+1, 2*i+2, i
		if l < n && s.less(l, m) {
			m = l
		}
		if r < n && s.less(r, m) {
			m = r
		}
		if m == i {
			break
		}
		s.timers[i], s.timers[m] = s.timers[m], s.timers[i]
		i = m
	}
	return e
}

// block parks the current goroutine until makeReady.
func (s *Sim) block(why string) {
	g := s.cur
	g.state = gBlocked
	g.why = why
	s.steps++
	s.dispatch(g)
}

func (s *Sim) makeReady(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gReady
	s.ready = append(s.ready, item{g: g})
}

// Go starts a goroutine of the instrumented code.
func Go(site int, fn func()) {
	if !on() {
		return // package initialisation; repeated inside every run
	}
	s := S
	s.chkKill()
	g := s.newG("", site)
	s.start(g, fn)
	yv()
}

// GoNamed starts a harness goroutine.
func GoNamed(name string, fn func()) int {
	s := S
	s.chkKill()
	g := s.newG(name, 0)
	s.start(g, fn)
	return g.id
}

// WaitUntil blocks the caller until cond holds at a moment when no goroutine can run, or d has passed.
func WaitUntil(d time.Duration, cond func() bool) bool {
	s := S
	s.chkKill()
	g := s.cur
	g.cond = cond
	g.condOK = false
	var e *event
	if d >= 0 {
		e = s.After(d, func() { s.makeReady(g) })
	}
	s.waiters = append(s.waiters, g)
	s.block("harness wait")
	for i, w := range s.waiters {
		if w == g {
			s.waiters = append(s.waiters[:i], s.waiters[i+1:]...)
			break
		}
	}
	g.cond = nil
	if e != nil {
		e.dead = true
	}
	return g.condOK
}

// Settle lets everything that can run at this instant run.
func Settle() { WaitUntil(-1, func() bool { return true }) }

// SleepFor blocks a harness goroutine for d of virtual time.
func SleepFor(d time.Duration) {
	s := S
	s.chkKill()
	g := s.cur
	s.After(d, func() { s.makeReady(g) })
	s.block("sleep")
}

// NowD is the virtual time since the start of the run.
func NowD() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.now)
}

// Seq is a number that grows with every step of the run; usable as a total order of events.
func Seq() int { return S.steps }

// GID is the id of the running goroutine.
func GID() int {
	if !on() {
		return 0
	}
	return S.cur.id
}

// Choose makes a recorded choice among n alternatives (0 by default).
func (s *Sim) chooseN(n int) int {
	if n <= 1 {
		return 0
	}
	k := s.decisions
	s.decisions++
	if s.opt.Replay {
		if v, ok := s.opt.Devs[k]; ok && v >= 0 && v < n {
			s.devs[k] = v
			return v
		}
		return 0
	}
	if s.opt.Strat.Mode == "fifo" && !s.opt.Strat.RandSel {
		return 0
	}
	v := s.rng.Intn(n)
	if v != 0 {
		s.devs[k] = v
	}
	return v
}

// Fault counts an injected fault.
func Fault(kind string) {
	if S != nil {
		S.faults[kind]++
	}
}

// Census describes the live goroutines started by instrumented code.
type GInfo struct {
	ID, Site, Parent int
	Born             time.Duration
	Desc             string
	Blocked          bool
	Why              string
}

func Census() []GInfo {
	var out []GInfo
	for _, g := range S.gs {
		if g.state != gDead && g.site > 0 {
			out = append(out, GInfo{ID: g.id, Site: g.site, Parent: g.parent, Born: time.Duration(g.born), Desc: g.String(), Blocked: g.state == gBlocked, Why: g.why})
		}
	}
	return out
}

// Alive reports whether the goroutine still exists.
func Alive(id int) bool { return id > 0 && id <= len(S.gs) && S.gs[id-1].state != gDead }

// Exit is os.Exit.
func Exit(code int) {
	if !on() {
		os.Exit(code)
	}
	s := S
	s.chkKill()
	s.res.Exited = true
	s.res.ExitCode = code
	for _, f := range s.endHooks {
		f()
	}
	s.stop()
}

// OnExit registers a function that runs when the simulated process calls os.Exit.
func OnExit(f func()) { S.endHooks = append(S.endHooks, f) }

// BlockForever is an empty select.
func BlockForever() {
	if !on() {
		select {}
	}
	S.chkKill()
	S.block("select {}")
	panic("unreachable")
}

// site table, filled in by the instrumented package
var siteNames []string

func RegisterSites(names []string) { siteNames = names }
func SiteName(i int) string {
	if i > 0 && i <= len(siteNames) {
		return siteNames[i-1]
	}
	if i == 0 {
		return "-"
	}
	return fmt.Sprint("site", i)
}
func NumSites() int { return len(siteNames) }

// SortedDevs renders deviations in order.
func SortedDevs(m map[int]int) [][2]int {
	out := make([][2]int, 0, len(m))
	for k, v := range m {
		out = append(out, [2]int{k, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

// TrimStack keeps the interesting part of a stack.
func TrimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/tcpx/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// ExitCode is what the simulated process exited with; -1: killed by a signal.
func ExitCode() int { return S.res.ExitCode }
