package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// Plan is everything that determines a run except the schedule: a workload, its environment and its faults, as data.
type Plan struct {
	Kind  string        `json:"kind"`
	Seed  uint64        `json:"seed"` // network segmentation and latency, map order
	Cfg   Cfg           `json:"cfg"`
	Reg   []Reg         `json:"reg,omitempty"`
	Conns []*CPlan      `json:"conns,omitempty"`
	Admin []Op          `json:"admin,omitempty"`
	Strat zsim.Strategy `json:"strat"`
}

// Cfg is the server's configuration.
type Cfg struct {
	Net       string         `json:"net,omitempty"`
	TLS       bool           `json:"tls,omitempty"`
	Marsh     string         `json:"marsh,omitempty"`
	Pool      bool           `json:"pool,omitempty"`
	Sig       bool           `json:"sig,omitempty"`
	HB        int            `json:"hb,omitempty"` // interval in ms, 0: off
	HBID      int32          `json:"hbid,omitempty"`
	HBThrough bool           `json:"hbt,omitempty"`
	HBRewrite bool           `json:"hbr,omitempty"`
	HBPlain   bool           `json:"hbp,omitempty"` // HeartBeatMode instead of HeartBeatModeDetail
	Auth      int            `json:"auth,omitempty"`
	AuthID    int32          `json:"authid,omitempty"`
	AuthThr   bool           `json:"autht,omitempty"`
	MaxByte   int32          `json:"max,omitempty"`
	OnMsg     bool           `json:"onmsg,omitempty"`
	NoOnConn  bool           `json:"noconn,omitempty"`
	NoOnClose bool           `json:"noclose,omitempty"`
	Direct    bool           `json:"direct,omitempty"` // ListenAndServeTCP instead of ListenAndServe
	P         map[string]int `json:"p,omitempty"`
	DL        []Op           `json:"dl,omitempty"`    // deadlines of the server
	Addrs     []Addr         `json:"addrs,omitempty"` // when the server serves several addresses
}

// Addr is one address of the server.
type Addr struct {
	Mode string `json:"mode"` // "" (ListenAndServe), direct, raw, udp
	Net  string `json:"net"`
	Pt   int    `json:"pt,omitempty"` // 1+port index; 0: its own
}

// Reg is one step of the registration script.
type Reg struct {
	K    string   `json:"k"` // global use unuse h url hb auth
	L    []string `json:"l,omitempty"`
	Next []bool   `json:"next,omitempty"`
	ID   int32    `json:"id,omitempty"`
	URL  string   `json:"url,omitempty"`
	N    int      `json:"n,omitempty"` // own middleware
}

// CPlan is one client connection.
type CPlan struct {
	once  bool            // do not wait for a server that is down
	Start int             `json:"start,omitempty"` // ms
	Addr  int             `json:"addr,omitempty"`
	Up    zsim.NetProfile `json:"up"`
	Down  zsim.NetProfile `json:"down"`
	Read  string          `json:"read,omitempty"` // how the client reads
	Name  string          `json:"name,omitempty"`
	Quiet bool            `json:"quiet,omitempty"` // does not read until told to
	Mute  bool            `json:"mute,omitempty"`  // never starts the TLS handshake
	Beat  int             `json:"beat,omitempty"`  // sends a heartbeat every so many ms
	OC    string          `json:"oc,omitempty"`    // what the connect callback does besides: close, close2
	OX    string          `json:"ox,omitempty"`    // what the close callback does besides: close
	CSl   int             `json:"csl,omitempty"`   // how long the connect callback takes, ms
	XSl   int             `json:"xsl,omitempty"`   // how long the close callback takes, ms
	Ops   []Op            `json:"ops,omitempty"`
	H     []Op            `json:"h,omitempty"`   // raw connections: what the handler does
	DL    []Op            `json:"dl,omitempty"`  // deadlines the connect callback sets
	RAb   string          `json:"rab,omitempty"` // raw connections: who aborts the chain
	CR    []Rep           `json:"cr,omitempty"`  // what the connect callback sends
	XR    []Rep           `json:"xr,omitempty"`  // what the close callback sends, to others
}

// Op is one action of a client or of the administrator.
type Op struct {
	K    string         `json:"k"`
	T    int            `json:"t,omitempty"`
	ID   int32          `json:"id,omitempty"`
	URL  string         `json:"url,omitempty"`
	M    string         `json:"m,omitempty"`
	N    int            `json:"n,omitempty"`
	H    int            `json:"h,omitempty"`
	D    int            `json:"d,omitempty"`
	J    bool           `json:"j,omitempty"`
	Ab   string         `json:"ab,omitempty"`
	Sl   map[string]int `json:"sl,omitempty"`
	R    []Rep          `json:"r,omitempty"`
	CS   int            `json:"cs,omitempty"`
	CG   int            `json:"cg,omitempty"`
	B    []Op           `json:"b,omitempty"`
	X    int            `json:"x,omitempty"`
	S    string         `json:"s,omitempty"`
	Hex  string         `json:"hex,omitempty"`
	Wait bool           `json:"wait,omitempty"`
	Cp   []int          `json:"cp,omitempty"`   // datagrams: the delay in ms of each copy that arrives
	Tail int            `json:"tail,omitempty"` // datagrams: bytes after the first block
}

// Rep is a reply made by a handler.
type Rep struct {
	M  string `json:"m"`
	ID int32  `json:"id,omitempty"`
	N  int    `json:"n,omitempty"`
	H  int    `json:"h,omitempty"`
	To int    `json:"to,omitempty"` // 1+connection index for cross-connection sends
	D  int    `json:"d,omitempty"`  // sleep before, ms
	Go bool   `json:"go,omitempty"` // from a goroutine of its own
	Sh bool   `json:"sh,omitempty"` // its first header map is shared with other replies
	Eq bool   `json:"eq,omitempty"` // the same content as other replies
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Violation is an observed breach of a property.
type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Outcome of a run.
type Outcome struct {
	Viol  []Violation
	Res   *zsim.Result
	Cov   map[string]int
	Inner string // an error of the machinery itself
	Log   []string
}

func (o *Outcome) has(prop, kind string) *Violation {
	for i := range o.Viol {
		v := &o.Viol[i]
		if (prop == "" || v.Prop == prop) && (kind == "" || v.Kind == kind) {
			return v
		}
	}
	return nil
}

// Run is the state of one simulated run.
type Run struct {
	plan   *Plan
	target string // property being checked
	out    *Outcome
	rng    *zsim.Rand
	verb   bool
}

func (r *Run) cov(k string)         { r.out.Cov[k]++ }
func (r *Run) covN(k string, n int) { r.out.Cov[k] += n }
func (r *Run) pi(k string) int      { return r.plan.Cfg.P[k] }
func (r *Run) on(props ...string) bool {
	for _, p := range props {
		if p == r.target {
			return true
		}
	}
	return false
}

// fail records a violation. A violation of the property being checked ends the run.
func (r *Run) fail(prop, kind, f string, a ...interface{}) {
	v := Violation{prop, kind, fmt.Sprintf(f, a...)}
	r.logf("VIOLATION %s %s: %s", prop, kind, v.Msg)
	if len(r.out.Viol) < 20 {
		r.out.Viol = append(r.out.Viol, v)
	}
	if prop == r.target || r.target == "*" {
		zsim.Abort()
	}
}

func (r *Run) logf(f string, a ...interface{}) {
	if r.verb {
		r.out.Log = append(r.out.Log, fmt.Sprintf("%10v g%-3d ", zsim.NowD(), zsim.GID())+fmt.Sprintf(f, a...))
	}
}

// worlds run a plan inside the simulator.
var worlds = map[string]func(*Run){}

const ms = time.Millisecond

func init() { log.SetOutput(io.Discard) }

type runOpt struct {
	devs     map[int]int // nil: follow the plan's strategy
	trace    bool
	maxSteps int
}

// defaultSteps bounds a run; a run that exceeds it is repeated with a tenfold bound before it counts as a livelock.
const defaultSteps = 1500000

func execute(p *Plan, target string, o runOpt) (out *Outcome) {
	out = &Outcome{Cov: map[string]int{}}
	w := worlds[p.Kind]
	if w == nil {
		out.Inner = "no world " + p.Kind
		return
	}
	zsim.ResetAll()
	tcpx.SetLogMode(tcpx.RELEASE)
	zsim.DialProfile = zsim.NetProfile{}
	zsim.UDPNet = zsim.UDPProfile{}
	r := &Run{plan: p, target: target, out: out, rng: zsim.NewRand(zsim.Hash64(p.Seed, 77)), verb: o.trace}
	opt := zsim.Options{Seed: p.Seed, Strat: p.Strat, MaxSteps: o.maxSteps, Trace: o.trace}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = defaultSteps
	}
	if o.devs != nil {
		opt.Replay = true
		opt.Devs = o.devs
	}
	finished := false
	res := zsim.Run(opt, func() { w(r); finished = true })
	out.Res = res
	ended := res.Exited && p.Kind == "exit"
	switch {
	case res.Crash != "":
		if harnessFault(res.CrashStack) {
			out.Inner = "harness panic: " + res.Crash + "\n" + res.CrashStack
			return
		}
		out.Viol = append(out.Viol, Violation{target, "crash", "the server process crashed: " + res.Crash + " [" + zsim.TrimStack(res.CrashStack) + "]"})
	case res.StepCap:
		if opt.MaxSteps < 10*defaultSteps {
			o.maxSteps = 10 * defaultSteps
			return execute(p, target, o)
		}
		out.Viol = append(out.Viol, Violation{target, "livelock", "the run does not come to rest: " + res.CapInfo})
	case len(out.Viol) > 0 || ended:
	case res.Exited:
		out.Viol = append(out.Viol, Violation{target, "exit", fmt.Sprintf("the server process called os.Exit(%d)", res.ExitCode)})
	case res.Deadlock:
		out.Viol = append(out.Viol, Violation{target, "deadlock", "nothing can run any more: " + strings.Join(res.Blocked, "; ")})
	case !finished:
		out.Inner = "run ended without finishing"
	}
	return
}

// harnessFault tells a panic of the harness from a panic of the code under test: the innermost frame that is neither
// runtime nor library decides.
func harnessFault(stack string) bool {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
		}
		if !strings.HasPrefix(l, "/") {
			continue
		}
		switch {
		case strings.Contains(l, "/tree/zsim/"):
			continue // primitives act on behalf of their caller
		case strings.Contains(l, "/tree/zharness/"):
			return true
		case strings.Contains(l, "/tree/"):
			return false
		}
	}
	_ = seenPanic
	return true
}

// hash of a plan, for counting distinct workloads
func (p *Plan) hash() uint64 {
	b, _ := json.Marshal(struct {
		C Cfg
		R []Reg
		X []*CPlan
		A []Op
	}{p.Cfg, p.Reg, p.Conns, p.Admin})
	h := uint64(1469598103934665603)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = debug.Stack
