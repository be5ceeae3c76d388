package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// Env is a simulated deployment: one server, its clients, and the history the oracles look at.
type Env struct {
	pending *callback // what the next callback of its kind has to do

	r       *Run
	srv     *tcpx.TcpX
	network string
	addr    string
	conns   []*conn
	byID    map[int]*conn
	chain   *chainRef
	cur     map[*tcpx.Context]*exec
	execs   []*exec
	active  int // harness functions (middleware, handlers) on the stack of some server goroutine
	nexec   int
	nrep    int
	shared  map[string]interface{} // a header map handed over with several replies
	served  map[string]*served
	sockets map[int]*zsim.PacketConn

	// hooks of the worlds
	onHandler func(e *exec, c *tcpx.Context)
	onConnect func(cn *conn, c *tcpx.Context)
	onClose   func(cn *conn, c *tcpx.Context)
	onLoss    func(cn *conn, c *tcpx.Context)
	malformed bool // clients send malformed input on purpose
	closedAll bool // the administrator had all connections closed
	stops     []*stopRec
	adminLive bool // an administrator may start the server again
	adminDone bool
	calm      bool   // no more heartbeats
	adminBusy string // the step the administrator is at
	restarted bool
	nprobe    int
	nopen     int
	nfault    int           // failing accepts
	mayClose  bool          // the server may close connections; the world looks into it later
	rdl0      time.Duration // deadlines of the server
	wdl0      time.Duration
	maxDL     time.Duration // the last one
	anyDL     bool
	stopped   bool // the administrator stopped the server; connections may be refused
}

type served struct {
	done bool
	err  error
}

// sent is a complete frame a client wrote (or tried to write).
type sent struct {
	raw   []byte
	end   int // offset of its last byte in the client's stream
	op    *Op
	batch int // 0: none
	idx   int // position in the batch
	route bool
	ex    *exec
	val   interface{}
	cut   bool // never written completely
	hdr   map[string]interface{}
	pj    bool           // made by PipeJSON
	alone bool           // a batch of one
	beat  bool           // a heartbeat for the built-in handler
	dv    *zsim.Delivery // datagrams
}

type conn struct {
	i        int
	pl       *CPlan
	c        *zsim.Conn
	sent     []*sent
	off      int // bytes handed to Write
	acked    int // bytes Write accepted
	nRouted  int
	execs    []*exec
	ctx      *tcpx.Context // some context of the connection
	ctxs     []*tcpx.Context
	onConn   int
	onClose  int
	ended    string // how the client ended it
	srvClose bool   // the plan lets the server close it
	replies  []*reply
	nOK      int
	got      []frame
	tail     []byte
	readErr  error
	readDone bool
	opsDone  bool
	hasBatch bool
	half     bool // the last message was not sent completely
	nb       int  // batches sent
	sets     []int
	online   string
	batches  map[int][]*sent
	bad      bool // malformed bytes were sent
	badAt    int  // their offset in the stream
	stream   []byte
	evs      []cev
	losses   int
	inLoss   bool
	lossTook time.Duration
	lossSeen bool // the socket was already closed when the loss callback ran
	endAt    time.Duration
	quiet    bool          // the client does not read for now
	upAt     time.Duration // when the connect callback had returned
	unsure   bool          // when heartbeats arrive cannot be told
	closeN   int           // handlers inside CloseConn
	parts    []span        // partitions
	onEnd    func()
	raw      *rawState // a raw connection
	udp      bool
	dls      []dlEv
	sending  bool // Beat: someone writes
	setting  int  // calls that set a deadline
	dlVague  bool // the deadlines of the connection are not known
	addr     string
	nClosed  int // how often the client was refused
}

type span struct{ a, b time.Duration }

// cev is something that happened to a connection.
type cev struct {
	t time.Duration
	k string
}

func (cn *conn) note(k string) { cn.evs = append(cn.evs, cev{zsim.NowD(), k}) }

type exec struct {
	id      int
	cn      *conn
	ctx     *tcpx.Context
	f       frame
	s       *sent
	op      *Op
	exp     []string
	pos     int
	aborted bool
	depth   int
	reqSet  bool
	start   int
	ended   int
	at      time.Duration
	udp     string
}

type reply struct {
	cn    *conn
	key   string
	frame []byte // the exact frame expected, if the header order is determined
	begun bool
	done  bool
	err   error
	e     *exec
	what  string
	got   int
	bt    time.Duration // begin
	dt    time.Duration // end
}

// chainRef is the reference model of the registration rules.
type chainRef struct {
	globals  []string
	anchors  []string // first-Use order
	active   map[string]bool
	byID     map[int32][]string
	byURL    map[string][]string
	next     map[string]bool
	cfg      *Cfg
	hbid     int32
	authOn   bool
	handlers map[string]bool
}

func newChain(cfg *Cfg) *chainRef {
	return &chainRef{active: map[string]bool{}, byID: map[int32][]string{}, byURL: map[string][]string{}, next: map[string]bool{}, cfg: cfg, handlers: map[string]bool{}}
}

func (m *chainRef) inForce() []string {
	var out []string
	for _, a := range m.anchors {
		if m.active[a] {
			out = append(out, a)
		}
	}
	return out
}

// expected is the chain a message must run.
func (m *chainRef) expected(f frame) []string {
	if m.cfg.OnMsg {
		return append(append(append([]string{}, m.globals...), m.anchors...), "onmsg")
	}
	var h map[string]interface{}
	_ = json.Unmarshal(f.header, &h)
	if rt, _ := h["Router-Type"].(string); rt != "" && rt != "MESSAGE_ID" {
		if rt != "URL_PATTERN" {
			return nil
		}
		u, _ := h["Router-Pattern-Value"].(string)
		c, ok := m.byURL[u]
		if !ok {
			return nil
		}
		return append(append([]string{}, m.globals...), c...)
	}
	c, ok := m.byID[f.id]
	if !ok {
		return nil
	}
	if m.cfg.HB > 0 && f.id == m.hbid && !m.cfg.HBThrough || m.authOn && f.id == m.cfg.AuthID && !m.cfg.AuthThr {
		return c[len(c)-1:]
	}
	return append(append([]string{}, m.globals...), c...)
}

func newEnv(r *Run) *Env {
	e := &Env{r: r, byID: map[int]*conn{}, cur: map[*tcpx.Context]*exec{}, served: map[string]*served{}}
	e.chain = newChain(&r.plan.Cfg)
	return e
}

// build configures the server as the plan says.
func (e *Env) build() {
	cfg := &e.r.plan.Cfg
	e.srv = tcpx.NewTcpX(marshaller(cfg.Marsh))
	e.network = cfg.Net
	if e.network == "" {
		e.network = "tcp"
	}
	e.addr = addrOf(e.network, 0)
	if cfg.TLS {
		e.srv.TLSConfig = &tls.Config{Certificates: make([]tls.Certificate, 1)}
	}
	if cfg.Pool {
		e.srv.WithBuiltInPool(true)
	}
	if cfg.Sig {
		e.srv.WithBroadCastSignal(true)
	}
	if cfg.MaxByte > 0 {
		e.srv.SetMaxBytePerMessage(cfg.MaxByte)
	}
	e.serverDeadlines()
	for i := range e.r.plan.Reg {
		e.register(i, &e.r.plan.Reg[i])
	}
	if cfg.OnMsg {
		e.srv.OnMessage = e.step("onmsg", true)
	}
	for _, a := range cfg.Addrs {
		if a.Mode == "raw" && e.srv.HandleRaw == nil {
			e.srv.HandleRaw = e.step("raw", true)
		}
	}
	if !cfg.NoOnConn {
		e.srv.OnConnect = e.connected
	}
	if !cfg.NoOnClose {
		e.srv.OnClose = e.closed
	}
	if e.onLoss != nil {
		e.srv.SetEventOnHeartbeatLoss(e.lost)
	}
}

func (e *Env) lost(c *tcpx.Context) {
	cn := e.connOf(c)
	if cn == nil {
		e.r.fail("C09", "foreign-loss", "heartbeat-loss callback for an unknown connection")
		return
	}
	cn.losses++
	cn.note("loss")
	cn.lossSeen = cn.lossSeen || cn.c.PeerClosed()
	t := zsim.NowD()
	cn.inLoss = true
	e.onLoss(cn, c)
	cn.inLoss = false
	if d := zsim.NowD() - t; d > cn.lossTook {
		cn.lossTook = d
	}
}

func addrAt(as []Addr, k int) string {
	a := as[k]
	if a.Pt > 0 {
		k = a.Pt - 1
	}
	return addrOf(a.Net, k)
}

// udpTo is where datagrams for an address go.
func udpTo(addr string) net.Addr {
	to, _ := net.ResolveUDPAddr("udp", strings.Replace(addr, "localhost", "127.0.0.1", 1))
	return to
}

func addrOf(network string, i int) string {
	switch network {
	case "unix", "unixpacket", "unixgram":
		return fmt.Sprintf("/run/sim%d.sock", i)
	}
	switch i % 3 {
	case 1:
		return fmt.Sprintf(":%d", 7000+i)
	case 2:
		return fmt.Sprintf("localhost:%d", 7000+i)
	}
	if strings.HasSuffix(network, "6") {
		return fmt.Sprintf("[::1]:%d", 7000+i)
	}
	return fmt.Sprintf("127.0.0.1:%d", 7000+i)
}

func (e *Env) register(i int, g *Reg) {
	m := e.chain
	nx := func(k int) bool { return k < len(g.Next) && g.Next[k] }
	switch g.K {
	case "global":
		var fs []func(*tcpx.Context)
		for k, l := range g.L {
			m.next[l] = nx(k)
			m.globals = append(m.globals, l)
			fs = append(fs, e.step(l, false))
		}
		e.srv.UseGlobal(fs...)
	case "use":
		var args []interface{}
		for k, l := range g.L {
			if m.active[l] {
				continue
			}
			if !m.handlers["anchor:"+l] {
				m.handlers["anchor:"+l] = true
				m.anchors = append(m.anchors, l)
				m.next[l] = nx(k)
			}
			m.active[l] = true
			args = append(args, l, e.step(l, false))
		}
		if len(args) > 0 {
			e.srv.Use(args...)
		}
	case "unuse":
		var args []string
		for _, l := range g.L {
			if m.active[l] {
				m.active[l] = false
				args = append(args, l)
			}
		}
		if len(args) > 0 {
			e.srv.UnUse(args...)
		}
	case "h", "url":
		var fs []func(*tcpx.Context)
		c := m.inForce()
		for k := 0; k < g.N; k++ {
			l := fmt.Sprintf("o%d.%d", i, k)
			m.next[l] = nx(k)
			c = append(c, l)
			fs = append(fs, e.step(l, false))
		}
		l := fmt.Sprintf("H%d", i)
		c = append(c, l)
		fs = append(fs, e.step(l, true))
		if g.K == "h" {
			if _, ok := m.byID[g.ID]; ok {
				return
			}
			m.byID[g.ID] = c
			e.srv.AddHandler(g.ID, fs...)
		} else {
			if _, ok := m.byURL[g.URL]; ok {
				return
			}
			m.byURL[g.URL] = c
			e.srv.Any(g.URL, fs...)
		}
	case "hb":
		cfg := m.cfg
		if cfg.HB == 0 {
			return
		}
		d := time.Duration(cfg.HB) * ms
		if cfg.HBPlain {
			m.hbid = 1392
			e.srv.HeartBeatMode(true, d)
		} else {
			m.hbid = cfg.HBID
			e.srv.HeartBeatModeDetail(true, d, cfg.HBThrough, cfg.HBID)
		}
		m.byID[m.hbid] = append(m.inForce(), "builtin-hb")
	case "hbr":
		if m.cfg.HB == 0 {
			return
		}
		if g.ID != m.hbid {
			if _, taken := m.byID[g.ID]; taken {
				return
			}
		}
		delete(m.byID, m.hbid)
		m.hbid = g.ID
		m.byID[g.ID] = append(m.inForce(), "HB")
		e.srv.RewriteHeartBeatHandler(g.ID, e.step("HB", true))
	case "auth":
		cfg := m.cfg
		if cfg.Auth == 0 {
			return
		}
		m.authOn = true
		m.byID[cfg.AuthID] = append(m.inForce(), "AUTH")
		e.srv.WithAuthDetail(true, time.Duration(cfg.Auth)*ms, cfg.AuthThr, cfg.AuthID, e.step("AUTH", true))
	}
}

// serve starts the server's serving call on an address and waits until it listens.
func (e *Env) serve(mode, network, addr string) *served {
	s := &served{}
	e.served[network+addr] = s
	zsim.GoNamed("serve "+mode, func() {
		switch mode {
		case "direct":
			s.err = e.srv.ListenAndServeTCP(network, addr)
		case "raw":
			s.err = e.srv.ListenAndServeRaw(network, addr)
		case "udp":
			if n := e.r.pi("udpbuf"); n > 0 {
				s.err = e.srv.ListenAndServeUDP(network, addr, n)
			} else {
				s.err = e.srv.ListenAndServeUDP(network, addr)
			}
		default:
			s.err = e.srv.ListenAndServe(network, addr)
		}
		s.done = true
	})
	zsim.WaitUntil(time.Minute, func() bool { return s.done || zsim.Listening(network, addr) })
	return s
}

func (e *Env) start() {
	if a := e.r.plan.Cfg.Addrs; len(a) > 0 {
		for k, x := range a {
			e.serve(x.Mode, x.Net, addrAt(a, k))
		}
		zsim.Settle()
		e.sockets = map[int]*zsim.PacketConn{}
		for k, x := range a {
			if isUDP(x.Net) {
				e.sockets[k] = zsim.PacketAt(x.Net, addrAt(a, k))
			}
		}
		return
	}
	mode := ""
	if e.r.plan.Cfg.Direct {
		mode = "direct"
	}
	e.serve(mode, e.network, e.addr)
	zsim.Settle()
}

// connOf finds the client a server-side context belongs to.
func (e *Env) connOf(c *tcpx.Context) *conn {
	if c == nil {
		return nil
	}
	if c.Conn == nil {
		if c.Addr != nil {
			for _, cn := range e.conns {
				if cn.udp && cn.addr == c.Addr.String() {
					return cn
				}
			}
		}
		return nil
	}
	if z, ok := c.Conn.(interface{ SimID() int }); ok && z.SimID() >= 0 {
		return e.byID[z.SimID()]
	}
	// a wrapped connection: the address value is the simulated connection's own
	ra := c.Conn.RemoteAddr()
	for _, cn := range e.conns {
		if cn.c != nil && ra != nil && cn.c.LocalAddr() == ra {
			return cn
		}
	}
	return nil
}

func (cn *conn) addCtx(c *tcpx.Context) {
	for _, x := range cn.ctxs {
		if x == c {
			return
		}
	}
	cn.ctxs = append(cn.ctxs, c)
}

func (e *Env) connected(c *tcpx.Context) {
	cn := e.connOf(c)
	if cn == nil {
		e.r.fail("C08", "foreign-connect", "connect callback for an unknown connection")
		return
	}
	cn.onConn++
	cn.ctx = c
	cn.addCtx(c)
	if cn.onConn > 1 {
		e.r.fail("C08", "double-connect", "connect callback ran %d times for connection %d", cn.onConn, cn.i)
	}
	if len(cn.execs) > 0 {
		e.r.fail("C08", "late-connect", "connect callback of connection %d ran after one of its messages", cn.i)
	}
	if e.onConnect != nil {
		e.onConnect(cn, c)
	}
	e.callbackSends(cn, c, cn.pl.CR)
	e.called("connect")
	cn.upAt = zsim.NowD()
}

func (e *Env) closed(c *tcpx.Context) {
	cn := e.connOf(c)
	if cn == nil {
		e.r.fail("C08", "foreign-close", "close callback for an unknown connection")
		return
	}
	cn.onClose++
	cn.addCtx(c)
	if cn.onClose > 1 {
		e.r.fail("C08", "double-close", "close callback ran %d times for connection %d", cn.onClose, cn.i)
	}
	if cn.onConn == 0 && !e.r.plan.Cfg.NoOnConn {
		e.r.fail("C08", "close-before-connect", "close callback of connection %d ran without a connect callback", cn.i)
	}
	if cn.ended == "" && !cn.c.PeerClosed() && !cn.bad && !cn.srvClose {
		e.r.failP([]string{"C08", "C06", "C12", "C13"}, "early-close", "close callback of connection %d ran although nothing ended the connection", cn.i)
	}
	if e.onClose != nil {
		e.onClose(cn, c)
	}
	e.callbackSends(cn, c, cn.pl.XR)
	e.called("close")
}

// callbackSends: a connect, close or loss callback sends messages.
func (e *Env) callbackSends(cn *conn, c *tcpx.Context, rs []Rep) {
	if cn.raw != nil || len(rs) == 0 {
		return
	}
	e.active++
	for _, rp := range rs {
		e.reply(&exec{cn: cn, ctx: c, op: &Op{}}, c, rp)
		e.r.cov("callback-sends")
	}
	e.active--
}

// ---- executing chains -----------------------------------------------------------------------------------------

// step makes the middleware or handler function of a label.
func (e *Env) step(label string, handler bool) func(*tcpx.Context) {
	return func(c *tcpx.Context) { e.run(label, handler, c) }
}

// begin finds or starts the execution a call belongs to.
func (e *Env) begin(label string, c *tcpx.Context) *exec {
	r := e.r
	x := e.cur[c]
	if x != nil {
		if bytes.Equal(x.f.raw, c.Stream) && (x.depth > 0 || !x.complete()) {
			return x
		}
		if x.depth > 0 {
			r.failP([]string{"C03", "C01"}, "stream-changed", "the message bytes changed while %s ran: had %s, now %s", label, short(x.f.raw), short(c.Stream))
		}
	}
	cn := e.connOf(c)
	if cn == nil {
		r.failP([]string{"C01", "C03", "C06"}, "foreign-exec", "%s ran for an unknown connection", label)
		return nil
	}
	e.nexec++
	x = &exec{id: e.nexec, cn: cn, ctx: c, f: parseFrame(append([]byte(nil), c.Stream...)), start: zsim.Seq(), at: zsim.NowD()}
	e.cur[c] = x
	if cn.onConn == 0 && !r.plan.Cfg.NoOnConn {
		r.fail("C08", "message-before-connect", "a message of connection %d was handled before its connect callback", cn.i)
	}
	cn.addCtx(c)
	dup := false
	for _, s := range cn.sent {
		if bytes.Equal(s.raw, x.f.raw) || s.alone && sameContent(s.raw, x.f) {
			if cn.udp {
				if s.ex == nil && s.dv != nil && s.dv.Done && (x.s == nil || s.dv.At < x.s.dv.At) {
					x.s = s
				}
			} else if s.ex == nil && !s.cut {
				x.s = s
				break
			}
			dup = dup || s.ex != nil
		}
	}
	if x.s == nil && cn.bad && cn.fromStream(x.f.raw) {
		x.op = &Op{}
		if !cn.udp && brokenBatch(x.f.header) && cn.badAt <= len(cn.stream) && bytes.HasPrefix(cn.stream[cn.badAt:], x.f.raw) && bytes.Count(cn.stream, x.f.raw) == 1 {
			r.fail("C06", "broken-batch-dispatched", "connection %d: a message whose batch header makes no sense was dispatched: %s", cn.i, short(x.f.raw))
		}
	} else if x.s == nil {
		props := []string{"C01"}
		if cn.hasBatch {
			props = append(props, "C05")
		}
		props = append(props, "C06", "C07")
		if cn.udp {
			props = []string{"C16", "C06"}
		}
		if dup {
			r.failP(props, "dispatched-twice", "connection %d: message dispatched more often than it was sent: %s", cn.i, short(x.f.raw))
		} else {
			r.failP(props, "dispatched-unsent", "connection %d: dispatched something the client did not send: %s", cn.i, short(x.f.raw))
		}
		x.op = &Op{}
	} else {
		x.s.ex = x
		x.op = x.s.op
	}
	x.exp = e.chain.expected(x.f)
	e.execs = append(e.execs, x)
	cn.execs = append(cn.execs, x)
	if x.s != nil && x.s.batch > 0 {
		e.batchStart(x)
	}
	r.logf("conn %d: message id %d starts (%s)", cn.i, x.f.id, short(x.f.raw))
	return x
}

// sameContent: the messages differ at most in their header; whether a batch of one is announced as one does not matter.
func sameContent(raw []byte, f frame) bool {
	o := parseFrame(raw)
	return f.ok && o.id == f.id && bytes.Equal(o.body, f.body) && (len(f.header) <= 4 || bytes.Equal(o.header, f.header))
}

// brokenBatch: the header says something about a batch that cannot be understood.
func brokenBatch(hdr []byte) bool {
	var h map[string]interface{}
	if json.Unmarshal(hdr, &h) != nil {
		return false
	}
	v, ok := h[tcpx.PIPED]
	if !ok {
		return false
	}
	t, ok := v.(string)
	if !ok {
		return true
	}
	a := strings.Split(t, ";")
	if len(a) != 2 {
		return true
	}
	n, err := strconv.Atoi(strings.TrimSpace(a[1]))
	return err != nil || a[0] == "enable" && n < 1
}

// complete: everything the harness can see of the chain has run.
func (x *exec) complete() bool {
	return x.aborted || x.pos >= len(x.exp) || x.pos == len(x.exp)-1 && x.exp[x.pos] == "builtin-hb"
}

// fromStream: raw is a length-delimited block of the stream the client sent, not yet dispatched.
func (cn *conn) fromStream(raw []byte) bool {
	n := 0
	fs, _ := parseStream(cn.stream)
	for _, f := range fs {
		if bytes.Equal(f.raw, raw) {
			n++
		}
	}
	for _, x := range cn.execs {
		if bytes.Equal(x.f.raw, raw) {
			n--
		}
	}
	return n > 0
}

// must is how much of the client's stream the server must have consumed in the end.
func (cn *conn) must() int {
	n := cn.acked
	switch {
	case cn.c.PeerClosed() && cn.ended == "" && !cn.bad || cn.srvClose:
		return 0
	case (cn.ended == "reset" || cn.ended == "close") && cn.pl.Up.DropRST || cn.ended == "vanish":
		n = cn.c.Peer.ReadN // data may be lost on the way
	}
	if cn.bad && n > cn.badAt {
		n = cn.badAt
	}
	return n
}

// batchStart checks serial execution of a batch at the start of one of its members.
func (e *Env) batchStart(x *exec) {
	for _, s := range x.cn.batches[x.s.batch] {
		if s == x.s || !s.route {
			continue
		}
		switch {
		case s.idx < x.s.idx && s.ex == nil:
			e.r.fail("C05", "order", "batch member %d started before member %d", x.s.idx, s.idx)
		case s.ex != nil && (s.ex.depth > 0 || !s.ex.complete()):
			e.r.fail("C05", "overlap", "batch member %d started while member %d was running", x.s.idx, s.idx)
		case s.idx > x.s.idx && s.ex != nil:
			e.r.fail("C05", "order", "batch member %d started after member %d", x.s.idx, s.idx)
		}
	}
	e.r.cov("batch-member")
}

func (e *Env) run(label string, handler bool, c *tcpx.Context) {
	r := e.r
	if cn := e.connOf(c); cn != nil && cn.raw != nil {
		e.rawRun(label, handler, c, cn)
		return
	}
	x := e.begin(label, c)
	if x == nil {
		return
	}
	// chain order
	if x.aborted {
		r.fail("C04", "after-abort", "%s ran after the chain was aborted (message id %d, chain %v)", label, x.f.id, x.exp)
	} else if x.pos >= len(x.exp) || x.exp[x.pos] != label {
		want := "nothing more"
		if x.pos < len(x.exp) {
			want = x.exp[x.pos]
		}
		r.fail("C04", "order", "%s ran where %s was due (message id %d, chain %v, position %d)", label, want, x.f.id, x.exp, x.pos)
	}
	x.pos++
	x.depth++
	e.active++
	// request scope
	v, ok := c.GetCtxPerRequest("rk")
	switch {
	case !x.reqSet && ok:
		r.fail("C03", "request-leak", "a request starts with a value stored by another request (%v)", v)
	case x.reqSet && (!ok || v != x.id):
		r.fail("C03", "request-lost", "a value stored earlier in the request is gone or foreign: %v %v, want %d", v, ok, x.id)
	}
	if !x.reqSet {
		c.SetCtxPerRequest("rk", x.id)
		x.reqSet = true
	}
	if !x.cn.udp {
		if v, ok := c.GetCtxPerConn("rk"); ok {
			r.fail("C03", "scope-mix", "a value stored for a request is visible as a value of its connection: %v", v)
		}
	}
	if d := x.op.Sl[label]; d > 0 {
		zsim.SleepFor(time.Duration(d) * ms)
		r.cov("slow-step")
	} else if d < 0 {
		for ; d < 0; d++ {
			zsim.Yield()
		}
	}
	e.intact(x, label, c)
	if handler {
		e.handle(x, label, c)
		e.intact(x, label, c)
	}
	if x.op.Ab == label {
		x.aborted = true
		c.Abort()
		r.cov("abort")
		if e.odd(label, x) == 1 {
			c.Next()
			r.cov("next-after-abort")
		}
	} else if e.chain.next[label] && !handler {
		before := zsim.Seq()
		c.Next()
		_ = before
		if !x.complete() {
			r.fail("C04", "next-returned-early", "Next called by %s returned before the rest of the chain had run (chain %v, position %d)", label, x.exp, x.pos)
		}
		v, ok := c.GetCtxPerRequest("rk")
		if !ok || v != x.id {
			r.fail("C03", "request-lost", "after Next a value stored earlier in the request is gone or foreign: %v %v, want %d", v, ok, x.id)
		}
		e.intact(x, label, c)
		r.cov("next")
		if e.odd(label, x) == 2 {
			c.Next() // there is nothing left
			r.cov("next-twice")
		}
	} else if handler && e.odd(label, x) == 3 && x.pos == len(x.exp) {
		c.Next() // nor after the handler
		r.cov("next-in-handler")
	}
	x.depth--
	e.active--
	x.ended = zsim.Seq()
}

// odd picks the calls of Next nobody needs.
func (e *Env) odd(label string, x *exec) int {
	h := uint64(x.op.T)
	for _, c := range label {
		h = zsim.Hash64(h, uint64(c))
	}
	return int(h % 6)
}

func (e *Env) intact(x *exec, label string, c *tcpx.Context) {
	if !bytes.Equal(c.Stream, x.f.raw) {
		P := []string{"C03", "C01"}
		if x.cn.udp {
			P = []string{"C16", "C03"}
		}
		e.r.failP(P, "stream-changed", "the message bytes changed while %s ran: had %s, now %s", label, short(x.f.raw), short(c.Stream))
	}
	if e.connOf(c) != x.cn {
		e.r.failP([]string{"C03", "C01"}, "connection-changed", "the context changed its connection while %s ran", label)
	}
}

// handle is the body of every handler.
func (e *Env) handle(x *exec, label string, c *tcpx.Context) {
	r := e.r
	cn := x.cn
	e.checkMessage(x, c)
	e.checkScopes(x, c)
	e.called("handler")
	switch label {
	case "HB":
		if x.op.S != "none" {
			cn.note("beat")
			c.RecvHeartBeat()
			cn.note("beat-done")
		}
	case "AUTH":
		switch x.op.S {
		case "deny":
			cn.note("deny")
			c.RecvAuthDeny()
		case "none":
		default:
			cn.note("pass")
			c.RecvAuthPass()
		}
		cn.note("auth-done")
	}
	if x.s == nil || cn.bad || !x.f.ok {
		e.probe(x, c)
	}
	if e.onHandler != nil {
		e.onHandler(x, c)
	}
	if x.op.S == "online" && r.plan.Cfg.Pool && cn.pl.Name != "" {
		if err := c.Online(cn.pl.Name); err == nil {
			cn.online = cn.pl.Name
		}
	}
	for i := range x.op.R {
		rp := x.op.R[i]
		if rp.Go {
			zsim.GoNamed("late reply", func() { e.active++; e.reply(x, c, rp); e.active-- })
		} else {
			e.reply(x, c, rp)
		}
	}
}

// probe decodes a message of a hostile client in every way the package offers.
func (e *Env) probe(x *exec, c *tcpx.Context) {
	raw := x.f.raw
	_, berr := c.RawStream()
	var d Payload
	_, uerr := c.Bind(&d)
	for _, m := range marshNames {
		_, err := c.BindWithMarshaller(dest(m), marshaller(m))
		if uerr == nil {
			uerr = err
		}
	}
	pt := tcpx.PackType(raw)
	_ = pt.BindJSON(&d)
	_ = pt.BindXML(&d)
	_ = pt.BindTOML(&d)
	_ = pt.BindYAML(&d)
	_, _ = pt.URLPattern()
	_, _ = pt.MessageID()
	_, _ = tcpx.HeaderOf(raw)
	_, _ = tcpx.HeaderBytesOf(raw)
	_, _ = tcpx.BodyBytesOf(raw)
	_, _ = tcpx.RouteTypeOf(raw)
	_, _ = tcpx.URLPatternOf(raw)
	_ = c.RouterType()
	_, _ = c.GetURLPattern()
	_ = c.ClientIP()
	if short := len(raw) < 16 || !x.f.ok && uint64(x.f.hl)+uint64(x.f.bl)+16 > uint64(len(raw)); short {
		if berr == nil {
			e.r.fail("C06", "decoded", "the body of a block with impossible inner lengths was handed out without an error: %s", short48(raw))
		}
		if uerr == nil {
			e.r.fail("C06", "decoded", "a block with impossible inner lengths was decoded without an error: %s", short48(raw))
		}
	}
	e.r.cov("probe")
}

func short48(b []byte) string { return short(b) }

// checkMessage verifies what the handler is given against what was packed.
func (e *Env) checkMessage(x *exec, c *tcpx.Context) {
	if x.s == nil || !x.f.ok {
		return
	}
	r := e.r
	if b, err := c.RawStream(); err != nil || !bytes.Equal(b, x.f.body) {
		r.fail("C01", "body", "the body handed out differs from the one sent: %s %v, want %s", short(b), err, short(x.f.body))
	}
	if x.s.val == nil {
		return
	}
	m := x.op.M
	d := dest(m)
	var msg tcpx.Message
	var err error
	sm := r.plan.Cfg.Marsh
	if sm == "" {
		sm = "json"
	}
	if m == sm {
		msg, err = c.Bind(d)
	} else {
		msg, err = c.BindWithMarshaller(d, marshaller(m))
	}
	if err != nil {
		r.fail("C01", "bind", "binding a well-formed %s message failed: %v", m, err)
		return
	}
	if msg.MessageID != x.f.id {
		r.fail("C01", "id", "message id %d was bound as %d", x.f.id, msg.MessageID)
	}
	if !sameValue(m, d, x.s.val) {
		r.fail("C01", "value", "the bound body differs from the one packed: %v, want %v", d, x.s.val)
	}
	if x.s.hdr != nil && canonHdr(hdrJSON(msg.Header)) != canonHdr(hdrJSON(x.s.hdr)) {
		r.fail("C01", "header", "the bound header differs from the one packed: %v, want %v", msg.Header, x.s.hdr)
	}
}

// checkScopes exercises the request and connection scopes.
func (e *Env) checkScopes(x *exec, c *tcpx.Context) {
	r := e.r
	cn := x.cn
	if u := x.op.URL; u != "" && x.op.K == "url" {
		g, err := c.GetURLPattern()
		if err != nil || g != u {
			r.failP([]string{"C03", "C02"}, "url", "a request for url %q reports %q (%v)", u, g, err)
		}
		if rt := c.RouterType(); rt != "URL_PATTERN" {
			r.fail("C03", "router-type", "a url-routed request reports router type %q", rt)
		}
	} else if x.f.ok && x.op.K != "" {
		if rt := c.RouterType(); rt != "MESSAGE_ID" {
			r.fail("C03", "router-type", "an id-routed request reports router type %q", rt)
		}
	}
	if cn.udp {
		// each client is a connection of its own
		if v, ok := c.GetCtxPerConn("uk"); ok && v != cn.addr {
			r.fail("C03", "connection-leak", "a datagram of %s sees a connection value of another client: %v", cn.addr, v)
		}
		c.SetCtxPerConn("uk", cn.addr)
		if v, ok := c.GetCtxPerConn("uk"); !ok || v != cn.addr {
			r.fail("C03", "connection-lost", "a connection value stored by a datagram of %s is %v", cn.addr, v)
		}
		r.cov("scope-check-udp")
		return
	}
	if x.op.CS == 0 {
		return
	}
	if v, ok := c.GetCtxPerConn("ck"); ok {
		if k, isInt := v.(int); !isInt || !cn.hasExec(k) {
			r.fail("C03", "connection-leak", "connection %d sees a connection value of another connection: %v", cn.i, v)
		}
	}
	for _, k := range cn.sets {
		if v, ok := c.GetCtxPerConn(fmt.Sprint("ck", k)); !ok || v != k {
			r.fail("C03", "connection-lost", "a value stored for connection %d by an earlier request is not visible: %v %v", cn.i, v, ok)
		}
	}
	for _, o := range e.conns {
		if o == cn {
			continue
		}
		for _, k := range o.sets {
			if v, ok := c.GetCtxPerConn(fmt.Sprint("ck", k)); ok {
				r.fail("C03", "connection-leak", "connection %d sees a value of connection %d: %v", cn.i, o.i, v)
			}
		}
	}
	c.SetCtxPerConn(fmt.Sprint("ck", x.id), x.id)
	c.SetCtxPerConn("ck", x.id)
	cn.sets = append(cn.sets, x.id)
	if v, ok := c.GetCtxPerConn("ck"); !ok {
		r.fail("C03", "connection-lost", "a value stored for connection %d is not visible", cn.i)
	} else if k, isInt := v.(int); !isInt || !cn.hasExec(k) {
		r.fail("C03", "connection-leak", "connection %d sees a value it did not store: %v", cn.i, v)
	}
	// one key in both scopes
	c.SetCtxPerRequest("both", x.id)
	c.SetCtxPerConn("both", -x.id)
	if v, ok := c.GetCtxPerRequest("both"); !ok || v != x.id {
		r.fail("C03", "scope-mix", "a request value changed when a connection value of the same key was stored: %v, want %d", v, x.id)
	}
	if v, ok := c.GetCtxPerConn("both"); !ok {
		r.fail("C03", "connection-lost", "a value stored for connection %d is not visible", cn.i)
	} else if k, isInt := v.(int); !isInt || !cn.hasExec(-k) {
		r.fail("C03", "scope-mix", "a connection value of connection %d is something else: %v", cn.i, v)
	}
	if v, ok := c.GetCtxPerRequest(fmt.Sprint("ck", x.id)); ok {
		r.fail("C03", "scope-mix", "a connection value is visible as a request value: %v", v)
	}
	r.cov("scope-check")
}

func (cn *conn) hasExec(id int) bool {
	for _, x := range cn.execs {
		if x.id == id {
			return true
		}
	}
	return false
}

func canonHdr(b []byte) string {
	var m map[string]interface{}
	if len(b) == 0 {
		return "{}"
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return "!" + string(b)
	}
	if len(m) == 0 {
		return "{}"
	}
	o, _ := json.Marshal(m)
	return string(o)
}

func frameKey(id int32, hdr, body []byte) string {
	return fmt.Sprintf("%d|%s|%s", id, canonHdr(hdr), body)
}

// reply makes one reply and records what the client must see.
func (e *Env) reply(x *exec, c *tcpx.Context, rp Rep) {
	r := e.r
	if rp.D > 0 {
		zsim.SleepFor(time.Duration(rp.D) * ms)
	}
	e.nrep++
	tag := fmt.Sprintf("r%d.%d", x.id, e.nrep)
	sm := r.plan.Cfg.Marsh
	if sm == "" {
		sm = "json"
	}
	var hs []map[string]interface{}
	want := map[string]interface{}{}
	nh := rp.H
	if nh >= 1000 {
		nh = 1
	}
	for k := 0; k < nh; k++ {
		h := map[string]interface{}{"h": fmt.Sprintf("%s-%d", tag, k), fmt.Sprint("k", k): k}
		if rp.H >= 1000 {
			h["big"] = filler(uint64(rp.H), rp.H)
		}
		hs = append(hs, h)
		for a, b := range h {
			want[a] = b
		}
	}
	if rp.Sh {
		if e.shared == nil {
			e.shared = map[string]interface{}{"shared": "by all", "zz": 5}
		}
		hs = append([]map[string]interface{}{e.shared}, hs...)
		hs = append(hs, map[string]interface{}{"x" + tag: tag})
		want["shared"], want["zz"], want["x"+tag] = "by all", 5, tag
		r.cov("reply-shared-header")
	}
	if rp.Eq {
		tag, hs, want = "same", nil, map[string]interface{}{}
	}
	to := x.cn
	id := rp.ID
	m := ""
	var call func(v interface{}) error
	switch rp.M {
	case "Reply":
		m = sm
		call = func(v interface{}) error { return c.Reply(id, v, hs...) }
	case "JSON":
		m = "json"
		call = func(v interface{}) error { return c.JSON(id, v, hs...) }
	case "XML":
		m = "xml"
		call = func(v interface{}) error { return c.XML(id, v, hs...) }
	case "TOML":
		m = "toml"
		call = func(v interface{}) error { return c.TOML(id, v, hs...) }
	case "YAML":
		m = "yaml"
		call = func(v interface{}) error { return c.YAML(id, v, hs...) }
	case "ProtoBuf":
		m = "protobuf"
		call = func(v interface{}) error { return c.ProtoBuf(id, v, hs...) }
	case "user", "conn":
		to = nil
		for _, o := range e.conns {
			if o.i == rp.To-1 {
				to = o
			}
		}
		if to == nil || to.c == nil || to.raw != nil {
			return
		}
		m = sm
		if rp.M == "user" {
			if to.online == "" || !r.plan.Cfg.Pool {
				return
			}
			call = func(v interface{}) error { return c.SendToUsername(to.online, id, v, hs...) }
		} else {
			if to.ctx == nil {
				return
			}
			call = func(v interface{}) error { return c.SendToConn(to.ctx, id, v, hs...) }
		}
	case "jurl", "purl":
		if x.op.K != "url" {
			return
		}
		id = 0
		want = map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": x.op.URL}
		if rp.M == "jurl" {
			m = "json"
			call = func(v interface{}) error { return c.JSONURLPattern(v) }
		} else {
			m = "protobuf"
			call = func(v interface{}) error { return c.ProtobufURLPattern(v) }
		}
	default:
		if !strings.HasPrefix(rp.M, "with:") {
			return
		}
		m = rp.M[5:]
		call = func(v interface{}) error { return c.ReplyWithMarshaller(marshaller(m), id, v, hs...) }
	}
	v := value(m, tag, rp.N)
	body := refMarshal(m, v)
	w := &reply{cn: to, key: frameKey(id, hdrJSON(want), body), frame: encode(id, hdrJSON(want), body), begun: true, e: x, what: rp.M, bt: zsim.NowD()}
	to.replies = append(to.replies, w)
	w.err = call(v)
	w.done = true
	w.dt = zsim.NowD()
	if w.err == nil {
		to.nOK++
		r.cov("reply-" + strings.SplitN(rp.M, ":", 2)[0])
	} else {
		r.cov("reply-error")
	}
}

// ---- clients ----------------------------------------------------------------------------------------------------

// open connects a client of the plan.
func (e *Env) open(i int, addr string) *conn {
	cn := e.openPl(i, e.r.plan.Conns[i], addr)
	e.nopen++
	return cn
}

func (e *Env) openPl(i int, pl *CPlan, addr string) *conn {
	cn := &conn{i: i, pl: pl, batches: map[int][]*sent{}, srvClose: e.mayClose}
	e.conns = append(e.conns, cn)
	network := e.network
	if a := e.r.plan.Cfg.Addrs; len(a) > 0 {
		k := pl.Addr % len(a)
		network, addr = a[k].Net, addrAt(a, k)
		if a[k].Mode == "raw" {
			cn.raw = &rawState{}
		}
	}
	opt := zsim.DialOpt{Up: pl.Up, Down: pl.Down, Seed: zsim.Hash64(e.r.plan.Seed, uint64(i)), KeepAll: true, TLS: e.r.plan.Cfg.TLS && cn.raw == nil, Mute: pl.Mute}
	if opt.TLS && pl.Mute {
		e.r.cov("tls-mute")
	}
	c, err := zsim.Connect(network, addr, opt)
	for err != nil && e.stopped {
		if !e.adminLive || e.adminDone || pl.once {
			return cn
		}
		e.r.cov("refused-stopped")
		zsim.SleepFor(15 * ms)
		c, err = zsim.Connect(network, addr, opt)
	}
	if err != nil {
		e.r.failP([]string{"C15", "C06", "C13", "C08", "C01", "C02", "C03", "C04", "C05", "C07"}, "refused", "connecting to the running server failed: %v", err)
		return cn
	}
	cn.c = c
	cn.quiet = pl.Quiet
	e.byID[c.ID] = cn
	return cn
}

// readLoop reads everything the server sends.
func (e *Env) readLoop(cn *conn, how string) {
	defer func() { cn.readDone = true }()
	at := 0
	switch how {
	case "", "bytes":
		rng := zsim.NewRand(zsim.Hash64(e.r.plan.Seed, 900, uint64(cn.i)))
		buf := make([]byte, 1+rng.Intn(5000))
		for {
			if cn.quiet {
				zsim.WaitUntil(time.Hour, func() bool { return !cn.quiet || cn.c.IsClosed() })
			}
			_, err := cn.c.Read(buf)
			for {
				fs, _ := parseOne(cn.c.RecvAll[at:])
				if fs == nil {
					break
				}
				cn.got = append(cn.got, *fs)
				at += len(fs.raw)
			}
			if err != nil {
				cn.readErr = err
				break
			}
		}
	default:
		for {
			var raw []byte
			var err error
			var id int32
			var hdr map[string]interface{}
			var body []byte
			switch how {
			case "recv":
				raw, err = tcpx.Recv(cn.c)
			case "block":
				raw, err = tcpx.FirstBlockOf(cn.c)
			case "limit":
				raw, err = tcpx.FirstBlockOfLimitMaxByte(cn.c, 1<<30)
			default:
				id, hdr, body, err = tcpx.UnPackFromReader(cn.c)
			}
			f, _ := parseOne(cn.c.RecvAll[at:])
			if err != nil {
				cn.readErr = err
				if f != nil {
					e.r.fail("C01", "client-lost", "reader %s ends with %v although a complete message had arrived: %s", how, err, short(f.raw))
				}
				break
			}
			if f == nil {
				e.r.fail("C01", "client-phantom", "reader %s returned a message that has not completely arrived: %s", how, short(raw))
				break
			}
			if how == "unpack" {
				if id != f.id || !bytes.Equal(body, f.body) || canonHdr(hdrJSON(hdr)) != canonHdr(f.header) {
					e.r.fail("C01", "client-altered", "reader returned id %d, header %v, body %s for %s", id, hdr, short(body), short(f.raw))
				}
			} else if !bytes.Equal(raw, f.raw) {
				e.r.fail("C01", "client-altered", "reader %s returned %s for %s", how, short(raw), short(f.raw))
			}
			e.r.cov("client-read-" + how)
			cn.got = append(cn.got, *f)
			at += len(f.raw)
		}
	}
	cn.tail = cn.c.RecvAll[at:]
}

func parseOne(b []byte) (*frame, int) {
	fs, tail := parseStream(trunc1(b))
	if len(fs) == 0 {
		return nil, 0
	}
	return &fs[0], len(b) - len(tail)
}

// trunc1 cuts b after its first frame.
func trunc1(b []byte) []byte {
	if len(b) < 4 {
		return b
	}
	n := 4 + int(uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]))
	if n > len(b) {
		return b
	}
	return b[:n]
}

// messages encodes the frames of an operation.
func (e *Env) messages(cn *conn, op *Op, inBatch int, batchLen int) *sent {
	tag := fmt.Sprintf("m%d", op.T)
	h := map[string]interface{}{}
	if op.H >= 1000 {
		h["big"] = filler(uint64(op.T), op.H)
	}
	for k := 0; k < op.H && op.H < 1000; k++ {
		h[fmt.Sprint("hk", k)] = fmt.Sprintf("%s-%d", tag, k)
	}
	s := &sent{op: op, route: true}
	pipe := ""
	if inBatch == 0 && batchLen > 0 {
		pipe = fmt.Sprintf("enable;%d", batchLen)
		h[tcpx.PIPED] = pipe
	}
	id := op.ID
	switch op.K {
	case "url":
		h["Router-Type"] = "URL_PATTERN"
		h["Router-Pattern-Value"] = op.URL
		if op.M == "" {
			op.M = "json"
		}
		s.val = value(op.M, tag, op.N)
		if op.H == 0 && pipe == "" && id == 0 {
			b, err := tcpx.NewURLPatternMessage(op.URL, s.val).Pack(marshaller(op.M))
			e.packed(b, err)
			s.raw = b
		} else {
			s.raw = encode(id, hdrJSON(h), refMarshal(op.M, s.val))
		}
		s.hdr = h
	case "val":
		s.val = value(op.M, tag, op.N)
		s.hdr = h
		switch op.X % 4 {
		case 0:
			b, err := tcpx.NewPackx(marshaller(op.M)).Pack(id, s.val, h)
			e.packed(b, err)
			s.raw = b
		case 1:
			b, err := tcpx.PackWithMarshallerName(tcpx.Message{MessageID: id, Header: h, Body: s.val}, op.M)
			e.packed(b, err)
			s.raw = b
		case 2:
			b, err := tcpx.Pack(id, h, s.val, marshaller(op.M))
			e.packed(b, err)
			s.raw = b
		default:
			s.raw = encode(id, hdrJSON(h), refMarshal(op.M, s.val))
		}
	case "stuff":
		if pipe == "" {
			s.raw = tcpx.PackStuff(id)
		} else {
			s.raw = encode(id, hdrJSON(h), nil)
		}
	case "fit": // the declared length is exactly op.N
		hdr := hdrJSON(h)
		n := op.N - 12 - len(hdr)
		if n < 0 {
			n = 0
		}
		s.raw = encode(id, hdr, randBytes(uint64(op.T), n))
	case "hbeat":
		s.raw = tcpx.PackHeartbeat()
	case "body":
		b, err := tcpx.NewPackx(nil).PackWithBody(id, randBytes(uint64(op.T), op.N), h)
		e.packed(b, err)
		s.raw = b
	default: // "raw": the body is arbitrary bytes
		hdr := hdrJSON(h)
		if len(h) == 0 && op.X%3 == 1 {
			hdr = []byte("null")
		}
		s.raw = encode(id, hdr, randBytes(uint64(op.T), op.N))
	}
	if op.K != "val" && op.K != "url" && op.K != "hbeat" {
		// two identical frames on a connection could not be told apart
		for _, o := range cn.sent {
			if bytes.Equal(o.raw, s.raw) {
				f := parseFrame(s.raw)
				h["u"] = tag
				s.raw = encode(f.id, hdrJSON(h), f.body)
				break
			}
		}
	}
	f := parseFrame(s.raw)
	if !f.ok {
		e.r.fail("C01", "pack", "packing produced an inconsistent frame: %s", short(s.raw))
	}
	s.route = len(e.chain.expected(f)) > 0 && !onlyBuiltin(e.chain.expected(f))
	return s
}

// again is an earlier message of the connection once more, byte for byte.
func (e *Env) again(cn *conn, op *Op) *sent {
	var c []*sent
	for _, s := range cn.sent {
		if s.batch == 0 && !s.cut && !s.pj && s.op.S == "" && s.op.K != "ask" {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	o := c[len(c)-1]
	if op.X > 0 {
		o = c[op.X%len(c)]
	}
	m := *o.op
	m.R, m.Sl, m.Ab, m.CS = op.R, op.Sl, "", op.CS
	e.r.cov("again")
	return &sent{raw: o.raw, op: &m, route: o.route, val: o.val, hdr: o.hdr}
}

// onlyBuiltin: the message runs nothing the harness can see.
func onlyBuiltin(c []string) bool { return len(c) == 1 && c[0] == "builtin-hb" }

func (e *Env) packed(b []byte, err error) {
	if err != nil {
		e.r.fail("C01", "pack", "packing failed: %v", err)
	}
}

// beat sends heartbeats until the client ends.
func (e *Env) beat(cn *conn) {
	for cn.ended == "" && !cn.half && !cn.bad && !cn.c.PeerClosed() {
		zsim.SleepFor(time.Duration(cn.pl.Beat) * ms)
		if e.calm || cn.ended != "" || cn.half || cn.bad || cn.c.PeerClosed() || !e.hbRegistered() {
			break
		}
		e.nprobe++
		e.playOps(cn, []Op{{K: "raw", ID: e.chain.hbid, N: 3, T: 2000000 + e.nprobe}})
		e.r.cov("beat")
	}
}

// play runs the operations of a client.
func (e *Env) play(cn *conn) {
	e.playOps(cn, cn.pl.Ops)
	cn.opsDone = true
}

func (e *Env) playOps(cn *conn, ops []Op) {
	var pend []byte
	var pendS []*sent
	flush := func() bool {
		if len(pend) == 0 {
			return true
		}
		b := pend
		pend = nil
		if cn.pl.Beat > 0 {
			zsim.WaitUntil(time.Hour, func() bool { return !cn.sending })
			cn.sending = true
			defer func() { cn.sending = false }()
			end := cn.off
			for _, s := range pendS {
				end += len(s.raw)
				s.end = end
			}
		}
		base := cn.off
		cn.off += len(b)
		cn.stream = append(cn.stream, b...)
		n, err := cn.c.Write(b)
		cn.acked += n
		for _, s := range pendS {
			if s.beat && s.end <= base+n {
				cn.note("beat")
			}
		}
		if err != nil {
			for _, s := range pendS {
				if s.end > base+n {
					s.cut = s.ex == nil && s.end > base+n
				}
			}
		}
		pendS = nil
		return err == nil
	}
	lim := int(e.r.plan.Cfg.MaxByte)
	over := func(s *sent) {
		if lim > 0 && len(s.raw)-4 > lim {
			s.cut = true
			if !cn.bad {
				cn.bad, cn.badAt = true, s.end-len(s.raw)
			}
			e.r.cov("over-limit")
		} else if lim > 0 && len(s.raw)-4 == lim {
			e.r.cov("at-limit")
		}
	}
	add := func(s *sent) {
		pend = append(pend, s.raw...)
		s.end = cn.off + len(pend)
		if x := e.chain.expected(parseFrame(s.raw)); len(x) > 0 && x[len(x)-1] == "builtin-hb" {
			s.beat = true
			if s.op.Ab != "" || len(s.op.Sl) > 0 || cn.pl.Up.LatMax > 0 || cn.pl.Up.LatMin > 0 || s.batch > 0 {
				cn.unsure = true
			}
		}
		over(s)
		pendS = append(pendS, s)
		cn.sent = append(cn.sent, s)
	}
	for k := range ops {
		op := &ops[k]
		if cn.ended != "" {
			break
		}
		if op.D > 0 {
			if !flush() {
				break
			}
			zsim.SleepFor(time.Duration(op.D) * ms)
		}
		switch op.K {
		case "val", "raw", "body", "stuff", "hbeat", "url", "fit":
			add(e.messages(cn, op, -1, 0))
		case "again":
			if s := e.again(cn, op); s != nil {
				add(s)
			}
		case "ask":
			if flush() {
				e.ask(cn, op)
			}
		case "wjson":
			if !flush() {
				break
			}
			s := &sent{op: op, val: value("json", fmt.Sprintf("m%d", op.T), op.N), hdr: map[string]interface{}{}}
			op.M = "json"
			s.raw = encode(op.ID, []byte("null"), refMarshal("json", s.val))
			x := e.chain.expected(parseFrame(s.raw))
			s.route = len(x) > 0 && !onlyBuiltin(x)
			if len(x) > 0 && x[len(x)-1] == "builtin-hb" {
				cn.unsure = true
			}
			cn.off += len(s.raw)
			cn.stream = append(cn.stream, s.raw...)
			s.end = cn.off
			over(s)
			cn.sent = append(cn.sent, s)
			if op.S == "once" && !e.r.plan.Cfg.TLS {
				cn.c.Closing = func() { cn.end("close") }
				var err error
				used := 0
				zsim.WithDial(func(string, string) (*zsim.Conn, error) {
					used++
					return cn.c, nil
				}, func() { err = tcpx.TCPCallOnceJSON(e.network, e.addr, int(op.ID), s.val) })
				cn.c.Closing = nil
				switch {
				case used != 1:
					e.r.failP([]string{"C01"}, "call-dial", "TCPCallOnceJSON opened %d connections", used)
				case err == nil:
					cn.acked += len(s.raw)
					if cn.ended == "" {
						e.r.failP([]string{"C01"}, "call-open", "TCPCallOnceJSON left its connection open")
					}
				default:
					s.cut = s.ex == nil
				}
				e.r.cov("call-once")
				break
			}
			if err := tcpx.WriteJSON(cn.c, op.ID, s.val); err == nil {
				cn.acked += len(s.raw)
			} else {
				s.cut = s.ex == nil
			}
		case "pipe":
			cn.nb++
			cn.hasBatch = true
			if op.S == "json" {
				if !flush() {
					break
				}
				var args []interface{}
				for j := range op.B {
					b := &op.B[j]
					b.M = "json"
					b.K = "val"
					s := &sent{op: b, batch: cn.nb, idx: j, pj: true, alone: len(op.B) == 1, val: value("json", fmt.Sprintf("m%d", b.T), b.N)}
					hdr := []byte("null")
					if j == 0 {
						hdr = hdrJSON(map[string]interface{}{tcpx.PIPED: fmt.Sprintf("enable;%d", len(op.B))})
					}
					s.raw = encode(b.ID, hdr, refMarshal("json", s.val))
					s.route = len(e.chain.expected(parseFrame(s.raw))) > 0 && !onlyBuiltin(e.chain.expected(parseFrame(s.raw)))
					if x := e.chain.expected(parseFrame(s.raw)); len(x) > 0 && x[len(x)-1] == "builtin-hb" {
						cn.unsure = true
					}
					cn.off += len(s.raw)
					cn.stream = append(cn.stream, s.raw...)
					s.end = cn.off
					over(s)
					cn.sent = append(cn.sent, s)
					cn.batches[cn.nb] = append(cn.batches[cn.nb], s)
					args = append(args, int(b.ID), s.val)
				}
				if err := tcpx.PipeJSON(cn.c, args...); err == nil {
					cn.acked = cn.off
				}
			} else {
				for j := range op.B {
					s := e.messages(cn, &op.B[j], j, len(op.B))
					s.batch, s.idx = cn.nb, j
					cn.batches[cn.nb] = append(cn.batches[cn.nb], s)
					add(s)
					if op.B[j].D > 0 {
						if !flush() {
							break
						}
						zsim.SleepFor(time.Duration(op.B[j].D) * ms)
					}
				}
			}
		case "bytes": // arbitrary bytes
			b, _ := hex.DecodeString(op.Hex)
			if !cn.bad {
				cn.bad, cn.badAt = true, cn.off+len(pend)
			}
			pend = append(pend, b...)
			if lim == 0 {
				pend = tame(cn.stream, pend)
			}
			e.r.cov("attack")
		case "over": // announces more than the limit and sends only the first X bytes
			if lim <= 0 || op.N <= lim {
				break
			}
			b := make([]byte, 16)
			binary.BigEndian.PutUint32(b, uint32(op.N))
			binary.BigEndian.PutUint32(b[4:], uint32(op.ID))
			binary.BigEndian.PutUint32(b[8:], 2)
			binary.BigEndian.PutUint32(b[12:], uint32(op.N-14))
			b = append(b, "{}"...)
			b = append(b, randBytes(uint64(op.T), op.X)...)
			x := op.X
			if x < 4 {
				x = 4
			}
			if x > len(b) {
				x = len(b)
			}
			if !cn.bad {
				cn.bad, cn.badAt = true, cn.off+len(pend)
			}
			pend = append(pend, b[:x]...)
			flush()
			e.r.cov("over-limit")
		case "cut": // a frame that is never completed
			s := e.messages(cn, &Op{K: "raw", ID: op.ID, T: op.T, N: op.N}, -1, 0)
			n := len(s.raw) * op.X / 1000
			if n >= len(s.raw) {
				n = len(s.raw) - 1
			}
			if n > 0 {
				pend = append(pend, s.raw[:n]...)
			}
			flush()
			cn.half = true
			e.r.cov("cut")
		case "cutpipe": // a batch that is never completed
			cn.nb++
			cn.hasBatch = true
			for j := range op.B {
				s := e.messages(cn, &op.B[j], j, len(op.B)+op.X)
				s.batch, s.idx = cn.nb, j
				cn.batches[cn.nb] = append(cn.batches[cn.nb], s)
				add(s)
			}
			if op.N > 0 {
				x := encode(op.ID, []byte("{}"), randBytes(uint64(op.T), 64))
				pend = append(pend, x[:op.N%len(x)]...)
			}
			flush()
			cn.half = true
			e.r.cov("cut-batch")
		}
		if !op.J || isEnd(op.K) {
			if !isEnd(op.K) && !flush() {
				break
			}
		}
		switch op.K {
		case "wait":
			zsim.WaitUntil(5*time.Second, func() bool { return e.outstanding(cn) == "" })
		case "close":
			flush()
			cn.end("close")
			cn.c.Close()
		case "closew":
			flush()
			cn.end("closew")
			cn.c.CloseWrite()
			e.r.cov("half-close")
		case "reset":
			flush()
			cn.end("reset")
			cn.c.Reset()
		case "vanish":
			flush()
			cn.end("vanish")
			cn.c.Vanish()
		case "partition":
			flush()
			cn.c.Partition()
			cn.parts = append(cn.parts, span{zsim.NowD(), zsim.NowD() + time.Duration(op.X)*ms})
			cn.unsure = true
			zsim.At(time.Duration(op.X)*ms, cn.c.Heal)
		case "quiet":
			cn.quiet = true
		case "resume":
			cn.quiet = false
		}
	}
	flush()
}

// tame reduces declared lengths in the new bytes beyond 8 MB that are not negative: without a limit the server allocates
// them, which costs seconds and says nothing.
func tame(old, new []byte) []byte {
	for {
		all := append(append([]byte(nil), old...), new...)
		off := 0
		done := true
		for off+4 <= len(all) {
			n := binary.BigEndian.Uint32(all[off:])
			if n >= 1<<31 {
				break
			}
			if n > 8<<20 {
				if off < len(old) {
					// part of the length was sent already, it stays incomplete
					return nil
				}
				for k := 0; k < 2; k++ {
					if j := off + k - len(old); j >= 0 && new[j] != 0 {
						new[j] = 0
						done = false
					}
				}
				break
			}
			off += 4 + int(n)
		}
		if done {
			return new
		}
	}
}

func (cn *conn) end(how string) {
	if cn.onEnd != nil {
		cn.onEnd()
	}
	cn.ended = how
	cn.endAt = zsim.NowD()
}

func isEnd(k string) bool { return k == "close" || k == "reset" || k == "closew" || k == "vanish" }

// outstanding says what a healthy connection still owes; empty: nothing.
func (e *Env) outstanding(cn *conn) string {
	if cn.c == nil {
		return ""
	}
	must := cn.must()
	for _, s := range cn.sent {
		if s.route && !s.cut && s.ex == nil && s.end <= must {
			return fmt.Sprintf("message id %d (%s) was not dispatched", parseFrame(s.raw).id, short(s.raw))
		}
	}
	for _, x := range cn.execs {
		if x.depth > 0 || !x.complete() {
			return fmt.Sprintf("the chain of message id %d is at %d of %v", x.f.id, x.pos, x.exp)
		}
	}
	if len(cn.got) < cn.nOK && cn.ended != "close" && cn.ended != "reset" && !cn.readDone {
		return fmt.Sprintf("%d replies were sent, %d arrived", cn.nOK, len(cn.got))
	}
	return ""
}

// checkDispatch compares what was handled with what was received (C01, C05, C04 completeness).
func (e *Env) checkDispatch(cn *conn) {
	r := e.r
	if cn.c == nil {
		return
	}
	props := []string{"C01"}
	if cn.hasBatch {
		props = append(props, "C05")
	}
	props = append(props, "C06", "C07", "C08", "C02", "C03", "C15", "C12", "C13", "C09", "C10", "C14")
	must := cn.must()
	missing := ""
	for _, s := range cn.sent {
		if !s.route || s.cut {
			continue
		}
		if s.ex == nil {
			if s.end <= must {
				r.failP(props, "lost", "connection %d: a completely received message was not dispatched: id %d, %s", cn.i, parseFrame(s.raw).id, short(s.raw))
			}
			if missing == "" {
				missing = short(s.raw)
			}
		} else if missing != "" && cn.pl.Beat == 0 {
			r.failP(props, "gap", "connection %d: a message was dispatched although an earlier one was not (%s)", cn.i, missing)
		}
	}
	for _, x := range cn.execs {
		if x.complete() {
			continue
		}
		r.fail("C04", "incomplete", "connection %d: the chain of message id %d stopped at %d of %v", cn.i, x.f.id, x.pos, x.exp)
	}
}

// checkReplies compares what the client received with what was sent to it (C02).
func (e *Env) checkReplies(cn *conn) {
	r := e.r
	if cn.c == nil && !cn.udp {
		return
	}
	P := []string{"C02"}
	if cn.udp {
		P = []string{"C16"}
	}
	healthy := (cn.ended == "" || cn.ended == "closew") && !cn.srvClose
	open := cn.ended == "" && !cn.srvClose
	cut := e.wfailed(cn)
	if cut && e.wextended(cn) {
		return
	}
	if e.hasDL() || len(cn.dls) > 0 {
		P = append(P, "C14")
	}
	idx := map[string][]*reply{}
	for _, w := range cn.replies {
		idx[w.key] = append(idx[w.key], w)
	}
	for _, f := range cn.got {
		if !f.ok {
			r.failP(P, "broken-frame", "connection %d received a broken frame: %s", cn.i, short(f.raw))
			return
		}
		k := frameKey(f.id, f.header, f.body)
		var hit *reply
		for _, w := range idx[k] {
			// of several equal ones those that reported success are owed first
			if w.got == 0 && (hit == nil || w.done && w.err == nil) {
				hit = w
				if w.done && w.err == nil {
					break
				}
			}
		}
		if hit == nil {
			if len(idx[k]) > 0 {
				r.failP(P, "twice", "connection %d received a reply twice: %s", cn.i, short(f.raw))
			} else if o := e.whose(k); o != nil && o != cn {
				r.failP(P, "misrouted", "connection %d received a frame meant for connection %d: %s", cn.i, o.i, short(f.raw))
			} else {
				r.failP(append(P, "C03"), "unknown-frame", "connection %d received a frame nobody sent to it: %s", cn.i, short(f.raw))
			}
			continue
		}
		hit.got++
	}
	for _, w := range cn.replies {
		if healthy && w.done && w.err == nil && w.got == 0 {
			r.failP(P, "lost", "connection %d never received a %s reply that reported success: %s", cn.i, w.what, short(w.frame))
		}
		if open && w.done && w.err != nil && !e.writeMay(cn, w.bt, w.dt) {
			r.failP(append(P, "C14"), "failed", "connection %d: a %s reply on a healthy connection failed: %v", cn.i, w.what, w.err)
		}
		if healthy && !w.done {
			r.failP(append(P, "C15"), "stuck", "connection %d: a %s reply on a healthy connection does not return", cn.i, w.what)
		}
	}
	if len(cn.tail) > 0 {
		if open && !cut {
			r.failP(P, "truncated", "connection %d ends with a truncated frame: %s", cn.i, short(cn.tail))
			return
		}
		ok := len(cn.tail) < 16
		for _, w := range cn.replies {
			if bytes.HasPrefix(w.frame, cn.tail) {
				ok = true
			}
		}
		if !ok && len(cn.tail) >= 16 {
			// header order may differ: compare the fixed part only
			for _, w := range cn.replies {
				if len(w.frame) >= 16 && bytes.Equal(w.frame[:16], cn.tail[:16]) {
					ok = true
				}
			}
		}
		if !ok {
			r.failP(P, "foreign-tail", "connection %d ends with bytes that start no frame sent to it: %s", cn.i, short(cn.tail))
		}
	}
}

func (e *Env) whose(key string) *conn {
	for _, cn := range e.conns {
		for _, w := range cn.replies {
			if w.key == key {
				return cn
			}
		}
	}
	return nil
}

// checkEnded verifies the end of a connection's life (C08): called when everything has come to rest.
func (e *Env) checkEnded(cn *conn) {
	r := e.r
	if cn.c == nil || !cn.c.Accepted() {
		return
	}
	if cn.onConn != 1 && !r.plan.Cfg.NoOnConn {
		r.fail("C08", "no-connect", "connect callback ran %d times for connection %d", cn.onConn, cn.i)
	}
	if cn.onClose != 1 && !r.plan.Cfg.NoOnClose {
		r.fail("C08", "no-close", "close callback ran %d times for connection %d, which has ended (%s)", cn.onClose, cn.i, cn.ended)
	}
	if !cn.c.PeerClosed() {
		r.fail("C08", "socket-leak", "connection %d has ended (%s) but the server has not closed its socket", cn.i, cn.ended)
	}
	for _, c := range cn.ctxs {
		if !c.IsOffline() || c.IsOnline() {
			r.fail("C08", "online", "connection %d has ended (%s) but a context of it does not report offline", cn.i, cn.ended)
		}
	}
}

// checkCensus verifies that only the goroutines of the serving calls are left.
func (e *Env) checkCensus(prop string, allowed int) {
	left := zsim.Census()
	if len(left) > allowed {
		var d []string
		for _, g := range left {
			d = append(d, g.Desc)
		}
		sort.Strings(d)
		e.r.fail(prop, "goroutine-leak", "all connections have ended but %d server goroutines are left (%d expected): %s", len(left), allowed, strings.Join(d, "; "))
	}
}

// failP reports under the property being checked if it is among props, else under the first.
func (r *Run) failP(props []string, kind, f string, a ...interface{}) {
	p := props[0]
	for _, x := range props {
		if x == r.target {
			p = x
		}
	}
	r.fail(p, kind, f, a...)
}
