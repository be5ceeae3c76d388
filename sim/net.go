package zsim

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// NetProfile describes how the network treats a TCP connection (both directions unless set separately).
type NetProfile struct {
	MaxSeg   int           `json:"seg,omitempty"`    // largest segment; segments are cut at random below it. 0: as written
	OneByte  bool          `json:"one,omitempty"`    // every segment is one byte
	LatMin   time.Duration `json:"lmin,omitempty"`   // per-segment latency
	LatMax   time.Duration `json:"lmax,omitempty"`   //
	Window   int           `json:"win,omitempty"`    // bytes in flight or unread before Write blocks (default 256 KiB)
	EOFData  bool          `json:"eofd,omitempty"`   // Read may return the last bytes together with io.EOF
	DropRST  bool          `json:"rstd,omitempty"`   // a reset overtakes and discards data in flight
	ReadFrag bool          `json:"rfrag,omitempty"`  // Read returns less than is available
	Jitter   bool          `json:"jitter,omitempty"` // connect takes LatMin..LatMax
}

type netState struct {
	s         *Sim
	listeners map[string]*Listener
	packets   map[string]*PacketConn
	nextPort  int
	nconn     int
	conns     []*Conn
	bindFail  map[string]int
}

func newNetState(s *Sim) *netState {
	return &netState{s: s, listeners: map[string]*Listener{}, packets: map[string]*PacketConn{}, nextPort: 40000, bindFail: map[string]int{}}
}

func fam(network string) string {
	switch {
	case strings.HasPrefix(network, "tcp"):
		return "tcp"
	case strings.HasPrefix(network, "udp"):
		return "udp"
	case strings.HasPrefix(network, "unix"):
		return network
	}
	return network
}

// keysOf are the sockets an address stands for: the IPv4 one, the IPv6 one, or both.
func keysOf(network, addr string) []string {
	f := fam(network)
	if f != "tcp" && f != "udp" {
		return []string{f + "|" + addr}
	}
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return []string{f + "|?" + addr}
	}
	k4, k6 := f+"|4|"+addr[i+1:], f+"|6|"+addr[i+1:]
	ip := net.ParseIP(strings.Trim(addr[:i], "[]"))
	switch {
	case strings.HasSuffix(network, "4"), addr[:i] == "localhost" && !strings.HasSuffix(network, "6"), ip.To4() != nil:
		return []string{k4}
	case strings.HasSuffix(network, "6"), ip != nil && !ip.IsUnspecified():
		return []string{k6}
	}
	return []string{k4, k6}
}

// unsuitable: the address is of the other family.
func unsuitable(network, addr string) bool {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return false
	}
	ip := net.ParseIP(strings.Trim(addr[:i], "[]"))
	if ip == nil {
		return false
	}
	return strings.HasSuffix(network, "6") && ip.To4() != nil || strings.HasSuffix(network, "4") && ip.To4() == nil
}

func (n *netState) listenerAt(network, addr string) *Listener {
	for _, k := range keysOf(network, addr) {
		if l := n.listeners[k]; l != nil {
			return l
		}
	}
	return nil
}

func (n *netState) packetAt(network, addr string) *PacketConn {
	for _, k := range keysOf(network, addr) {
		if l := n.packets[k]; l != nil {
			return l
		}
	}
	return nil
}

func opErr(op, network string, src, dst net.Addr, err error) error {
	return &net.OpError{Op: op, Net: network, Source: src, Addr: dst, Err: err}
}
func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

// ---- listener -------------------------------------------------------------------------------------------------

type Listener struct {
	network string
	addr    net.Addr
	keys    []string
	queue   []*Conn
	q       waitq
	closed  bool
	faults  []error
	Accepts int
	dlEv    *event
	dlPast  bool
}

func mkAddr(network, addr string, port int) net.Addr {
	switch fam(network) {
	case "tcp":
		return &net.TCPAddr{IP: hostIP(addr, network), Port: port}
	case "udp":
		return &net.UDPAddr{IP: hostIP(addr, network), Port: port}
	}
	return &net.UnixAddr{Name: addr, Net: network}
}
func hostIP(addr, network string) net.IP {
	i := strings.LastIndexByte(addr, ':')
	h := ""
	if i >= 0 {
		h = strings.Trim(addr[:i], "[]")
	}
	if h == "" {
		if strings.HasSuffix(network, "4") {
			return net.IPv4zero
		}
		return net.IPv6zero
	}
	if h == "localhost" {
		return net.IPv4(127, 0, 0, 1)
	}
	return net.ParseIP(h)
}

func (n *netState) bind(network, addr string) (net.Addr, []string, error) {
	keys := keysOf(network, addr)
	port := 0
	f := fam(network)
	if f == "tcp" || f == "udp" {
		i := strings.LastIndexByte(addr, ':')
		if i < 0 {
			return nil, nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "missing port in address", Addr: addr}}
		}
		p, err := strconv.Atoi(addr[i+1:])
		if err != nil || p < 0 || p > 65535 {
			return nil, nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: addr}}
		}
		if unsuitable(network, addr) {
			return nil, nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "no suitable address found", Addr: addr}}
		}
		port = p
		if port == 0 {
			n.nextPort++
			port = n.nextPort
			keys = keysOf(network, addr[:i+1]+strconv.Itoa(port))
		}
	}
	a := mkAddr(network, addr, port)
	for _, k := range keys {
		if n.bindFail[k] > 0 {
			n.bindFail[k]--
			Fault("bind-eaddrinuse")
			return nil, nil, opErr("listen", network, nil, a, sysErr("bind", syscall.EADDRINUSE))
		}
	}
	for _, k := range keys {
		if n.listeners[k] != nil || n.packets[k] != nil {
			return nil, nil, opErr("listen", network, nil, a, sysErr("bind", syscall.EADDRINUSE))
		}
	}
	return a, keys, nil
}

func Listen(network, addr string) (net.Listener, error) {
	if !on() {
		return nil, ErrUnsupported
	}
	yv()
	switch network {
	case "tcp", "tcp4", "tcp6", "unix", "unixpacket":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	n := S.net
	a, keys, err := n.bind(network, addr)
	if err != nil {
		return nil, err
	}
	l := &Listener{network: network, addr: a, keys: keys}
	for _, k := range keys {
		n.listeners[k] = l
	}
	if fam(network) == "tcp" {
		return &TCPListener{l}, nil
	}
	return &UnixListener{l}, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return c.wrap(), nil
}

func (l *Listener) accept() (*Conn, error) {
	if !on() {
		return nil, net.ErrClosed
	}
	yv()
	for {
		if l.closed {
			return nil, opErr("accept", l.network, nil, l.addr, net.ErrClosed)
		}
		if l.dlPast {
			return nil, opErr("accept", l.network, nil, l.addr, os.ErrDeadlineExceeded)
		}
		if len(l.faults) > 0 {
			e := l.faults[0]
			l.faults = l.faults[1:]
			Fault("accept-error")
			return nil, opErr("accept", l.network, nil, l.addr, e)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.accepted = true
			c.acceptAt = NowD()
			c.acceptSeq = Seq()
			l.Accepts++
			return c, nil
		}
		l.q.wait("accept")
	}
}
func (l *Listener) SetDeadline(t time.Time) error {
	if l.dlEv != nil {
		l.dlEv.dead = true
	}
	l.dlPast = false
	if !t.IsZero() {
		d := Until(t)
		if d <= 0 {
			l.dlPast = true
			l.q.wakeAll()
		} else {
			l.dlEv = S.After(d, func() { l.dlPast = true; l.q.wakeAll() })
		}
	}
	return nil
}
func (l *Listener) Close() error {
	if !on() {
		return nil
	}
	yv()
	if l.closed {
		return opErr("close", l.network, nil, l.addr, net.ErrClosed)
	}
	l.closed = true
	for _, k := range l.keys {
		if S.net.listeners[k] == l {
			delete(S.net.listeners, k)
		}
	}
	// connections nobody accepted are reset
	for _, c := range l.queue {
		c.closed = true
		c.out.reset()
		c.in.purge()
	}
	l.queue = nil
	l.q.wakeAll()
	return nil
}
func (l *Listener) Addr() net.Addr { return l.addr }

// AcceptFault makes the next Accept calls of the address fail.
func AcceptFault(network, addr string, errs ...syscall.Errno) {
	l := S.net.listenerAt(network, addr)
	if l == nil {
		return
	}
	for _, e := range errs {
		Fault("accept-" + e.Error())
		l.faults = append(l.faults, sysErr("accept4", e))
	}
	l.q.wakeAll()
}

// BindFault makes the next n binds of the address fail with EADDRINUSE.
func BindFault(network, addr string, n int) { S.net.bindFail[keysOf(network, addr)[0]] = n }

// Listening reports whether an address is being listened on.
func Listening(network, addr string) bool {
	return S.net.listenerAt(network, addr) != nil || S.net.packetAt(network, addr) != nil
}

// ---- connection -----------------------------------------------------------------------------------------------

type segment struct {
	data  []byte
	fin   bool
	rst   bool
	hello bool  // the client's part of a TLS handshake
	at    int64 // arrival
}

// dir is one direction of a connection.
type dir struct {
	s          *Sim
	prof       NetProfile
	rng        *Rand
	from, to   *Conn
	flight     []segment
	flightN    int
	buf        []byte // delivered, unread
	bounds     []int  // segment ends in buf (for TLS records), unused otherwise
	finSent    bool
	finRecv    bool
	last       int64
	blocked    bool // partition
	dead       bool // receiver vanished, nothing is delivered any more
	armed      bool
	resetRecv  bool // the receiver of this direction got a reset
	pendDeliv  int
	TotalSent  int
	TotalDeliv int
	epipe      bool
}

type Conn struct {
	Closing   func() // called when it is closed
	s         *Sim
	ID        int
	network   string
	laddr     net.Addr
	raddr     net.Addr
	in, out   *dir
	Peer      *Conn
	closed    bool
	accepted  bool
	acceptAt  time.Duration
	acceptSeq int
	server    bool
	helloIn   bool // the client's part of the TLS handshake has arrived
	tls       bool // the server end talks TLS
	corrupt   error
	linger0   bool
	wlock     bool
	wq        waitq // writers waiting for the write lock
	rlock     bool
	rlq       waitq // readers waiting for the read lock
	rq        waitq // reader waiting for data
	wspace    waitq // writer waiting for space
	hq        waitq // waiting for the TLS handshake
	rdl, wdl  deadline
	// history for oracles
	Written  []byte
	ReadN    int
	ClosedAt time.Duration
	CloseSeq int
	RecvAll  []byte
	keepAll  bool
}

type deadline struct {
	ev   *event
	past bool
	set  bool
	at   time.Duration
}

func newConnPair(s *Sim, network string, laddr, raddr net.Addr, cprof, sprof NetProfile, seed uint64) (client, server *Conn) {
	n := s.net
	n.nconn++
	id := n.nconn
	c := &Conn{s: s, ID: id, network: network, laddr: laddr, raddr: raddr}
	v := &Conn{s: s, ID: id, network: network, laddr: raddr, raddr: laddr, server: true}
	up := &dir{s: s, prof: cprof, rng: NewRand(Hash64(seed, 11)), from: c, to: v}
	down := &dir{s: s, prof: sprof, rng: NewRand(Hash64(seed, 12)), from: v, to: c}
	c.out, c.in, v.out, v.in = up, down, down, up
	c.Peer, v.Peer = v, c
	n.conns = append(n.conns, c)
	return c, v
}

// DialOpt configures a harness connection.
type DialOpt struct {
	Up, Down NetProfile
	Seed     uint64
	TLS      bool // the client talks TLS
	Mute     bool // but never starts the handshake
	KeepAll  bool
}

// reusable picks the source address of an earlier connection that a new
// connection to l may use without sharing both ends with a live one.
func (n *netState) reusable(l *Listener, h uint64) *net.TCPAddr {
	var ok []*net.TCPAddr
	for _, c := range n.conns {
		a, is := c.laddr.(*net.TCPAddr)
		if !is {
			continue
		}
		free := true
		for _, d := range n.conns {
			b, is := d.laddr.(*net.TCPAddr)
			if is && b.String() == a.String() && d.raddr.String() == l.addr.String() && !(d.closed && d.Peer.closed) {
				free = false
			}
		}
		if free {
			ok = append(ok, a)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	return ok[h%uint64(len(ok))]
}

// Connect opens a connection from the harness to a listening address.
func Connect(network, addr string, opt DialOpt) (*Conn, error) {
	s := S
	s.chkKill()
	n := s.net
	if opt.Up.Jitter {
		SleepFor(opt.Up.LatMin)
	} else {
		Yield()
	}
	l := n.listenerAt(network, addr)
	if l == nil || l.closed {
		return nil, opErr("dial", network, nil, nil, sysErr("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	var la net.Addr
	switch fam(network) {
	case "tcp":
		la = &net.TCPAddr{IP: net.IPv4(10, 0, byte(n.nextPort>>8&255), byte(n.nextPort&255)), Port: n.nextPort}
	default:
		// an unbound client of a unix socket has no name of its own
		la = &net.UnixAddr{Name: "@", Net: network}
	}
	if a, ok := la.(*net.TCPAddr); ok && Hash64(opt.Seed, 17)%6 == 0 {
		// the source address of an earlier connection, ended or to another
		// address of the server, is used again
		if old := n.reusable(l, Hash64(opt.Seed, 18)); old != nil {
			*a = *old
			Fault("source-address-reused")
		}
	}
	c, v := newConnPair(s, l.network, la, l.addr, opt.Up, opt.Down, opt.Seed)
	if opt.TLS && !opt.Mute {
		c.out.push(segment{hello: true})
	}
	c.keepAll = opt.KeepAll
	l.queue = append(l.queue, v)
	l.q.wakeOne()
	return c, nil
}

func Dial(network, addr string) (net.Conn, error) {
	if !on() {
		return nil, ErrUnsupported
	}
	if f := S.cur.dial; f != nil {
		c, err := f(network, addr)
		if err != nil {
			return nil, err
		}
		return c.wrap(), nil
	}
	c, err := Connect(network, addr, DialOpt{Up: DialProfile, Down: DialProfile, Seed: uint64(S.net.nconn + 1)})
	if err != nil {
		return nil, err
	}
	return c.wrap(), nil
}

// WithDial runs f; what it dials comes from d.
func WithDial(d func(network, addr string) (*Conn, error), f func()) {
	g := S.cur
	g.dial = d
	defer func() { g.dial = nil }()
	f()
}

// DialProfile is the network profile of connections opened by the code under test.
var DialProfile NetProfile

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }

func (c *Conn) err(op string, e error) error { return opErr(op, c.network, c.laddr, c.raddr, e) }

func (d *dir) window() int {
	if d.prof.Window > 0 {
		return d.prof.Window
	}
	return 256 << 10
}

func (d *dir) segSize(n int) int {
	if d.prof.OneByte {
		if n > 1 {
			Fault("segmentation")
		}
		return 1
	}
	if d.prof.MaxSeg > 0 {
		m := 1 + d.rng.Intn(d.prof.MaxSeg)
		if m < n {
			Fault("segmentation")
			return m
		}
	}
	return n
}

func (d *dir) latency() time.Duration {
	l := d.prof.LatMin
	if d.prof.LatMax > d.prof.LatMin {
		l += time.Duration(d.rng.Intn(int(d.prof.LatMax - d.prof.LatMin)))
	}
	if l > 0 {
		Fault("delay")
	}
	return l
}

func (d *dir) push(sg segment) {
	at := d.s.now + int64(d.latency())
	if at < d.last {
		at = d.last
	}
	d.last = at
	sg.at = at
	d.flight = append(d.flight, sg)
	d.flightN += len(sg.data)
	d.TotalSent += len(sg.data)
	d.schedule()
}

// schedule arms the delivery of the first segment in flight; there is at most one delivery event per direction.
func (d *dir) schedule() {
	if d.armed || len(d.flight) == 0 || d.dead || d.blocked {
		return
	}
	d.armed = true
	w := d.flight[0].at - d.s.now
	if w < 0 {
		w = 0
	}
	d.s.After(time.Duration(w), d.deliver)
}

func (d *dir) deliver() {
	d.armed = false
	if d.dead || d.blocked {
		return
	}
	if len(d.flight) == 0 {
		return
	}
	if d.flight[0].at > d.s.now {
		d.schedule()
		return
	}
	defer d.schedule()
	sg := d.flight[0]
	d.flight = d.flight[1:]
	d.flightN -= len(sg.data)
	to := d.to
	switch {
	case sg.rst:
		d.resetRecv = true
		to.out.epipe = true
		to.wake()
	case sg.fin:
		d.finRecv = true
		to.wake()
	case sg.hello:
		to.helloIn = true
		to.wake()
	default:
		d.TotalDeliv += len(sg.data)
		if to.closed {
			// nobody is there any more: reset
			if !d.resetBack() {
				return
			}
			return
		}
		d.buf = append(d.buf, sg.data...)
		to.wake()
	}
}

// resetBack answers data for a closed socket with a reset.
func (d *dir) resetBack() bool {
	rev := d.to.out
	if rev.resetRecv {
		return false
	}
	rev.push(segment{rst: true})
	d.from.wspace.wakeAll()
	return true
}

// reset sends an RST to the receiver of this direction.
func (d *dir) reset() {
	if d.prof.DropRST {
		if d.flightN > 0 {
			Fault("data-lost-by-reset")
		}
		d.flight = nil
		d.flightN = 0
	}
	d.push(segment{rst: true})
}
func (d *dir) purge() {
	d.buf = nil
	d.flight = nil
	d.flightN = 0
}

func (c *Conn) wake() {
	c.rq.wakeAll()
	c.wspace.wakeAll()
	c.hq.wakeAll()
}

func (c *Conn) Read(b []byte) (int, error) {
	if !on() {
		return 0, net.ErrClosed
	}
	yv()
	s := S
	for c.rlock {
		c.rlq.wait("conn read lock")
	}
	c.rlock = true
	n, err := c.read(s, b)
	c.rlock = false
	c.rlq.wakeOne()
	return n, err
}

func (c *Conn) read(s *Sim, b []byte) (int, error) {
	d := c.in
	for {
		if c.closed {
			return 0, c.err("read", net.ErrClosed)
		}
		if c.rdl.past {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.helloIn && !c.tls {
			// TLS records where none are understood: the client gives up
			return 0, c.err("read", sysErr("read", syscall.ECONNRESET))
		}
		if len(d.buf) > 0 {
			n := len(b)
			if n > len(d.buf) {
				n = len(d.buf)
			}
			if d.prof.ReadFrag && n > 1 {
				k := 1 + d.rng.Intn(n)
				if k < n {
					Fault("short-read")
				}
				n = k
			}
			copy(b, d.buf[:n])
			if c.keepAll {
				c.RecvAll = append(c.RecvAll, d.buf[:n]...)
			}
			d.buf = d.buf[n:]
			if len(d.buf) == 0 {
				d.buf = nil
			}
			c.ReadN += n
			d.from.wspace.wakeAll()
			if d.prof.EOFData && len(d.buf) == 0 && d.finSent && len(d.flight) == 1 && d.flight[0].fin && !d.blocked && !d.dead {
				// the close notification is already here
				d.flight = nil
				d.finRecv = true
				Fault("eof-with-data")
				return n, io.EOF
			}
			if d.prof.EOFData && len(d.buf) == 0 && d.finRecv {
				Fault("eof-with-data")
				return n, io.EOF
			}
			return n, nil
		}
		if d.resetRecv {
			return 0, c.err("read", sysErr("read", syscall.ECONNRESET))
		}
		if d.finRecv {
			return 0, io.EOF
		}
		c.rq.wait("conn read")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if !on() {
		return 0, net.ErrClosed
	}
	yv()
	s := S
	if c.server {
		c.s.net.noteWrite(c)
	}
	for c.wlock {
		c.wq.wait("conn write lock")
	}
	c.wlock = true
	n, err := c.write(s, b)
	c.wlock = false
	c.wq.wakeOne()
	return n, err
}

func (n *netState) noteWrite(c *Conn) {}

func (c *Conn) write(s *Sim, b []byte) (int, error) {
	d := c.out
	n := 0
	for {
		if c.closed {
			return n, c.err("write", net.ErrClosed)
		}
		if c.wdl.past {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
		if d.epipe {
			return n, c.err("write", sysErr("write", syscall.EPIPE))
		}
		if d.finSent {
			return n, c.err("write", sysErr("write", syscall.EPIPE))
		}
		if n == len(b) {
			return n, nil
		}
		space := d.window() - d.flightN - len(d.buf)
		if space <= 0 {
			Fault("write-blocked")
			c.wspace.wait("conn write")
			continue
		}
		k := len(b) - n
		if k > space {
			k = space
		}
		k = d.segSize(k)
		data := append([]byte(nil), b[n:n+k]...)
		if c.keepAll || c.server {
			c.Written = append(c.Written, data...)
		}
		n += k
		d.push(segment{data: data})
	}
}

func (c *Conn) Close() error {
	if !on() {
		return net.ErrClosed
	}
	yv()
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	c.closeNow()
	return nil
}

func (c *Conn) closeNow() {
	if c.Closing != nil {
		c.Closing()
	}
	c.closed = true
	c.ClosedAt = NowD()
	c.CloseSeq = Seq()
	c.dlStop()
	if c.linger0 {
		c.out.flight, c.out.flightN = nil, 0
		c.out.push(segment{rst: true})
		c.in.buf = nil
	} else if len(c.in.buf) > 0 {
		// unread data: the peer gets a reset
		c.out.reset()
		Fault("close-with-unread-data")
		c.in.buf = nil
	} else if !c.out.finSent && !c.out.epipe {
		c.out.finSent = true
		c.out.push(segment{fin: true})
	}
	c.wake()
	c.Peer.wspace.wakeAll()
}

// Hello starts the TLS handshake of a mute client.
func (c *Conn) Hello() {
	if !c.closed && !c.Peer.helloIn {
		c.out.push(segment{hello: true})
	}
}

// CloseWrite sends a FIN and keeps reading.
func (c *Conn) CloseWrite() error {
	yv()
	if c.closed || c.out.finSent {
		return c.err("close", net.ErrClosed)
	}
	c.out.finSent = true
	c.out.push(segment{fin: true})
	return nil
}

// Reset closes the harness end abruptly with an RST.
func (c *Conn) Reset() {
	yv()
	if c.closed {
		return
	}
	Fault("reset")
	c.closed = true
	c.ClosedAt = NowD()
	c.dlStop()
	c.out.reset()
	c.in.purge()
	c.in.dead = false
	c.wake()
}

// Vanish makes the peer disappear silently: nothing is delivered in either direction any more.
func (c *Conn) Vanish() {
	Fault("vanish")
	for _, sg := range c.out.flight {
		// not before the handshake
		c.Peer.helloIn = c.Peer.helloIn || sg.hello
	}
	c.Peer.hq.wakeAll()
	c.out.dead = true
	c.in.dead = true
	c.closed = true
	c.wake()
}

// Partition holds all traffic until Heal.
func (c *Conn) Partition() {
	Fault("partition")
	c.out.blocked = true
	c.in.blocked = true
}
func (c *Conn) Heal() {
	Fault("heal")
	for _, d := range []*dir{c.out, c.in} {
		d.blocked = false
		d.schedule()
	}
}

func (c *Conn) IsClosed() bool       { return c.closed }
func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

// PeerClosed reports, for a harness connection, that the server end has been closed by the server.
func (c *Conn) PeerClosed() bool            { return c.Peer.closed }
func (c *Conn) PeerClosedAt() time.Duration { return c.Peer.ClosedAt }
func (c *Conn) Accepted() bool              { return c.Peer.accepted }
func (c *Conn) AcceptedAt() time.Duration   { return c.Peer.acceptAt }
func (c *Conn) AcceptSeq() int              { return c.Peer.acceptSeq }

// Idle reports that nothing the client sent is still on its way or unread.
func (c *Conn) UpIdle() bool { return len(c.out.flight) == 0 && len(c.out.buf) == 0 }

func (c *Conn) dlStop() {
	if c.rdl.ev != nil {
		c.rdl.ev.dead = true
	}
	if c.wdl.ev != nil {
		c.wdl.ev.dead = true
	}
}

func (c *Conn) setDL(d *deadline, q func(), t time.Time) {
	if d.ev != nil {
		d.ev.dead = true
		d.ev = nil
	}
	d.past = false
	d.set = !t.IsZero()
	if t.IsZero() {
		return
	}
	w := Until(t)
	d.at = NowD() + w
	if w <= 0 {
		d.past = true
		q()
		return
	}
	d.ev = S.After(w, func() { d.past = true; q() })
}

func (c *Conn) SetDeadline(t time.Time) error {
	if !on() {
		return nil
	}
	yv()
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	c.setDL(&c.rdl, c.wake, t)
	c.setDL(&c.wdl, c.wake, t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if !on() {
		return nil
	}
	yv()
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	c.setDL(&c.rdl, c.wake, t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if !on() {
		return nil
	}
	yv()
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	c.setDL(&c.wdl, c.wake, t)
	return nil
}

// ---- udp ------------------------------------------------------------------------------------------------------

type datagram struct {
	data []byte
	from net.Addr
}

type PacketConn struct {
	network string
	addr    net.Addr
	keys    []string
	queue   []datagram
	q       waitq
	closed  bool
	rdl     deadline
	wdl     deadline
	limit   int
	Sent    int
	Dropped int
	Out     []Out // everything written to the socket, for oracles
}

// Out is a datagram written by the code under test.
type Out struct {
	To   string
	Data []byte
}

// Delivery tells what became of a datagram.
type Delivery struct {
	Done bool // it reached an open socket
	At   time.Duration
}

func ListenPacket(network, addr string) (net.PacketConn, error) {
	if !on() {
		return nil, ErrUnsupported
	}
	yv()
	switch network {
	case "udp", "udp4", "udp6", "unixgram":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	n := S.net
	a, keys, err := n.bind(network, addr)
	if err != nil {
		return nil, err
	}
	p := &PacketConn{network: network, addr: a, keys: keys, limit: 200}
	for _, k := range keys {
		n.packets[k] = p
	}
	if fam(network) == "udp" {
		return &UDPConn{p}, nil
	}
	return p, nil
}

func (p *PacketConn) ReadFrom(b []byte) (int, net.Addr, error) {
	if !on() {
		return 0, nil, net.ErrClosed
	}
	yv()
	for {
		if p.closed {
			return 0, nil, opErr("read", p.network, nil, p.addr, net.ErrClosed)
		}
		if p.rdl.past {
			return 0, nil, opErr("read", p.network, nil, p.addr, os.ErrDeadlineExceeded)
		}
		if len(p.queue) > 0 {
			d := p.queue[0]
			p.queue = p.queue[1:]
			n := copy(b, d.data)
			return n, d.from, nil
		}
		p.q.wait("udp read")
	}
}

// UDPProfile describes the fate of datagrams.
type UDPProfile struct {
	LatMin, LatMax time.Duration
	Loss, Dup      float64
}

// UDPNet decides the fate of every datagram written by the code under test.
var UDPNet UDPProfile

func (p *PacketConn) WriteTo(b []byte, to net.Addr) (int, error) {
	if !on() {
		return 0, net.ErrClosed
	}
	yv()
	if p.closed {
		return 0, opErr("write", p.network, p.addr, to, net.ErrClosed)
	}
	if p.wdl.past {
		return 0, opErr("write", p.network, p.addr, to, os.ErrDeadlineExceeded)
	}
	if len(b) > 65507 {
		return 0, opErr("write", p.network, p.addr, to, sysErr("sendto", syscall.EMSGSIZE))
	}
	p.Sent++
	if to == nil {
		return 0, opErr("write", p.network, p.addr, nil, errors.New("missing address"))
	}
	p.Out = append(p.Out, Out{to.String(), append([]byte(nil), b...)})
	n := 1
	if UDPNet.Loss > 0 || UDPNet.Dup > 0 {
		r := auxr()
		if x := r.Float(); x < UDPNet.Loss {
			n = 0
			Fault("reply-datagram-lost")
		} else if x < UDPNet.Loss+UDPNet.Dup {
			n = 2
			Fault("reply-datagram-duplicated")
		}
	}
	for ; n > 0; n-- {
		d := UDPNet.LatMin
		if UDPNet.LatMax > UDPNet.LatMin {
			d += time.Duration(auxr().Uint64() % uint64(UDPNet.LatMax-UDPNet.LatMin))
		}
		SendDatagram(p.addr, to, b, d)
	}
	return len(b), nil
}

// SendDatagram puts a datagram on the network. It arrives after d if its destination exists then.
func SendDatagram(from, to net.Addr, b []byte, d time.Duration) *Delivery {
	data := append([]byte(nil), b...)
	s := S
	dv := &Delivery{}
	if to == nil {
		return dv
	}
	s.After(d, func() {
		q := s.net.packetAt("udp", to.String())
		if q == nil || q.closed {
			return
		}
		if len(q.queue) >= q.limit {
			q.Dropped++
			Fault("udp-queue-overflow")
			return
		}
		q.queue = append(q.queue, datagram{data, from})
		dv.Done, dv.At = true, NowD()
		q.q.wakeAll()
	})
	return dv
}

func (p *PacketConn) Close() error {
	if !on() {
		return nil
	}
	yv()
	if p.closed {
		return opErr("close", p.network, nil, p.addr, net.ErrClosed)
	}
	p.closed = true
	for _, k := range p.keys {
		if S.net.packets[k] == p {
			delete(S.net.packets, k)
		}
	}
	if p.rdl.ev != nil {
		p.rdl.ev.dead = true
	}
	p.q.wakeAll()
	return nil
}
func (p *PacketConn) IsClosed() bool      { return p.closed }
func (p *PacketConn) LocalAddr() net.Addr { return p.addr }
func (p *PacketConn) Pending() int        { return len(p.queue) }
func (p *PacketConn) setRDL(t time.Time) {
	if p.rdl.ev != nil {
		p.rdl.ev.dead = true
	}
	p.rdl.past = false
	if t.IsZero() {
		return
	}
	w := Until(t)
	if w <= 0 {
		p.rdl.past = true
		p.q.wakeAll()
		return
	}
	p.rdl.ev = S.After(w, func() { p.rdl.past = true; p.q.wakeAll() })
}
func (p *PacketConn) setWDL(t time.Time) {
	if p.wdl.ev != nil {
		p.wdl.ev.dead = true
	}
	p.wdl.past = false
	if t.IsZero() {
		return
	}
	w := Until(t)
	if w <= 0 {
		p.wdl.past = true
		return
	}
	p.wdl.ev = S.After(w, func() { p.wdl.past = true })
}
func (p *PacketConn) SetDeadline(t time.Time) error {
	if on() {
		p.setRDL(t)
		p.setWDL(t)
	}
	return nil
}
func (p *PacketConn) SetReadDeadline(t time.Time) error {
	if on() {
		p.setRDL(t)
	}
	return nil
}
func (p *PacketConn) SetWriteDeadline(t time.Time) error {
	if on() {
		p.setWDL(t)
	}
	return nil
}

// PacketAt returns the socket bound to a udp address.
func PacketAt(network, addr string) *PacketConn { return S.net.packetAt(network, addr) }

// ListenConfig stands in for net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}
func (lc *ListenConfig) ListenPacket(ctx context.Context, network, addr string) (net.PacketConn, error) {
	return ListenPacket(network, addr)
}
