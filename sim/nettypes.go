package zsim

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"
)

// The types of package net and crypto/tls that code may assert connections and listeners to.

// TCPConn stands in for net.TCPConn.
type TCPConn struct{ *Conn }

// UnixConn stands in for net.UnixConn.
type UnixConn struct{ *Conn }

// SimID identifies the connection a server-side value belongs to.
func (c *Conn) SimID() int     { return c.ID }
func (c *Conn) simConn() *Conn { return c }

func (c *Conn) wrap() net.Conn {
	if fam(c.network) == "tcp" {
		return &TCPConn{c}
	}
	return &UnixConn{c}
}

func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }
func (c *Conn) File() (*os.File, error)                { return nil, ErrUnsupported }
func (c *Conn) SyscallConn() (syscall.RawConn, error)  { return nil, ErrUnsupported }
func (c *TCPConn) MultipathTCP() (bool, error)         { return false, nil }

// SetLinger: with 0, Close discards what has not been delivered and resets the connection.
func (c *TCPConn) SetLinger(sec int) error {
	c.linger0 = sec == 0
	return nil
}

// CloseRead: what still arrives is thrown away.
func (c *Conn) CloseRead() error {
	yv()
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	c.in.buf = nil
	c.in.finRecv = true
	c.wake()
	return nil
}

type writerOnly struct{ io.Writer }

// ReadFrom implements io.ReaderFrom.
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) { return io.Copy(writerOnly{c.Conn}, r) }

// TCPListener stands in for net.TCPListener.
type TCPListener struct{ *Listener }

// AcceptTCP accepts the next connection.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

// UnixListener stands in for net.UnixListener.
type UnixListener struct{ *Listener }

// AcceptUnix accepts the next connection.
func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &UnixConn{c}, nil
}

// SetUnlinkOnClose does nothing here.
func (l *UnixListener) SetUnlinkOnClose(bool) {}

// File is not there.
func (l *Listener) File() (*os.File, error) { return nil, ErrUnsupported }

// ListenTCP stands in for net.ListenTCP.
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ListenUnix stands in for net.ListenUnix.
func ListenUnix(network string, a *net.UnixAddr) (*UnixListener, error) {
	l, err := Listen(network, a.Name)
	if err != nil {
		return nil, err
	}
	return l.(*UnixListener), nil
}

// UDPConn stands in for net.UDPConn.
type UDPConn struct{ *PacketConn }

// ReadFromUDP reads a datagram.
func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, a, err := c.ReadFrom(b)
	u, _ := a.(*net.UDPAddr)
	return n, u, err
}

// WriteToUDP sends a datagram.
func (c *UDPConn) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) { return c.WriteTo(b, a) }

// ReadFromUDPAddrPort reads a datagram.
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, u, err := c.ReadFromUDP(b)
	if u == nil {
		return n, netip.AddrPort{}, err
	}
	return n, u.AddrPort(), err
}

// WriteToUDPAddrPort sends a datagram.
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteTo(b, net.UDPAddrFromAddrPort(a))
}

// ReadMsgUDP reads a datagram; there is no out-of-band data.
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}

// WriteMsgUDP sends a datagram; there is no out-of-band data.
func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	n, err = c.WriteTo(b, addr)
	return
}
func (c *UDPConn) SetReadBuffer(int) error  { return nil }
func (c *UDPConn) SetWriteBuffer(int) error { return nil }

// ListenUDP stands in for net.ListenUDP.
func ListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	p, err := ListenPacket(network, a.String())
	if err != nil {
		return nil, err
	}
	return p.(*UDPConn), nil
}

// Buffers stands in for net.Buffers: on a TCP or unix connection all of it is one write.
type Buffers [][]byte

// WriteTo implements io.WriterTo.
func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	switch w.(type) {
	case *TCPConn, *UnixConn, *Conn:
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		k, err := w.Write(all)
		v.consume(int64(k))
		return int64(k), err
	}
	for _, b := range *v {
		k, err := w.Write(b)
		n += int64(k)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

// Read implements io.Reader.
func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		k := copy(p, (*v)[0])
		v.consume(int64(k))
		p = p[k:]
		n += k
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		ln0 := int64(len((*v)[0]))
		if ln0 > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= ln0
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}

// ---- TLS ------------------------------------------------------------------------------------------------------

// TLSConn stands in for tls.Conn. There is no cryptography; what is kept is that nothing passes before the client's
// part of the handshake has arrived, that a plain client is not understood, and that a timed out write is final.
type TLSConn struct {
	net.Conn
	base *Conn
}

func baseOf(c net.Conn) *Conn {
	if x, ok := c.(interface{ simConn() *Conn }); ok {
		return x.simConn()
	}
	// a wrapper: find the connection by its address value
	if S != nil && S.net != nil {
		for _, x := range S.net.conns {
			if x.Peer.raddr == c.RemoteAddr() {
				return x.Peer
			}
		}
	}
	return nil
}

// TLSServer stands in for tls.Server.
func TLSServer(c net.Conn, cfg *tls.Config) *TLSConn {
	t := &TLSConn{Conn: c, base: baseOf(c)}
	if t.base != nil {
		t.base.tls = true
	}
	return t
}

func (t *TLSConn) simConn() *Conn { return t.base }

// SimID identifies the connection.
func (t *TLSConn) SimID() int {
	if t.base == nil {
		return -1
	}
	return t.base.ID
}

// NetConn is the connection below.
func (t *TLSConn) NetConn() net.Conn { return t.Conn }

// Handshake waits for the client's part.
func (t *TLSConn) Handshake() error { return t.handshake(true, true, nil) }

// HandshakeContext waits for the client's part.
func (t *TLSConn) HandshakeContext(ctx context.Context) error { return t.handshake(true, true, ctx) }

// ConnectionState says whether the handshake is over.
func (t *TLSConn) ConnectionState() tls.ConnectionState {
	return tls.ConnectionState{HandshakeComplete: t.base == nil || t.base.helloIn}
}

// CloseWrite ends this side of the conversation.
func (t *TLSConn) CloseWrite() error {
	if t.base == nil {
		return ErrUnsupported
	}
	return t.base.CloseWrite()
}

func (t *TLSConn) handshake(rd, wr bool, ctx context.Context) error {
	c := t.base
	if c == nil || !on() {
		return nil
	}
	yv()
	if ctx != nil && ctx.Done() != nil {
		if dl, ok := ctx.Deadline(); ok {
			S.After(Until(dl), c.hq.wakeAll)
		}
	}
	for !c.helloIn {
		switch {
		case c.closed:
			return c.err("read", net.ErrClosed)
		case c.rdl.past, wr && c.wdl.past:
			return c.err("read", os.ErrDeadlineExceeded)
		case len(c.in.buf) > 0:
			return errors.New("tls: first record does not look like a TLS handshake")
		case c.in.resetRecv:
			return c.err("read", sysErr("read", syscall.ECONNRESET))
		case c.in.finRecv:
			return io.EOF
		case ctx != nil && ctx.Err() != nil:
			return ctx.Err()
		}
		c.hq.wait("tls handshake")
	}
	return nil
}

func (t *TLSConn) Read(b []byte) (int, error) {
	if err := t.handshake(true, false, nil); err != nil {
		return 0, err
	}
	if len(b) > 16384 {
		b = b[:16384]
	}
	return t.Conn.Read(b)
}

func (t *TLSConn) Write(b []byte) (int, error) {
	if err := t.handshake(false, true, nil); err != nil {
		return 0, err
	}
	c := t.base
	if c != nil && c.corrupt != nil {
		return 0, c.corrupt
	}
	n, err := t.Conn.Write(b)
	if err != nil && c != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			c.corrupt = err
		}
	}
	return n, err
}

type tlsListener struct {
	net.Listener
	cfg *tls.Config
}

func (l *tlsListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return TLSServer(c, l.cfg), nil
}

// TLSNewListener stands in for tls.NewListener.
func TLSNewListener(inner net.Listener, cfg *tls.Config) net.Listener {
	return &tlsListener{inner, cfg}
}

// TLSListen stands in for tls.Listen.
func TLSListen(network, addr string, cfg *tls.Config) (net.Listener, error) {
	if cfg == nil || len(cfg.Certificates) == 0 && cfg.GetCertificate == nil && cfg.GetConfigForClient == nil {
		return nil, fmt.Errorf("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := Listen(network, addr)
	if err != nil {
		return nil, err
	}
	return TLSNewListener(l, cfg), nil
}
