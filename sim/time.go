package zsim

import (
	"context"
	"errors"
	"io"
	"os"
	"runtime"
	"time"
)

func panicGoexit() { runtime.Goexit() }

// ---- time -----------------------------------------------------------------------------------------------------

func Now() time.Time {
	if S == nil {
		return Epoch
	}
	return Epoch.Add(time.Duration(S.now))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !on() {
		return
	}
	s := S
	s.chkKill()
	if d <= 0 {
		yv()
		return
	}
	g := s.cur
	s.After(d, func() { s.makeReady(g) })
	s.block("sleep")
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	e    *event
	fn   func()
	site int
}

func (t *Timer) arm(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	t.e = s.After(d, func() {
		if t.fn != nil {
			f := t.fn
			g := s.newG("", t.site)
			s.start(g, f)
			return
		}
		h := hc(chptr(t.c), 1, t.c)
		if h.canSend() {
			h.send(s, Now())
		}
	})
}
func NewTimer(d time.Duration) *Timer {
	if on() {
		yv()
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	site := 1
	if on() {
		yv()
		site = S.cur.atSite
		if site == 0 {
			site = 1
		}
	}
	t := &Timer{fn: f, site: site}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	if !on() {
		return false
	}
	yv()
	was := t.e != nil && !t.e.dead
	if t.e != nil {
		t.e.dead = true
	}
	if t.c != nil {
		h := hc(chptr(t.c), 1, t.c)
		if len(h.buf) > 0 {
			h.buf = nil
			was = true
		}
	}
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C       <-chan time.Time
	c       chan time.Time
	d       time.Duration
	e       *event
	stopped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	s := S
	if s == nil {
		return
	}
	t.e = s.After(t.d, func() {
		if t.stopped {
			return
		}
		h := hc(chptr(t.c), 1, t.c)
		if h.canSend() {
			h.send(s, Now())
		}
		t.arm()
	})
}
func (t *Ticker) Stop() {
	if on() {
		yv()
	}
	t.stopped = true
	if t.e != nil {
		t.e.dead = true
	}
}
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.stopped = false
	t.d = d
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// ---- context --------------------------------------------------------------------------------------------------

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*simCtx
	fn       func() // of AfterFunc
	site     int
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Value(k any) any {
	if k == (simCtxKey{}) {
		return c
	}
	return c.parent.Value(k)
}

type simCtxKey struct{}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	if S != nil {
		closeChan(hc(chptr(c.done), 0, c.done))
	} else {
		close(c.done)
	}
	for _, k := range c.kids {
		k.cancel(err, c.cause)
	}
	if c.fn != nil && S != nil {
		f := c.fn
		c.fn = nil
		S.start(S.newG("", c.site), f)
	}
}
func newCtx(parent context.Context) *simCtx {
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(simCtxKey{}).(*simCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if on() {
			yv()
		}
		c.cancel(context.Canceled, nil)
	}
}
func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if on() {
			yv()
		}
		c.cancel(context.Canceled, cause)
	}
}
func CtxWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); !ok || t.Before(d) {
		c.deadline, c.hasDL = t, true
		if S != nil {
			S.After(Until(t), func() { c.cancel(context.DeadlineExceeded, nil) })
		}
	}
	return c, func() {
		if on() {
			yv()
		}
		c.cancel(context.Canceled, nil)
	}
}
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, Now().Add(d))
}
func CtxWithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); !ok || t.Before(d) {
		c.deadline, c.hasDL = t, true
		if S != nil {
			S.After(Until(t), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() {
		if on() {
			yv()
		}
		c.cancel(context.Canceled, nil)
	}
}
func CtxWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, Now().Add(d), cause)
}

// CtxAfterFunc stands in for context.AfterFunc.
func CtxAfterFunc(parent context.Context, f func()) func() bool {
	c := &simCtx{parent: parent, done: make(chan struct{}), fn: f, site: 1}
	if on() {
		yv()
		if S.cur.atSite > 0 {
			c.site = S.cur.atSite
		}
	}
	if p, ok := parent.Value(simCtxKey{}).(*simCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return func() bool {
		if on() {
			yv()
		}
		if c.fn == nil {
			return false
		}
		c.fn = nil
		c.cancel(context.Canceled, nil)
		return true
	}
}

type detached struct{ context.Context }

func (detached) Deadline() (t time.Time, ok bool) { return }
func (detached) Done() <-chan struct{}            { return nil }
func (detached) Err() error                       { return nil }
func (d detached) Value(k any) any {
	if k == (simCtxKey{}) {
		return nil
	}
	return d.Context.Value(k)
}

// CtxWithoutCancel stands in for context.WithoutCancel.
func CtxWithoutCancel(parent context.Context) context.Context { return detached{parent} }

func CtxCause(c context.Context) error {
	if p, ok := c.Value(simCtxKey{}).(*simCtx); ok {
		return p.cause
	}
	return context.Cause(c)
}

// ---- signals --------------------------------------------------------------------------------------------------

type sigState struct {
	subs    []*sigSub
	ignored map[os.Signal]bool
}
type sigSub struct {
	ch   chan<- os.Signal
	sigs map[os.Signal]bool // nil: all
}

func SignalNotify(ch chan<- os.Signal, sigs ...os.Signal) {
	if ch == nil {
		panic("os/signal: Notify using nil channel")
	}
	if !on() {
		return
	}
	yv()
	sub := &sigSub{ch: ch}
	if len(sigs) > 0 {
		sub.sigs = map[os.Signal]bool{}
		for _, x := range sigs {
			sub.sigs[x] = true
		}
	}
	S.sig.subs = append(S.sig.subs, sub)
}
func SignalStop(ch chan<- os.Signal) {
	if !on() {
		return
	}
	yv()
	var keep []*sigSub
	for _, x := range S.sig.subs {
		if x.ch != ch {
			keep = append(keep, x)
		}
	}
	S.sig.subs = keep
}
func SignalIgnore(sigs ...os.Signal) {
	if !on() {
		return
	}
	if S.sig.ignored == nil {
		S.sig.ignored = map[os.Signal]bool{}
	}
	for _, x := range sigs {
		S.sig.ignored[x] = true
	}
}
func SignalReset(sigs ...os.Signal) {
	if !on() {
		return
	}
	yv()
	if len(sigs) == 0 {
		S.sig.subs = nil
		return
	}
	for _, sub := range S.sig.subs {
		for _, x := range sigs {
			if sub.sigs != nil {
				delete(sub.sigs, x)
			}
		}
	}
}
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	Go(1, func() {
		sel := NewSel()
		SelRecv(sel, ch)
		SelRecv(sel, c.Done())
		sel.Do(false)
		c.cancel(context.Canceled, nil)
	})
	return c, func() { c.cancel(context.Canceled, nil); SignalStop(ch) }
}

// Kill delivers a signal to the simulated process. Without a subscriber the default action ends the process.
func Kill(sig os.Signal) (delivered bool) {
	s := S
	n := 0
	for _, sub := range s.sig.subs {
		if sub.sigs == nil || sub.sigs[sig] {
			n++
			h := hc(chptr(sub.ch), cap(sub.ch), sub.ch)
			if !h.closed && h.canSend() {
				h.send(s, sig)
			}
		}
	}
	if n == 0 && !s.sig.ignored[sig] {
		s.res.Exited = true
		s.res.ExitCode = -1
		for _, f := range s.endHooks {
			f()
		}
		if s.cur != nil && s.cur.state == gRunning {
			s.stop()
		}
		s.ended = true
		return false
	}
	return true
}

// Subscribed reports whether some channel is subscribed to sig.
func Subscribed(sig os.Signal) bool {
	for _, sub := range S.sig.subs {
		if sub.sigs == nil || sub.sigs[sig] {
			return true
		}
	}
	return false
}

var ErrUnsupported = errors.New("sim: not supported in simulation")

// Stdout stands in for os.Stdout and os.Stderr.
type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

var Discard io.Writer = discard{}
