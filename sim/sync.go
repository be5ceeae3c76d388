package zsim

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

// ---- channels -------------------------------------------------------------------------------------------------
//
// A native channel is only the identity of a simulated one; its buffer and wait queues live in hchan.

type hchan struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g     *G
	val   any
	ok    bool
	fired *bool
	idx   int
	won   *int
}

func chptr[T any](ch T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func hc(p uintptr, capacity int, keep any) *hchan {
	s := S
	h := s.chans[p]
	if h == nil {
		h = &hchan{cap: capacity}
		s.chans[p] = h
		s.keep = append(s.keep, keep) // the address must not be reused within the run
	}
	return h
}

func (h *hchan) popRecv() *waiter {
	for len(h.recvq) > 0 {
		w := h.recvq[0]
		h.recvq = h.recvq[1:]
		if !*w.fired {
			return w
		}
	}
	return nil
}
func (h *hchan) popSend() *waiter {
	for len(h.sendq) > 0 {
		w := h.sendq[0]
		h.sendq = h.sendq[1:]
		if !*w.fired {
			return w
		}
	}
	return nil
}
func (h *hchan) hasRecv() bool {
	for len(h.recvq) > 0 && *h.recvq[0].fired {
		h.recvq = h.recvq[1:]
	}
	return len(h.recvq) > 0
}
func (h *hchan) hasSend() bool {
	for len(h.sendq) > 0 && *h.sendq[0].fired {
		h.sendq = h.sendq[1:]
	}
	return len(h.sendq) > 0
}
func (h *hchan) canSend() bool { return h.closed || len(h.buf) < h.cap || h.hasRecv() }
func (h *hchan) canRecv() bool { return h.closed || len(h.buf) > 0 || h.hasSend() }

func (w *waiter) fire(s *Sim) {
	*w.fired = true
	if w.won != nil {
		*w.won = w.idx
	}
	s.makeReady(w.g)
}

// send performs a send that canSend.
func (h *hchan) send(s *Sim, v any) {
	if h.closed {
		panic(plainError("send on closed channel"))
	}
	if w := h.popRecv(); w != nil {
		w.val, w.ok = v, true
		w.fire(s)
		return
	}
	h.buf = append(h.buf, v)
}

// recv performs a receive that canRecv.
func (h *hchan) recv(s *Sim) (any, bool) {
	if len(h.buf) > 0 {
		v := h.buf[0]
		h.buf = h.buf[1:]
		if w := h.popSend(); w != nil {
			h.buf = append(h.buf, w.val)
			w.ok = true
			w.fire(s)
		}
		return v, true
	}
	if w := h.popSend(); w != nil {
		w.ok = true
		w.fire(s)
		return w.val, true
	}
	return nil, false // closed
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// SendTo(ch).Do(v) is ch <- v.
type SendOp[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) SendOp[T] { return SendOp[T]{ch} }
func (o SendOp[T]) Do(v T) {
	if !on() {
		select {
		case o.ch <- v:
		default:
			panic("sim: blocking send outside a run")
		}
		return
	}
	yv()
	s := S
	if o.ch == nil {
		s.block("send on nil channel")
		return
	}
	h := hc(chptr(o.ch), cap(o.ch), o.ch)
	if h.canSend() {
		h.send(s, v)
		return
	}
	fired := false
	w := &waiter{g: s.cur, val: v, fired: &fired}
	h.sendq = append(h.sendq, w)
	s.block("channel send")
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
}

func recvAny[T any](ch <-chan T) (T, bool) {
	var zero T
	if !on() {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			panic("sim: blocking receive outside a run")
		}
	}
	yv()
	s := S
	if ch == nil {
		s.block("receive from nil channel")
		return zero, false
	}
	h := hc(chptr(ch), cap(ch), ch)
	if h.canRecv() {
		v, ok := h.recv(s)
		t, _ := v.(T)
		return t, ok
	}
	fired := false
	w := &waiter{g: s.cur, fired: &fired}
	h.recvq = append(h.recvq, w)
	s.block("channel receive")
	t, _ := w.val.(T)
	return t, w.ok
}

func Recv[T any](ch <-chan T) T          { v, _ := recvAny(ch); return v }
func Recv2[T any](ch <-chan T) (T, bool) { return recvAny(ch) }

func Close[T any](ch chan<- T) {
	if !on() {
		close(ch)
		return
	}
	yv()
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	closeChan(hc(chptr(ch), cap(ch), ch))
}

func closeChan(h *hchan) {
	s := S
	if h.closed {
		panic(plainError("close of closed channel"))
	}
	h.closed = true
	for w := h.popRecv(); w != nil; w = h.popRecv() {
		w.val, w.ok = nil, false
		w.fire(s)
	}
	for w := h.popSend(); w != nil; w = h.popSend() {
		w.ok = false
		w.fire(s)
	}
}

func ChanLen[T any](ch <-chan T) int {
	if !on() {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	return len(hc(chptr(ch), cap(ch), ch).buf)
}

// Sel is a select statement in progress.
type Sel struct {
	cases []selCase
}
type selCase struct {
	h    *hchan
	send bool
	val  any
	w    *waiter
	done func(v any, ok bool)
}

func NewSel() *Sel { return &Sel{} }

type RecvCase[T any] struct {
	V  T
	OK bool
}

func SelRecv[T any](sel *Sel, ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	c := selCase{done: func(v any, ok bool) { r.V, _ = v.(T); r.OK = ok }}
	if ch != nil && on() {
		c.h = hc(chptr(ch), cap(ch), ch)
	}
	sel.cases = append(sel.cases, c)
	return r
}

type SendCase[T any] struct {
	sel *Sel
	ch  chan<- T
}

func SelSend[T any](sel *Sel, ch chan<- T) SendCase[T] { return SendCase[T]{sel, ch} }
func (c SendCase[T]) With(v T) {
	sc := selCase{send: true, val: v}
	if c.ch != nil && on() {
		sc.h = hc(chptr(c.ch), cap(c.ch), c.ch)
	}
	c.sel.cases = append(c.sel.cases, sc)
}

// Do runs the select and returns the index of the chosen case, -1 for default.
func (sel *Sel) Do(hasDefault bool) int {
	if !on() {
		if hasDefault {
			return -1
		}
		panic("sim: select outside a run")
	}
	yv()
	s := S
	var ready []int
	for i, c := range sel.cases {
		if c.h == nil {
			continue
		}
		if c.send && c.h.canSend() || !c.send && c.h.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.chooseN(len(ready))]
		c := sel.cases[i]
		if c.send {
			c.h.send(s, c.val)
		} else {
			c.done(c.h.recv(s))
		}
		return i
	}
	if hasDefault {
		return -1
	}
	fired := false
	won := -1
	n := 0
	for i := range sel.cases {
		c := &sel.cases[i]
		if c.h == nil {
			continue
		}
		n++
		c.w = &waiter{g: s.cur, val: c.val, fired: &fired, idx: i, won: &won}
		if c.send {
			c.h.sendq = append(c.h.sendq, c.w)
		} else {
			c.h.recvq = append(c.h.recvq, c.w)
		}
	}
	if n == 0 {
		s.block("select with only nil channels")
	}
	s.block("select")
	c := sel.cases[won]
	if c.send {
		if !c.w.ok {
			panic(plainError("send on closed channel"))
		}
	} else {
		c.done(c.w.val, c.w.ok)
	}
	return won
}

// ---- sync -----------------------------------------------------------------------------------------------------

type waitq struct{ q []*G }

func (w *waitq) wait(why string) {
	w.q = append(w.q, S.cur)
	S.block(why)
}
func (w *waitq) wakeOne() bool {
	for len(w.q) > 0 {
		g := w.q[0]
		w.q = w.q[1:]
		if g.state == gBlocked {
			S.makeReady(g)
			return true
		}
	}
	return false
}
func (w *waitq) wakeAll() {
	for w.wakeOne() {
	}
}

type Mutex struct {
	locked bool
	q      waitq
}

func (m *Mutex) Lock() {
	if !on() {
		return
	}
	yv()
	for m.locked {
		m.q.wait("mutex")
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if !on() {
		return true
	}
	yv()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !on() {
		return
	}
	S.chkKill()
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wakeOne()
	yv()
}

type RWMutex struct {
	w     bool
	r     int
	wwait int
	q     waitq
}

func (m *RWMutex) Lock() {
	if !on() {
		return
	}
	yv()
	if m.w || m.r > 0 {
		m.wwait++
		for m.w || m.r > 0 {
			m.q.wait("rwmutex (write)")
		}
		m.wwait--
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if !on() {
		return true
	}
	yv()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !on() {
		return
	}
	S.chkKill()
	if !m.w {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wakeAll()
	yv()
}
func (m *RWMutex) RLock() {
	if !on() {
		return
	}
	yv()
	for m.w || m.wwait > 0 {
		m.q.wait("rwmutex (read)")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if !on() {
		return true
	}
	yv()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if !on() {
		return
	}
	S.chkKill()
	if m.r <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.q.wakeAll()
	}
	yv()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()                 { l.m.RLock() }
func (l rlocker) Unlock()               { l.m.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	q waitq
}

func (w *WaitGroup) Add(d int) {
	if on() {
		yv()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && on() {
		w.q.wakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !on() {
		return
	}
	yv()
	for w.n > 0 {
		w.q.wait("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	site := 1
	if on() {
		site = S.cur.atSite
	}
	Go(site, func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if on() {
		yv()
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var q U
	return func() (T, U) { o.Do(func() { r, q = f() }); return r, q }
}

type Cond struct {
	L sync.Locker
	q waitq
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	S.chkKill()
	c.q.q = append(c.q.q, S.cur)
	g := S.cur
	c.L.Unlock()
	for _, w := range c.q.q {
		if w == g {
			S.block("cond")
			break
		}
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	yv()
	for len(c.q.q) > 0 {
		g := c.q.q[0]
		c.q.q = c.q.q[1:]
		S.makeReady(g)
		return
	}
}
func (c *Cond) Broadcast() {
	yv()
	q := c.q.q
	c.q.q = nil
	for _, g := range q {
		S.makeReady(g)
	}
}

// Map is sync.Map with a deterministic Range.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) y() {
	if on() {
		yv()
	}
}
func (m *Map) Load(k any) (any, bool) {
	m.y()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) { m.y(); m.store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.y()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.y()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Delete(k any) { m.y(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.y()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.y()
	if o, ok := m.m[k]; ok && o == old {
		m.store(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.y()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.y(); m.m = nil; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.y()
	for _, k := range append([]any{}, m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.y()
	}
}

// Pool is sync.Pool; objects may be dropped at any time.
type Pool struct {
	New func() any
	xs  []any
}

func (p *Pool) Get() any {
	if on() {
		yv()
	}
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if on() {
		yv()
		if S.aux.P(0.1) {
			return
		}
	}
	p.xs = append(p.xs, x)
}

func Gosched() {
	if on() {
		yv()
	}
}
func Goexit() {
	// only the simulated goroutine ends
	panicGoexit()
}

// ---- maps -----------------------------------------------------------------------------------------------------

func mapAccess(p uintptr, write bool) {
	s := S
	if s.killing {
		yv()
	}
	g := s.cur
	g.pending, g.pendW = p, write
	yv()
	g.pending = 0
	if p == 0 {
		return
	}
	// another goroutine is about to access the same map, and nothing orders the two accesses
	for _, it := range s.ready {
		o := it.g
		if o != nil && o.pending == p && (write || o.pendW) {
			k := "concurrent map read and map write"
			if write && o.pendW {
				k = "concurrent map writes"
			}
			Fatal(fmt.Sprintf("%s at %s and %s", k, SiteName(g.atSite), SiteName(o.atSite)))
		}
	}
}

func mptr[M any](m M) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m))) }

// MapR and MapW mark a map about to be read or written.
func MapR[M any](m M) M {
	if on() {
		mapAccess(mptr(m), false)
	}
	return m
}
func MapW[M any](m M) M {
	if on() {
		mapAccess(mptr(m), true)
	}
	return m
}

// Key registers a map key that has no natural order, so that iteration can follow the order of first use.
func Key[K any](k K) K {
	if on() {
		if _, ok := S.keyOrder[k]; !ok {
			S.keyOrder[k] = len(S.keyOrder) + 1
		}
	}
	return k
}

// MapKeys returns the keys in the order a range statement visits them: arbitrary, but a function of the seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
	if on() {
		MapR(m)
		for i := len(ks) - 1; i > 0; i-- {
			j := S.aux.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func keyLess(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case reflect.Float32, reflect.Float64:
			return va.Float() < vb.Float()
		case reflect.Bool:
			return !va.Bool() && vb.Bool()
		}
	}
	if S != nil {
		return S.keyOrder[a] < S.keyOrder[b]
	}
	return false
}
