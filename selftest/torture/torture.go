// Package tcpx (torture) exercises every construct the rewriter touches. Its output must be the same natively and
// instrumented.
package tcpx

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	pkgCounter int
	pkgMap     = map[string]int{"a": 1, "b": 2}
	pkgInit    = initValue()
	zeroVar    struct{ n int }
	x1, x2     = two()
)

func two() (int, string) { return 7, "seven" }

func initValue() int { return len(pkgMap) * 10 }

func init() { pkgCounter = 5 }

type T struct {
	sync.Mutex
	rw   sync.RWMutex
	n    int
	m    map[string]int
	ch   chan int
	once sync.Once
	f    func(int) int
	arr  [4]int
	p    *T
}

type lockable interface {
	Lock()
	Unlock()
}

func (t *T) inc()         { t.Lock(); defer t.Unlock(); t.n++ }
func (t *T) add(a, b int) { t.Lock(); t.n += a * b; t.Unlock() }
func variadic(xs ...int) int {
	s := 0
	for _, x := range xs {
		s += x
	}
	return s
}

type key struct{ a, b int }

func gen[K comparable, V any](m map[K]V) int {
	n := 0
	for range m {
		n++
	}
	return n
}

func Torture() (out []string) {
	var mu sync.Mutex
	log := func(f string, a ...interface{}) { mu.Lock(); out = append(out, fmt.Sprintf(f, a...)); mu.Unlock() }
	// package state
	log("pkg %d %d %d %d %s", pkgCounter, pkgInit, zeroVar.n, x1, x2)
	pkgCounter++
	zeroVar.n += 3
	pkgMap["z"]++
	pkgMap["a"] += 4
	log("pkg %d %d %v", pkgCounter, zeroVar.n, pkgMap)
	// go forms
	t := &T{m: map[string]int{}, ch: make(chan int, 2), f: func(i int) int { return i * 2 }}
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(2)
		go func() { defer wg.Done(); t.inc() }()
		go func(i int, s ...string) { defer wg.Done(); t.add(i, len(s)) }(i, "a", "b")
	}
	wg.Wait()
	log("n=%d", t.n)
	go t.inc()
	go t.add(2, 3)
	f := t.inc
	go f()
	go variadic([]int{1, 2}...)
	go fmt.Sprint("x")
	done := make(chan struct{})
	go close(done)
	<-done
	for {
		t.Lock()
		n := t.n
		t.Unlock()
		if n == 5+20+1+6+1 {
			break
		}
		runtime.Gosched()
	}
	log("n=%d", t.n)
	// evaluation time of go arguments
	v := 1
	res := make(chan int, 3)
	go func(x int) { res <- x }(v)
	v = 2
	log("arg %d", <-res)
	// loop variables (go 1.12 semantics are per loop)
	var fs []func() int
	for i, s := range []string{"a", "b"} {
		fs = append(fs, func() int { return i*10 + len(s) })
	}
	for k := range map[string]int{"only": 1} {
		fs = append(fs, func() int { return len(k) })
	}
	for _, f := range fs {
		log("closure %d", f())
	}
	// select forms
	c1, c2 := make(chan int, 1), make(chan string)
	var nilc chan int
	select {
	case x := <-c1:
		log("unexpected %d", x)
	case c2 <- "x":
		log("unexpected send")
	case <-nilc:
		log("nil")
	default:
		log("default")
	}
	c1 <- 4
	select {
	case x, ok := <-c1:
		log("got %d %v", x, ok)
	case c2 <- "x":
	}
	go func() { c2 <- "from" }()
	var s string
	var ok bool
	arr := map[int]string{}
	select {
	case s, ok = <-c2:
		log("%s %v", s, ok)
	}
	go func() { c2 <- "idx" }()
	select {
	case arr[3] = <-c2:
	}
	log("%v", arr)
	close(c2)
	s, ok = <-c2
	log("closed %q %v", s, ok)
	var y, ok2 = <-c2
	log("closed %q %v", y, ok2)
	_, _ = <-c2
	if z, ok := <-c2; !ok {
		log("if %q", z)
	}
L:
	for i := 0; ; i++ {
		select {
		case <-c2:
			if i == 3 {
				break L
			}
			continue L
		}
	}
S:
	select {
	case <-c2:
		for {
			break S
		}
	}
	// timers in select
	start := time.Now()
	select {
	case <-time.After(30 * time.Millisecond):
		log("timeout")
	case <-nilc:
	}
	log("elapsed %v", time.Since(start) >= 30*time.Millisecond && time.Since(start) < 2*time.Second)
	// ranges
	rc := make(chan int, 3)
	go func() {
		for i := 0; i < 4; i++ {
			rc <- i
		}
		close(rc)
	}()
	sum := 0
	for v := range rc {
		if v == 2 {
			continue
		}
		sum += v
	}
	log("sum %d", sum)
	rc2 := make(chan int, 3)
	rc2 <- 1
	rc2 <- 2
	close(rc2)
	cnt := 0
	for range rc2 {
		cnt++
	}
	log("cnt %d len %d cap %d", cnt, len(rc), cap(rc))
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	var ks []string
M:
	for k, v := range m {
		switch k {
		case "b":
			continue M
		}
		ks = append(ks, fmt.Sprint(k, v))
		delete(m, k)
	}
	sort.Strings(ks)
	log("%v %d", ks, len(m))
	for k := range m {
		m[k]++
	}
	for range m {
		sum++
	}
	var kk string
	var vv int
	for kk, vv = range m {
	}
	log("%s %d %d", kk, vv, sum)
	for _, v := range m {
		log("v %d", v)
	}
	mk := map[key][]int{{1, 2}: {1}, {3, 4}: {2}}
	mk[key{5, 6}] = append(mk[key{5, 6}], 9)
	tot := 0
	for k, v := range mk {
		tot += k.a*k.b + v[0]
	}
	log("tot %d %d", tot, gen(mk))
	mp := map[*T]int{t: 1}
	mp[&T{}] = 2
	log("%d", len(mp))
	if _, ok := m["nope"]; !ok {
		log("absent")
	}
	// nested maps, struct in maps, func values in maps
	mm := map[string]map[string]int{"x": {"y": 1}}
	mm["x"]["y"]++
	mf := map[string]func(int) int{"d": func(i int) int { return i + 1 }}
	log("%d %d", mm["x"]["y"], mf["d"](4))
	// once, cond, rw, pool, map
	for i := 0; i < 3; i++ {
		t.once.Do(func() { log("once") })
	}
	var lk lockable = t
	lk.Lock()
	lk.Unlock()
	cd := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; mu.Unlock(); cd.Broadcast() }()
	mu.Lock()
	for !ready {
		cd.Wait()
	}
	mu.Unlock()
	t.rw.RLock()
	t.rw.RUnlock()
	var sm sync.Map
	sm.Store("k", 1)
	a, loaded := sm.LoadOrStore("k", 2)
	log("%v %v", a, loaded)
	sm.Range(func(k, v interface{}) bool { log("%v=%v", k, v); return true })
	pl := sync.Pool{New: func() interface{} { return new(T) }}
	pl.Put(pl.Get().(*T))
	// assignments
	t.n, t.arr[1] = t.arr[1], t.n
	t.p = &T{n: 3}
	t.p.n *= 4
	t.p.n++
	*(&t.p.n) -= 2
	t.p.p = t
	log("%d %d %d", t.n, t.arr[1], t.p.n)
	for t.n = 0; t.n < 3; t.n++ {
	}
	for i, j := 0, 10; i < j; i, j = i+1, j-1 {
		sum += i
	}
	log("%d %d", t.n, sum)
	if t.n = 9; t.n > 3 {
		log("init")
	} else if q := t.n; q > 0 {
		log("else")
	}
	switch t.n++; {
	case t.n > 5:
		log("sw")
		fallthrough
	case false:
		log("ft")
	default:
		log("no")
	}
	switch z := interface{}(t).(type) {
	case *T:
		log("type %d", z.n)
	}
	// atomics
	var cnt32 int32
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); atomic.AddInt32(&cnt32, 1) }()
	}
	wg.Wait()
	log("%d", atomic.LoadInt32(&cnt32))
	// panics
	func() {
		defer func() { log("rec %v", recover()) }()
		close(done)
	}()
	func() {
		defer func() { log("rec %v", recover()) }()
		var np *T
		np.n = 1
	}()
	func() {
		defer func() {
			e := recover()
			log("rec %v", strings.Contains(fmt.Sprint(e), "closed channel"))
		}()
		done <- struct{}{}
	}()
	// deferred builtins
	func() {
		dch := make(chan int)
		dm := map[string]int{"a": 1, "b": 2}
		dn := make(chan struct{})
		go func() {
			defer close(dn)
			defer close(dch)
			defer delete(dm, "a")
			dch <- 7
		}()
		log("%d", <-dch)
		_, ok := <-dch
		<-dn
		log("%v %d", ok, len(dm))
		gch := make(chan int)
		go close(gch)
		<-gch
	}()
	// named result and defer
	log("%d", func() (r int) { defer func() { r++ }(); return 4 }())
	// goto and labels
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	log("goto %d", i)
	// timers, tickers, contexts
	tm := time.NewTimer(time.Hour)
	log("stop %v", tm.Stop())
	tk := time.NewTicker(5 * time.Millisecond)
	<-tk.C
	<-tk.C
	tk.Stop()
	fired := make(chan int)
	time.AfterFunc(time.Millisecond, func() { fired <- 1 })
	log("fired %d", <-fired)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
	<-ctx.Done()
	log("%v", errors.Is(ctx.Err(), context.DeadlineExceeded))
	cancel()
	ctx, cancel = context.WithCancel(context.Background())
	after := make(chan string, 3)
	context.AfterFunc(ctx, func() { after <- "after" })
	drop := context.AfterFunc(context.WithValue(ctx, 1, 2), func() { after <- "never" })
	log("dropped %v %v", drop(), drop())
	det := context.WithoutCancel(ctx)
	go cancel()
	<-ctx.Done()
	log("%s %v %v", <-after, det.Err(), len(after))
	done2 := context.AfterFunc(ctx, func() { after <- "late" })
	log("%s %v", <-after, done2())
	ctx, cancel = context.WithTimeoutCause(context.Background(), time.Millisecond, errors.New("why"))
	<-ctx.Done()
	log("%v %v", ctx.Err(), context.Cause(ctx))
	cancel()
	ov := sync.OnceValues(func() (int, error) { return 4, errors.New("e") })
	ov()
	v4, e4 := ov()
	log("%d %v", v4, e4)
	sc := make(chan os.Signal, 1)
	signal.Notify(sc, syscall.SIGUSR2)
	signal.Stop(sc)
	// struct literals with sync types, embedded and keyed
	type inner struct {
		sync.Mutex
		*sync.RWMutex
		a int
	}
	in := inner{RWMutex: &sync.RWMutex{}, a: 2}
	in.Mutex.Lock()
	in.Mutex.Unlock()
	log("%d", in.a)
	// function types and method values, closures called at once, immediately deferred
	defer func(s string) { out = append(out, s) }("deferred")
	func(n int) { log("iife %d", n) }(<-func() chan int { c := make(chan int, 1); c <- 8; return c }())
	gotos(log)
	// labelled block and empty loop body
	for j := 0; j < 2; j++ {
	}
	{
		log("end")
	}
	return
}

func gotos(log func(string, ...interface{})) {
	a, b := make(chan int, 3), make(chan int, 3)
	a <- 1
	b <- 2
	var ta, tb <-chan int = a, b
	n := 0
again:
	select {
	case v := <-ta:
		n += v
		ta = nil
		goto again
	case v := <-tb:
		n += 10 * v
		tb = nil
		goto again
	default:
	}
	log("goto %d", n)
	m := map[int]int{1: 1, 2: 2, 3: 3}
	k := 0
M:
	for i := range m {
		delete(m, i)
		k++
		if len(m) > 1 {
			goto M
		}
		break M
	}
	log("goto %d %d", len(m), k)
	if n > 0 {
		goto end
	}
	log("never")
end:
	log("end of gotos")
}

func Forever() {
	select {}
}
func term(c chan int) int {
	select {
	case v := <-c:
		return v
	default:
		return 3
	}
}
func term2(m map[int]int) int {
	for {
		if len(m) == 0 {
			return term(nil)
		}
		clearAll(m)
	}
}
func clearAll(m map[int]int) {
	for k := range m {
		delete(m, k)
	}
}
