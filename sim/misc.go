package zsim

import (
	"context"
	"fmt"
	"net"
	"time"
)

var resets []func()

// RegisterReset adds a function that re-initialises the package variables of an instrumented package.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll brings all instrumented packages back to their initial state.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }
func ZeroChan[T any](ch <-chan T) (v T)                      { return }

func Print(a ...any) (int, error)            { return fmt.Fprint(Discard, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Discard, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Discard, f, a...) }
func LogFatal(a ...any)                      { Exit(1) }
func LogFatalf(f string, a ...any)           { Exit(1) }
func LogFatalln(a ...any)                    { Exit(1) }

func auxr() *Rand {
	if S != nil {
		return S.aux
	}
	return NewRand(1)
}
func RandInt() int             { return int(auxr().Uint64() >> 1) }
func RandIntn(n int) int       { return auxr().Intn(n) }
func RandInt31() int32         { return int32(auxr().Uint64() >> 33) }
func RandInt31n(n int32) int32 { return int32(auxr().Intn(int(n))) }
func RandInt63() int64         { return int64(auxr().Uint64() >> 1) }
func RandInt63n(n int64) int64 { return int64(auxr().Uint64()>>1) % n }
func RandUint32() uint32       { return uint32(auxr().Uint64()) }
func RandUint64() uint64       { return auxr().Uint64() }
func RandFloat64() float64     { return auxr().Float() }
func RandSeed(int64)           {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	r := auxr()
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func NumGoroutine() int {
	if S == nil {
		return 1
	}
	return S.live
}

// Dialer stands in for net.Dialer.
type Dialer struct {
	Timeout, KeepAlive time.Duration
	Deadline           time.Time
	LocalAddr          net.Addr
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return Dial(network, addr)
}

// Pipe stands in for net.Pipe.
func Pipe() (net.Conn, net.Conn) {
	a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	c, s := newConnPair(S, "pipe", a, a, NetProfile{}, NetProfile{}, uint64(S.net.nconn))
	return c, s
}
