package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"github.com/fwhezfwhez/tcpx/zsim"
)

// The reader world: the package's frame readers, used by clients, work on readers of every kind the io.Reader contract
// allows - short reads, reads of nothing, the last bytes together with the error - on several streams at once.
func init() {
	worlds["reader"] = func(r *Run) { r.readers() }
	gens["C01"] = append(gens["C01"], wgen{1, genReader})
	gens["C07"] = append(gens["C07"], wgen{1, genReader})
	gens["C06"] = append(gens["C06"], wgen{1, genReader})
}

var errBroken = errors.New("read sim: broken")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "read sim: i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// script is an io.Reader.
type script struct {
	data   []byte
	off    int
	rng    *zsim.Rand
	seg    int
	zero   float64 // reads of nothing
	with   bool    // the end comes with the last bytes
	end    error
	breaks map[int]error // errors in the middle, once each
	yield  float64
	nread  int
}

func (s *script) Read(b []byte) (int, error) {
	s.nread++
	if s.yield > 0 && s.rng.P(s.yield) {
		zsim.Yield()
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.zero > 0 && s.rng.P(s.zero) {
		return 0, nil
	}
	if e, ok := s.breaks[s.off]; ok {
		delete(s.breaks, s.off)
		return 0, e
	}
	if s.off == len(s.data) {
		return 0, s.end
	}
	n := len(b)
	if s.seg > 0 {
		if k := 1 + s.rng.Intn(s.seg); k < n {
			n = k
		}
	}
	if n > len(s.data)-s.off {
		n = len(s.data) - s.off
	}
	for k := range s.breaks {
		if k > s.off && k-s.off < n {
			n = k - s.off
		}
	}
	copy(b, s.data[s.off:s.off+n])
	s.off += n
	if s.off == len(s.data) && s.with {
		return n, s.end
	}
	return n, nil
}

func (r *Run) readers() {
	done := 0
	e := newEnv(r)
	e.chain.cfg = &r.plan.Cfg
	for i := range r.plan.Conns {
		i := i
		zsim.GoNamed(fmt.Sprint("client ", i), func() {
			defer func() { done++ }()
			e.readOne(i, r.plan.Conns[i])
		})
	}
	if !zsim.WaitUntil(time.Minute, func() bool { return done == len(r.plan.Conns) }) {
		r.failP([]string{"C01"}, "stuck", "a frame reader does not return")
	}
}

func (e *Env) readOne(i int, pl *CPlan) {
	r := e.r
	cn := &conn{i: i, pl: pl, batches: map[int][]*sent{}}
	s := &script{rng: zsim.NewRand(zsim.Hash64(r.plan.Seed, 77, uint64(i))), end: io.EOF, breaks: map[int]error{}}
	lim := int(r.plan.Cfg.MaxByte)
	var fs []frame
	brk := false
	var evil []byte
	for k := range pl.Ops {
		op := &pl.Ops[k]
		switch op.K {
		case "broken":
			s.end = errBroken
		case "timeout":
			brk = true
		case "bytes": // garbage, the last of the stream
			evil, _ = hex.DecodeString(op.Hex)
		default:
			m := e.messages(cn, op, -1, 0)
			if brk && len(m.raw) > 1 {
				s.breaks[len(s.data)+1+int(zsim.Hash64(uint64(op.T))%uint64(len(m.raw)-1))] = timeoutErr{}
				brk = false
			}
			s.data = append(s.data, m.raw...)
			fs = append(fs, parseFrame(m.raw))
		}
	}
	whole := len(s.data)
	if pl.Start > 0 && len(fs) > 0 { // cut inside the last message
		last := len(fs[len(fs)-1].raw)
		whole -= last
		s.data = s.data[:whole+pl.Start%last]
		fs = fs[:len(fs)-1]
		r.cov("reader-cut")
	}
	if lim == 0 || !strings.HasSuffix(pl.Read, "limit") {
		evil = tame(nil, evil)
	}
	s.data = append(s.data, evil...)
	s.seg = pl.Up.MaxSeg
	s.with = pl.Up.EOFData
	if pl.Up.ReadFrag {
		s.zero = 0.3
	}
	s.yield = 0.3
	limited := pl.Read == "limit" || pl.Read == "plimit"
	P := []string{"C01"}
	if limited && lim > 0 {
		P = []string{"C07", "C01"}
	}
	var kept [][2][]byte
	at, pos := 0, 0
	for {
		var raw, body []byte
		var id int32
		var hdr map[string]interface{}
		var err error
		nb := len(s.breaks)
		switch pl.Read {
		case "block":
			raw, err = tcpx.FirstBlockOf(s)
		case "pblock":
			raw, err = tcpx.PackJSON.FirstBlockOf(s)
		case "toblock":
			raw, err = tcpx.UnpackToBlockFromReader(s)
		case "limit":
			raw, err = tcpx.FirstBlockOfLimitMaxByte(s, int32(lim))
		case "plimit":
			raw, err = tcpx.PackXML.FirstBlockOfLimitMaxByte(s, int32(lim))
		default:
			id, hdr, body, err = tcpx.UnPackFromReader(s)
		}
		r.cov("reader-" + pl.Read)
		if err != nil {
			switch {
			case len(s.breaks) < nb: // the call met the failing read
				r.cov("reader-failed")
			case at < len(fs) && limited && lim > 0 && len(fs[at].raw)-4 > lim:
				r.cov("reader-beyond")
				if s.off > pos+16 {
					r.failP([]string{"C07"}, "reader-consumed", "reading a message of %d bytes with a limit of %d took %d bytes from the stream", len(fs[at].raw)-4, lim, s.off-pos)
				}
			case at < len(fs):
				r.failP(P, "reader-lost", "reader %s of stream %d ends with %v before message %d of %d, although it had arrived", pl.Read, i, err, at, len(fs))
			}
			break
		}
		if at >= len(fs) && evil != nil {
			g, _ := parseStream(evil)
			switch {
			case len(g) == 0 || int32(binary.BigEndian.Uint32(evil)) < 0:
				r.failP([]string{"C06", "C01"}, "reader-garbage", "reader %s made a message of bytes that are none: %s", pl.Read, short(evil))
			case pl.Read != "unpack" && !bytes.Equal(raw, g[0].raw):
				r.failP([]string{"C06", "C01"}, "reader-garbage", "reader %s returned %s for %s", pl.Read, short(raw), short(evil))
			case pl.Read == "unpack" && (len(g[0].raw) < 16 || uint64(g[0].hl)+uint64(g[0].bl)+16 > uint64(len(g[0].raw))):
				r.failP([]string{"C06", "C01"}, "reader-garbage", "a block with impossible inner lengths was unpacked without an error: %s", short(evil))
			}
			r.cov("reader-garbage")
			break
		}
		if at >= len(fs) {
			r.failP(P, "reader-phantom", "reader %s of stream %d returned a message that was never sent completely: %s", pl.Read, i, short(raw))
			break
		}
		f := fs[at]
		if len(s.breaks) < nb {
			r.failP(P, "reader-error", "reader %s of stream %d met an error in the middle of message %d and did not report it", pl.Read, i, at)
			break
		}
		if limited && lim > 0 && len(f.raw)-4 > lim {
			r.failP([]string{"C07", "C01"}, "reader-beyond", "reader %s returned a message of %d bytes, the limit is %d", pl.Read, len(f.raw)-4, lim)
		}
		if pl.Read == "unpack" {
			if id != f.id || !bytes.Equal(body, f.body) || canonHdr(hdrJSON(hdr)) != canonHdr(f.header) {
				r.failP(P, "reader-altered", "reader returned id %d, header %v, body %s for %s", id, hdr, short(body), short(f.raw))
				break
			}
			kept = append(kept, [2][]byte{body, f.body})
		} else {
			if !bytes.Equal(raw, f.raw) {
				r.failP(P, "reader-altered", "reader %s returned %s for %s", pl.Read, short(raw), short(f.raw))
				break
			}
			kept = append(kept, [2][]byte{raw, f.raw})
		}
		at++
		pos += len(f.raw)
		if s.off != pos {
			r.failP(P, "reader-consumed", "reader %s has taken %d bytes from stream %d when message %d ends at %d", pl.Read, s.off, i, at, pos)
			break
		}
		zsim.Yield()
	}
	for k, x := range kept {
		if !bytes.Equal(x[0], x[1]) {
			r.failP(P, "reader-changed", "message %d that reader %s of stream %d had returned changed afterwards", k, pl.Read, i)
		}
	}
}

func genReader(g *Gen) *Plan {
	p := &Plan{Kind: "reader"}
	c := &p.Cfg
	c.Marsh = g.pickS(marshNames...)
	lim := g.prop == "C07" || g.P(0.2)
	if lim {
		c.MaxByte = int32(g.pickI(0, 12, 40, 500, 5000, 1<<20))
	}
	for i := g.Range(1, 3); i > 0; i-- {
		cp := &CPlan{Up: g.profile(), Read: g.pickS("block", "pblock", "toblock", "unpack", "unpack", "limit", "plimit")}
		if g.prop == "C07" {
			cp.Read = g.pickS("limit", "plimit")
		}
		cp.Up.MaxSeg = g.pickI(0, 0, 1, 3, 5, 100, 1000)
		vol := 0
		for k := g.Range(0, 6); k > 0; k-- {
			m := g.message(p, []int32{g.id(), g.id()}, []string{"/a", "/b"}, []string{"x"}, tweak{url: 0.2}, 1)
			if m.K == "wjson" {
				m.K = "raw"
			}
			if g.P(0.03) {
				m.H = g.pickI(9, 20, 1000, 66000)
			}
			if x := int(c.MaxByte); x > 0 && x < 6000 && g.P(0.5) {
				m.K, m.H, m.N, m.M, m.URL = "fit", 0, x+g.pickI(-1, 0, 0, 1, 30), "", ""
			}
			if g.P(0.06) {
				cp.Ops = append(cp.Ops, Op{K: "timeout"})
			}
			vol += m.N + m.H
			cp.Ops = append(cp.Ops, m)
		}
		if g.P(0.3) {
			cp.Ops = append(cp.Ops, Op{K: "broken"})
		}
		if g.P(0.3) {
			cp.Start = g.Range(1, 100000)
		}
		if ev := 0.2; g.prop == "C06" || g.P(ev) {
			cp.Ops = append(cp.Ops, Op{K: "bytes", Hex: hex.EncodeToString(g.evil(nil))})
			cp.Start = 0
		}
		if vol > 2000 && cp.Up.MaxSeg > 0 && cp.Up.MaxSeg < 100 {
			cp.Up.MaxSeg = 1 + vol/300
		}
		p.Conns = append(p.Conns, cp)
	}
	return p
}
