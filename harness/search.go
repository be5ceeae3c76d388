package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

// Stats of a worker, added up by the master.
type Stats struct {
	Runs      int            `json:"runs"`
	Steps     int64          `json:"steps"`
	Decisions int64          `json:"decisions"`
	Switches  int64          `json:"switches"`
	SimNS     int64          `json:"sim_ns"`
	Spawned   int64          `json:"spawned"`
	Faults    map[string]int `json:"faults"`
	Cov       map[string]int `json:"cov"`
	Worlds    map[string]int `json:"worlds"`
	Modes     map[string]int `json:"modes"`
	Hashes    []uint64       `json:"hashes"`
	Redone    int            `json:"redone"`
	Nondet    int            `json:"nondet"`
	Other     map[string]int `json:"other"`
	Sample    []interface{}  `json:"sample"`
	Inner     []string       `json:"inner"`
	Viol      *Violation     `json:"viol"`
	ViolSeed  uint64         `json:"viol_seed"`
	Slow      time.Duration  `json:"slow"`
	SlowSeed  uint64         `json:"slow_seed"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Cov: map[string]int{}, Worlds: map[string]int{}, Modes: map[string]int{}, Other: map[string]int{}}
}

func propNum(p string) uint64 {
	var n uint64
	fmt.Sscanf(p, "C%d", &n)
	return n
}

func runSeed(prop string, seed int64, idx, i int) uint64 {
	return zsim.Hash64(uint64(seed), propNum(prop), uint64(idx), uint64(i)) >> 1
}

// worker runs seeds until its budget is used up or it finds a violation.
func worker(prop string, seed int64, idx int, budget time.Duration, file string) int {
	runtime.GOMAXPROCS(1)
	t0 := time.Now()
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	st := newStats()
	f, err := os.OpenFile(file+".cur", os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	seen := map[uint64]bool{}
	var cur [16]byte
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for i := 0; ; i++ {
		if i > 0 && time.Since(t0) > budget {
			break
		}
		rs := runSeed(prop, seed, idx, i)
		binary.LittleEndian.PutUint64(cur[:], rs)
		binary.LittleEndian.PutUint64(cur[8:], uint64(i+1))
		_, _ = f.WriteAt(cur[:], 0)
		p := genPlan(prop, rs)
		r0 := time.Now()
		o := execute(p, prop, runOpt{})
		metrics.Read(heap)
		if heap[0].Value.Uint64() > 800<<20 {
			runtime.GC() // the next run must not die of what this one left behind
		}
		if d := time.Since(r0); d > st.Slow {
			st.Slow, st.SlowSeed = d, rs
		}
		st.Runs++
		st.Steps += int64(o.Res.Steps)
		st.Decisions += int64(o.Res.Decisions)
		st.Switches += int64(o.Res.Switches)
		st.SimNS += int64(o.Res.SimTime)
		st.Spawned += int64(o.Res.Spawned)
		for k, v := range o.Res.Faults {
			st.Faults[k] += v
		}
		for k, v := range o.Cov {
			st.Cov[k] += v
		}
		st.Worlds[p.Kind]++
		st.Modes[p.Strat.Mode]++
		if o.Res.Switches >= 8 && len(o.Cov) > 0 {
			h := zsim.Hash64(p.hash(), o.Res.Hash)
			if !seen[h] {
				seen[h] = true
				st.Hashes = append(st.Hashes, h)
			}
		}
		if idx == 0 && len(st.Sample) < 3 && i%7 == 0 {
			st.Sample = append(st.Sample, map[string]interface{}{"run_seed": rs, "plan": p, "steps": o.Res.Steps, "decisions": o.Res.Decisions, "context_switches": o.Res.Switches, "simulated": o.Res.SimTime.String(), "schedule_hash": fmt.Sprintf("%x", o.Res.Hash), "covered": o.Cov})
		}
		if o.Inner != "" {
			if len(st.Inner) < 5 {
				st.Inner = append(st.Inner, fmt.Sprintf("seed %d: %s", rs, o.Inner))
			}
			if len(st.Inner) > 3 {
				break
			}
		}
		if i < 2 || i%200 == 0 {
			// one seed is one execution
			o2 := execute(genPlan(prop, rs), prop, runOpt{})
			st.Redone++
			if o2.Res.Hash != o.Res.Hash || o2.Res.Steps != o.Res.Steps {
				st.Nondet++
			}
		}
		for _, v := range o.Viol {
			if v.Prop != prop {
				st.Other[v.Prop+"/"+v.Kind]++
				if f := os.Getenv("OTHERS"); f != "" {
					if h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
						fmt.Fprintf(h, "%s %d %s/%s %s\n", prop, rs, v.Prop, v.Kind, v.Msg)
						h.Close()
					}
				}
			}
		}
		if v := o.has(prop, ""); v != nil && o.Inner == "" {
			st.Viol = v
			st.ViolSeed = rs
			break
		}
	}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(file, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

type workerRes struct {
	st   *Stats
	died bool
	hung bool
	seed uint64
	out  string
}

func runWorkers(prop string, seed int64, budget time.Duration, n int, dir string) []workerRes {
	self, _ := os.Executable()
	res := make([]workerRes, n)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			file := filepath.Join(dir, fmt.Sprintf("w%d", i))
			cmd := osexec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-idx", fmt.Sprint(i), "-budget", budget.String(), "-file", file)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOGC=200")
			var out strings.Builder
			cmd.Stderr = &out
			cmd.Stdout = &out
			if err := cmd.Start(); err != nil {
				res[i] = workerRes{died: true, out: err.Error()}
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var last uint64
			lastT := time.Now()
			cut := false
			for {
				select {
				case err := <-done:
					var st Stats
					b, e2 := os.ReadFile(file)
					if err == nil && e2 == nil && json.Unmarshal(b, &st) == nil {
						res[i].st = &st
						if st.Viol != nil {
							once.Do(func() { close(stop) })
						}
						return
					}
					if cut && !res[i].hung {
						return
					}
					res[i].died = !res[i].hung
					res[i].seed = curSeed(file)
					res[i].out = clip(out.String())
					once.Do(func() { close(stop) })
					return
				case <-stop:
					if !cut {
						cut = true
						// another worker found something; do not wait for this one
						_ = cmd.Process.Kill()
					}
					time.Sleep(20 * time.Millisecond)
				case <-time.After(2 * time.Second):
					c := curCount(file)
					if c != last {
						last, lastT = c, time.Now()
					} else if time.Since(lastT) > 90*time.Second {
						res[i].hung = true
						_ = cmd.Process.Kill()
					}
				}
			}
		}(i)
	}
	wg.Wait()
	return res
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:2500] + "\n...\n" + s[len(s)-1000:]
	}
	return s
}

func curSeed(file string) uint64 {
	b, err := os.ReadFile(file + ".cur")
	if err != nil || len(b) < 16 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}
func curCount(file string) uint64 {
	b, err := os.ReadFile(file + ".cur")
	if err != nil || len(b) < 16 {
		return 0
	}
	return binary.LittleEndian.Uint64(b[8:])
}

// Known is one line of the known-findings file: "known: property=<id> kind=<kind> match=<substring of the message>".
type Known struct{ prop, kind, match, text string }

func readKnown(file string) []Known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{text: l}
		l = strings.TrimPrefix(l, "known: ")
		for _, f := range strings.SplitN(l, " ", 3) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "kind="):
				k.kind = f[5:]
			case strings.HasPrefix(f, "match="):
				k.match = f[6:]
			}
		}
		out = append(out, k)
	}
	return out
}

func check(prop, tier string, seed int64, outDir, knownFile string, budget time.Duration, n int, t0ms int64) int {
	t0 := time.Now()
	if t0ms > 0 {
		t0 = time.UnixMilli(t0ms)
	}
	if len(gens[prop]) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", prop)
		return 2
	}
	dir, err := os.MkdirTemp("", "tcpxsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	ts := time.Now()
	res := runWorkers(prop, seed, budget, n, dir)
	// a worker that died of the sandbox (no memory, say), not of its run: search again with other seeds
	var death *ReplayFile
	for try := int64(1); try <= 2; try++ {
		odd := false
		for _, w := range res {
			if w.st != nil && w.st.Viol != nil {
				odd = false
				break
			}
			if w.died || w.hung {
				if w.seed != 0 {
					if death = confirmDeath(prop, w.seed, w.out, w.hung); death != nil {
						odd = false
						break
					}
				}
				fmt.Fprintf(os.Stderr, "note: a worker died and its run (%d) does not reproduce that: %.300s\n", w.seed, w.out)
				odd = true
			}
		}
		if !odd {
			break
		}
		res = runWorkers(prop, seed+1000003*try, budget, n, dir)
	}
	searchS := time.Since(ts).Seconds()
	tot := newStats()
	seen := map[uint64]bool{}
	var viol *Violation
	var vseed uint64
	dead := ""
	hang := false
	for _, w := range res {
		if w.st == nil {
			if w.died || w.hung {
				if vseed == 0 && w.seed != 0 && viol == nil {
					vseed = w.seed
					dead = w.out
					hang = w.hung
				}
			}
			continue
		}
		st := w.st
		tot.Runs += st.Runs
		tot.Steps += st.Steps
		tot.Decisions += st.Decisions
		tot.Switches += st.Switches
		tot.SimNS += st.SimNS
		tot.Spawned += st.Spawned
		tot.Redone += st.Redone
		tot.Nondet += st.Nondet
		if st.Slow > tot.Slow {
			tot.Slow, tot.SlowSeed = st.Slow, st.SlowSeed
		}
		for k, v := range st.Faults {
			tot.Faults[k] += v
		}
		for k, v := range st.Cov {
			tot.Cov[k] += v
		}
		for k, v := range st.Worlds {
			tot.Worlds[k] += v
		}
		for k, v := range st.Modes {
			tot.Modes[k] += v
		}
		for k, v := range st.Other {
			tot.Other[k] += v
		}
		for _, h := range st.Hashes {
			seen[h] = true
		}
		tot.Sample = append(tot.Sample, st.Sample...)
		tot.Inner = append(tot.Inner, st.Inner...)
		if st.Viol != nil && (viol == nil || dead != "") {
			viol, vseed, dead, hang = st.Viol, st.ViolSeed, "", false
		}
	}
	code := 0
	nviol := 0
	switch {
	case viol != nil:
		rf := minimise(prop, vseed, viol, 60*time.Second)
		if rf == nil {
			fmt.Printf("note: seed %d reported %s/%s once but does not reproduce; not counted\n", vseed, viol.Prop, viol.Kind)
			break
		}
		for _, k := range readKnown(knownFile) {
			if k.prop == prop && k.kind == rf.Kind && k.match != "" && strings.Contains(rf.Message, k.match) {
				fmt.Println("KNOWN-FINDING:", strings.TrimPrefix(k.text, "known: "))
				viol = nil
			}
		}
		if viol == nil {
			break
		}
		code, nviol = report(rf, prop, outDir)
	case vseed != 0:
		rf := death
		if rf == nil {
			rf = confirmDeath(prop, vseed, dead, hang)
		}
		if rf == nil {
			fmt.Fprintf(os.Stderr, "a worker died (%v) and its run does not reproduce that:\n%s\n", hang, dead)
			return 2
		}
		code, nviol = report(rf, prop, outDir)
	}
	if len(tot.Inner) > 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "errors of the machinery:", strings.Join(tot.Inner, "\n"))
		code = 2
	}
	if tot.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "no run completed")
		code = 2
	}
	writeEvidence(prop, tier, seed, outDir, tot, len(seen), searchS, time.Since(t0).Seconds(), nviol)
	fmt.Printf("%s %s: %d runs, %d distinct, %d steps, %.0f s simulated, %.1f s search, slowest run %.1f s (seed %d)\n", prop, tier, tot.Runs, len(seen), tot.Steps, float64(tot.SimNS)/1e9, searchS, tot.Slow.Seconds(), tot.SlowSeed)
	return code
}

func report(rf *ReplayFile, prop, outDir string) (int, int) {
	dir := filepath.Join(outDir, "replays")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, rf.Kind, rf.RunSeed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2, 0
	}
	self, _ := os.Executable()
	o, err := osexec.Command(self, "replay", path).CombinedOutput()
	first := strings.SplitN(string(o), "\n", 2)[0]
	fmt.Println(rf.Kind+":", rf.Message)
	fmt.Println("replay in a fresh process:", first, err)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1, 1
}

// confirmDeath decides whether a run that killed or hung its worker does so again.
func confirmDeath(prop string, seed uint64, out string, hang bool) *ReplayFile {
	self, _ := os.Executable()
	for k := 0; k < 2; k++ {
		cmd := osexec.Command(self, "one", "-prop", prop, "-run", fmt.Sprint(seed))
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
		done := make(chan error, 1)
		var sb strings.Builder
		cmd.Stdout, cmd.Stderr = &sb, &sb
		if cmd.Start() != nil {
			return nil
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err == nil || hang {
				return nil
			}
			if !strings.Contains(sb.String(), "fatal error") && !strings.Contains(sb.String(), "goroutine ") {
				return nil
			}
			out = clip(sb.String())
		case <-time.After(100 * time.Second):
			_ = cmd.Process.Kill()
			if !hang {
				return nil
			}
		}
	}
	kind := "fatal"
	msg := "the server process dies with an unrecoverable error: " + strings.SplitN(out, "\n", 3)[0]
	if hang {
		kind, msg = "hang", "the run does not end: some code loops without reaching a scheduling point"
	}
	return &ReplayFile{Property: prop, Kind: kind, Message: msg, RunSeed: seed, Plan: genPlan(prop, seed), ByStrat: true, Trace: strings.Split(out, "\n")}
}

var realCode = "all of package tcpx (every non-test file of /repo, rewritten so that goroutines, channels, locks, timers, sockets, signals and os.Exit go through the simulator), encoding/json, encoding/xml, toml, yaml, protobuf"
var stubCode = "simulated: goroutine scheduler, channels, select, sync, time, net (TCP/UDP/unix), os/signal, os.Exit; TLS listeners model the arrival of the handshake and mismatched plain/TLS peers, then carry plain bytes (no record layer or cryptography); log output is discarded"

func writeEvidence(prop, tier string, seed int64, outDir string, st *Stats, distinct int, searchS, wall float64, nviol int) {
	if searchS <= 0 {
		searchS = 0.001
	}
	samples := st.Sample
	if len(samples) == 0 {
		samples = []interface{}{map[string]interface{}{"run_seed": runSeed(prop, seed, 0, 0), "plan": genPlan(prop, runSeed(prop, seed, 0, 0))}}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations":           st.Runs,
			"distinct_nontrivial":   distinct,
			"rule":                  "one evaluation is one simulated run: a workload, configuration and fault plan generated from the run seed, executed under a seeded scheduler (modes: fifo, random walk, PCT priorities, stalled sites). Runs are distinct when the hash of plan and of the whole sequence of scheduling decisions differs, and non-trivial when at least 8 context switches happened and at least one oracle counter below was hit.",
			"samples":               samples,
			"runs_per_hour":         int(float64(st.Runs) / searchS * 3600),
			"steps":                 st.Steps,
			"scheduling_decisions":  st.Decisions,
			"context_switches":      st.Switches,
			"goroutines":            st.Spawned,
			"simulated_seconds":     float64(st.SimNS) / 1e9,
			"faults_injected":       st.Faults,
			"oracle_counters":       st.Cov,
			"worlds":                st.Worlds,
			"scheduler_modes":       st.Modes,
			"seeds_rerun":           st.Redone,
			"seeds_not_repeatable":  st.Nondet,
			"observed_for_others":   st.Other,
			"components_real":       realCode,
			"components_simulated":  stubCode,
			"instrumented_sites":    zsim.NumSites(),
			"distinct_measure_note": "distinct interleavings are counted over the decision sequence, not estimated",
		},
		"assumptions": []string{
			"the rewriter preserves the behaviour of the code (selftest/torture.sh checks this on a separate corpus)",
			"computation takes no simulated time; delays come from timers, the network and explicit sleeps",
			"TLS is modelled as a handshake message followed by its byte stream",
		},
	}
	_ = os.MkdirAll(outDir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(outDir, prop+".json"), b, 0644)
}

// ---- minimisation ------------------------------------------------------------------------------------------------

func minimise(prop string, seed uint64, v *Violation, budget time.Duration) *ReplayFile {
	end := time.Now().Add(budget)
	p := genPlan(prop, seed)
	o := execute(p, prop, runOpt{})
	w := o.has(prop, v.Kind)
	for k := 0; w == nil && k < 5; k++ {
		o = execute(genPlan(prop, seed), prop, runOpt{})
		w = o.has(prop, v.Kind)
	}
	if w == nil {
		return nil
	}
	kind := w.Kind
	best := p
	try := func(q *Plan) bool {
		for k := 0; k < 4; k++ {
			r := q.clone()
			if k > 0 {
				r.Strat.SchedSeed = zsim.Hash64(r.Strat.SchedSeed, uint64(k)) >> 1
			}
			o := execute(r.clone(), prop, runOpt{})
			if o.Inner == "" && o.has(prop, kind) != nil {
				best = r
				return true
			}
			if time.Now().After(end) {
				return false
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for _, q := range shrinks(best) {
			if time.Now().After(end) {
				break
			}
			if try(q) {
				changed = true
				break
			}
		}
	}
	// the schedule: keep only the deviations from the default order that matter
	o = execute(best.clone(), prop, runOpt{})
	if o.has(prop, kind) == nil {
		return nil
	}
	devs := zsim.SortedDevs(o.Res.Devs)
	fails := func(d [][2]int) bool {
		m := map[int]int{}
		for _, x := range d {
			m[x[0]] = x[1]
		}
		o := execute(best.clone(), prop, runOpt{devs: m})
		return o.Inner == "" && o.has(prop, kind) != nil
	}
	rf := &ReplayFile{Property: prop, Kind: kind, RunSeed: seed, Plan: best}
	if !fails(devs) {
		// the strategy itself is the schedule
		rf.ByStrat = true
	} else {
		end2 := time.Now().Add(30 * time.Second)
		for n := 2; len(devs) > 0 && time.Now().Before(end2); {
			if fails(nil) {
				devs = nil
				break
			}
			sz := (len(devs) + n - 1) / n
			hit := false
			for i := 0; i < len(devs) && time.Now().Before(end2); i += sz {
				j := i + sz
				if j > len(devs) {
					j = len(devs)
				}
				c := append(append([][2]int{}, devs[:i]...), devs[j:]...)
				if fails(c) {
					devs = c
					hit = true
					if n > 2 {
						n--
					}
					break
				}
			}
			if !hit {
				if sz <= 1 {
					break
				}
				n *= 2
				if n > len(devs) {
					n = len(devs)
				}
			}
		}
		rf.Devs = devs
	}
	fin := rf.run(true)
	x := fin.has(prop, kind)
	if x == nil {
		return nil
	}
	rf.Message = x.Msg
	rf.Steps = fin.Res.Steps
	rf.Hash = fmt.Sprintf("%x", fin.Res.Hash)
	rf.Faults = fin.Res.Faults
	rf.Trace = fin.Log
	if len(fin.Res.Trace) < 400 {
		rf.Trace = append(rf.Trace, fin.Res.Trace...)
	} else {
		rf.Trace = append(rf.Trace, fin.Res.Trace[:200]...)
		rf.Trace = append(rf.Trace, "...")
		rf.Trace = append(rf.Trace, fin.Res.Trace[len(fin.Res.Trace)-200:]...)
	}
	return rf
}

// shrinks lists simpler variants of a plan, big steps first.
func shrinks(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan) bool) {
		q := p.clone()
		if f(q) {
			out = append(out, q)
		}
	}
	for i := range p.Conns {
		i := i
		add(func(q *Plan) bool {
			q.Conns = append(q.Conns[:i], q.Conns[i+1:]...)
			for _, c := range q.Conns {
				for k := range c.Ops {
					for j := range c.Ops[k].R {
						c.Ops[k].R[j].To = 0
					}
				}
			}
			return true
		})
	}
	for i := range p.Conns {
		i := i
		n := len(p.Conns[i].Ops)
		if n > 3 {
			add(func(q *Plan) bool { q.Conns[i].Ops = q.Conns[i].Ops[n/2:]; return true })
			add(func(q *Plan) bool { q.Conns[i].Ops = q.Conns[i].Ops[:n/2]; return true })
		}
		for k := 0; k < n; k++ {
			k := k
			add(func(q *Plan) bool {
				q.Conns[i].Ops = append(q.Conns[i].Ops[:k], q.Conns[i].Ops[k+1:]...)
				return true
			})
		}
	}
	for k := range p.Admin {
		k := k
		add(func(q *Plan) bool { q.Admin = append(q.Admin[:k], q.Admin[k+1:]...); return true })
	}
	for k := range p.Reg {
		k := k
		if p.Kind != "traffic" {
			break
		}
		add(func(q *Plan) bool { q.Reg = append(q.Reg[:k], q.Reg[k+1:]...); return true })
	}
	for i := range p.Conns {
		i := i
		add(func(q *Plan) bool {
			ch := q.Conns[i].Up != zsim.NetProfile{}
			q.Conns[i].Up = zsim.NetProfile{}
			return ch
		})
		add(func(q *Plan) bool {
			ch := q.Conns[i].Down != zsim.NetProfile{}
			q.Conns[i].Down = zsim.NetProfile{}
			return ch
		})
		add(func(q *Plan) bool { ch := q.Conns[i].Start != 0; q.Conns[i].Start = 0; return ch })
		add(func(q *Plan) bool { ch := len(q.Conns[i].CR) > 0; q.Conns[i].CR = nil; return ch })
		add(func(q *Plan) bool { ch := len(q.Conns[i].XR) > 0; q.Conns[i].XR = nil; return ch })
		for k := range p.Conns[i].Ops {
			k := k
			for j := range p.Conns[i].Ops[k].B {
				j := j
				add(func(q *Plan) bool {
					o := &q.Conns[i].Ops[k]
					if len(o.B) < 2 {
						return false
					}
					o.B = append(o.B[:j], o.B[j+1:]...)
					return true
				})
			}
			add(func(q *Plan) bool { o := &q.Conns[i].Ops[k]; ch := len(o.R) > 0; o.R = nil; return ch })
			add(func(q *Plan) bool { o := &q.Conns[i].Ops[k]; ch := len(o.Sl) > 0; o.Sl = nil; return ch })
			add(func(q *Plan) bool { o := &q.Conns[i].Ops[k]; ch := o.N > 4 && p.Kind == "traffic"; o.N = 4; return ch })
			add(func(q *Plan) bool { o := &q.Conns[i].Ops[k]; ch := o.H > 0; o.H = 0; return ch })
			add(func(q *Plan) bool { o := &q.Conns[i].Ops[k]; ch := o.CS > 0; o.CS = 0; return ch })
			for j := range p.Conns[i].Ops[k].R {
				j := j
				add(func(q *Plan) bool {
					o := &q.Conns[i].Ops[k]
					if len(o.R) < 2 {
						return false
					}
					o.R = append(o.R[:j], o.R[j+1:]...)
					return true
				})
			}
		}
	}
	for _, f := range []func(c *Cfg) bool{
		func(c *Cfg) bool { ch := c.TLS; c.TLS = false; return ch },
		func(c *Cfg) bool { ch := c.Net != "tcp" && c.Net != ""; c.Net = "tcp"; return ch },
		func(c *Cfg) bool { ch := c.Sig; c.Sig = false; return ch },
		func(c *Cfg) bool { ch := c.Pool; c.Pool = false; return ch },
		func(c *Cfg) bool { ch := c.HB > 0; c.HB = 0; return ch },
		func(c *Cfg) bool { ch := c.Auth > 0; c.Auth = 0; return ch },
		func(c *Cfg) bool { ch := c.MaxByte > 0; c.MaxByte = 0; return ch },
		func(c *Cfg) bool { ch := c.Direct; c.Direct = false; return ch },
		func(c *Cfg) bool { ch := c.Marsh != ""; c.Marsh = ""; return ch },
		func(c *Cfg) bool { ch := c.NoOnConn || c.NoOnClose; c.NoOnConn, c.NoOnClose = false, false; return ch },
	} {
		f := f
		if p.Kind != "traffic" {
			break
		}
		add(func(q *Plan) bool { return f(&q.Cfg) })
	}
	return out
}

var _ = sort.Strings
