package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx/zsim"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check|worker|one|replay ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "", "evidence directory")
	known := fs.String("known", "", "known findings")
	budget := fs.Duration("budget", 45*time.Second, "time budget")
	nworkers := fs.Int("workers", 8, "workers")
	idx := fs.Int("idx", 0, "worker index")
	file := fs.String("file", "", "progress file")
	rs := fs.Uint64("run", 0, "run seed")
	verb := fs.Bool("v", false, "verbose")
	wall0 := fs.Int64("t0", 0, "start of the check, unix ms")
	_ = fs.Parse(os.Args[2:])
	if cmd != "check" {
		// a server that wants absurd amounts of memory dies here as it would elsewhere, without taking the machine along
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *out, *known, *budget, *nworkers, *wall0))
	case "worker":
		os.Exit(worker(*prop, *seed, *idx, *budget, *file))
	case "one":
		os.Exit(one(*prop, *rs, *verb))
	case "replay":
		if fs.NArg() < 1 {
			usage()
		}
		os.Exit(replay(fs.Arg(0), *verb))
	default:
		usage()
	}
}

// one runs a single seed.
func one(prop string, seed uint64, verb bool) int {
	p := genPlan(prop, seed)
	if verb {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	o := execute(p, prop, runOpt{trace: verb})
	if verb {
		for _, l := range o.Log {
			fmt.Println(l)
		}
		fmt.Printf("%+v\n", o.Cov)
	}
	fmt.Printf("steps %d decisions %d switches %d simtime %v hash %x faults %v inner %q\n", o.Res.Steps, o.Res.Decisions, o.Res.Switches, o.Res.SimTime, o.Res.Hash, o.Res.Faults, o.Inner)
	for _, v := range o.Viol {
		fmt.Println("VIOL", v.Prop, v.Kind, v.Msg)
	}
	if o.has(prop, "") != nil {
		return 1
	}
	if o.Inner != "" {
		return 2
	}
	return 0
}

// ReplayFile is a minimised failing run.
type ReplayFile struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	RunSeed  uint64   `json:"run_seed"`
	Plan     *Plan    `json:"plan"`
	Devs     [][2]int `json:"schedule_deviations"` // decision number, chosen alternative; every other decision takes the default
	ByStrat  bool     `json:"by_strategy,omitempty"`
	Hash     string   `json:"hash"`
	Steps    int      `json:"steps"`
	Trace    []string `json:"trace,omitempty"`
	Faults   any      `json:"faults,omitempty"`
}

func (f *ReplayFile) run(trace bool) *Outcome {
	o := runOpt{trace: trace}
	if !f.ByStrat {
		o.devs = map[int]int{}
		for _, d := range f.Devs {
			o.devs[d[0]] = d[1]
		}
	}
	return execute(f.Plan, f.Property, o)
}

func replay(file string, verb bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := f.run(verb)
	if verb {
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	v := o.has(f.Property, f.Kind)
	h := fmt.Sprintf("%x", o.Res.Hash)
	if v == nil {
		fmt.Println("NOT REPRODUCED", o.Inner)
		return 0
	}
	fmt.Printf("REPRODUCED property=%s kind=%s hash=%s same=%v\n%s\n", v.Prop, v.Kind, h, h == f.Hash && o.Res.Steps == f.Steps, v.Msg)
	return 1
}

var _ = zsim.Run
