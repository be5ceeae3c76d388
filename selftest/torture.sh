#!/bin/bash
# The rewriter keeps the meaning of a program: the torture package prints the same natively and instrumented.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/torture.XXXXXX)
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
mkdir -p $d/instr $d/native/cmd $d/sim/cmd $d/sim/zsim
cp $here/../instr/*.go $d/instr; printf 'module instr\n\ngo 1.21\n' > $d/instr/go.mod
(cd $d/instr && go build -o ../instr.bin .)
cp $here/torture/* $d/native; cp $here/../sim/*.go $d/sim/zsim
cp $here/torture/go.mod $d/m.mod; touch $d/m.sum
$d/instr.bin -repo $here/torture -modfile $d/m.mod -out $d/sim
cp $here/torture/go.mod $d/sim/go.mod
cat > $d/native/cmd/main.go <<M
package main
import ("fmt"; "github.com/fwhezfwhez/tcpx")
func main() { for _, l := range tcpx.Torture() { fmt.Println(l) } }
M
cat > $d/sim/cmd/main.go <<M
package main
import ("fmt"; "os"; "github.com/fwhezfwhez/tcpx"; "github.com/fwhezfwhez/tcpx/zsim")
func main() {
	var first []string
	modes := []zsim.Strategy{{Mode: "fifo"}, {Mode: "walk", P: 0.2, PV: 0.4}, {Mode: "pct", D: 3, Len: 1000}, {Mode: "stall", Hot: 20, Hold: 100, P: 0.05, PV: 0.1}}
	for i := 0; i < 400; i++ {
		zsim.ResetAll()
		var out []string
		o := zsim.Options{Seed: uint64(i), Strat: modes[i%4]}
		r := zsim.Run(o, func() { out = tcpx.Torture() })
		if r.Crash != "" || r.Deadlock || r.StepCap { fmt.Println("FAILED", i, r.Crash, r.Deadlock, r.CrashStack, r.Blocked); os.Exit(1) }
		if first == nil { first = out; for _, l := range out { fmt.Println(l) } }
		if fmt.Sprint(out) != fmt.Sprint(first) { fmt.Println("DIFFERENT", i); for k := range out { if k >= len(first) || out[k] != first[k] { fmt.Println(out[k]) } }; os.Exit(1) }
		// the same schedule again, from its recorded deviations
		zsim.ResetAll()
		r2 := zsim.Run(zsim.Options{Seed: uint64(i), Replay: true, Devs: r.Devs}, func() { out = tcpx.Torture() })
		if r2.Hash != r.Hash || r2.Steps != r.Steps { fmt.Println("REPLAY DIFFERS", i, r.Steps, r2.Steps); os.Exit(1) }
	}
}
M
(cd $d/native && go run ./cmd > $d/native.out)
(cd $d/sim && go build -o $d/simbin ./cmd && $d/simbin > $d/sim.out) || { cat $d/sim.out; exit 1; }
diff $d/native.out $d/sim.out && echo "torture: $(wc -l < $d/native.out) lines identical, 400 schedules replayed"
