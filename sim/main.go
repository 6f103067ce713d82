package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	_ "a.boot"
)

func procSetup() {
	runtime.GOMAXPROCS(1)
	runtime.SimNoRetake(true)
	debug.SetGCPercent(-1)
}

var outFile *os.File

func out(v any) {
	b, _ := json.Marshal(v)
	if outFile == nil {
		outFile = os.NewFile(3, "out")
	}
	outFile.Write(append(b, '\n'))
}

func main() {
	runtime.SimBooted()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|worker|replay|shrink|one ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	n := fs.Int("n", 1, "runs")
	first := fs.Int("first", 0, "first run")
	trace := fs.Bool("trace", false, "trace")
	tier := fs.String("tier", "quick", "tier")
	step := fs.Int("step", 1, "stride")
	maxRuns := fs.Int("max", 1<<30, "run limit")
	secs := fs.Float64("secs", 0, "search time")
	minRuns := fs.Int("min", 0, "least number of runs")
	in := fs.String("in", "", "replay file")
	outF := fs.String("out", "", "output file")
	root := fs.String("root", "/verif", "framework root")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *secs, *minRuns, *root))
	case "worker":
		procSetup()
		loadKnown(*root, *prop)
		worker(*prop, *seed, *first, *step, *maxRuns, *secs)
	case "shrink":
		procSetup()
		loadKnown(*root, *prop)
		shrink(*in, *outF, *secs)
	case "replay":
		procSetup()
		if *in == "" {
			*in = fs.Arg(0)
		}
		replay(*in, *trace, *root)
	case "one":
		procSetup()
		sc := scenarioFor(*prop)
		agg := map[string]int{}
		for i := *first; i < *first+*n; i++ {
			r := runOne(sc, *prop, runSeed(*seed, *prop, i), nil, *trace)
			fmt.Fprintf(realStderr, "run %d hash %x steps %d sim %.1fs why=%s trunc=%v w%d s%d f%d\n", i, r.Hash, r.Steps, float64(r.SimNs)/1e9, r.Why, r.Truncated, len(r.Ch.W), len(r.Ch.S), len(r.Ch.F))
			for k, v := range r.Probes {
				agg[k] += v
			}
			for k, v := range r.Injected {
				agg["F:"+k] += v
			}
			if *trace {
				fmt.Fprintln(realStderr, strings.Join(r.Trace, "\n"))
			}
			if r.Panic != "" {
				fmt.Fprintln(realStderr, "PANIC", r.Panic)
				os.Exit(2)
			}
			if r.Viol != nil {
				fmt.Fprintf(realStderr, "VIOLATION %s: %s\n", r.Viol.Class, r.Viol.Msg)
			}
		}
		fmt.Fprintln(realStderr, agg)
	}
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return splitmix(splitmix(seed)^strHash(prop)) ^ splitmix(uint64(i)+0x1234567)
}

func scenarioFor(prop string) *Scenario {
	if f, ok := scenarios[prop]; ok {
		return f()
	}
	fmt.Fprintln(os.Stderr, "no scenario for property", prop)
	os.Exit(2)
	return nil
}

// scenarios maps a property to the simulated system that decides it.
var scenarios = map[string]func() *Scenario{
	"C05": busScenario, "C06": busScenario, "C07": busScenario,
	"C01": engScenario, "C02": engScenario, "C03": engScenario, "C04": engScenario, "C15": engScenario,
	"C11": dlScenario, "C12": rlScenario, "C13": tmScenario, "C14": mbScenario,
	"C08": busScenario, "C09": busScenario, "C10": busScenario,
	"C16": fxScenario, "C17": odScenario,
}
