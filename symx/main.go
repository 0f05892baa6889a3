package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func runHarness(p *Program, sp *ssa.Package, name string, budget time.Duration, dbg bool, seed int) (x *Exec, err error) {
	x = NewExec(p, name)
	x.dbg = dbg
	defer x.s.Close()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("engine failure: %v", r)
			if os.Getenv("SYMX_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	fn := sp.Func(name)
	if fn == nil {
		return x, fmt.Errorf("no harness %s", name)
	}
	st := x.initBase()
	if budget > 0 {
		x.deadline = time.Now().Add(budget)
	}
	x.pushFrame(st, FuncV{fn: fn}, nil)
	x.States = 1
	x.Ends = nil
	x.run(st)
	x.Coverage = "not asked"
	if len(x.Violations) == 0 && len(x.Incon) == 0 && x.stopped == "" {
		switch x.s.Covered(x.Ends) {
		case rUnsat:
			x.Coverage = "proved"
		case rSat:
			x.Coverage = "FAILED"
			x.Incon["the solver found an input that none of the explored paths covers"]++
		default:
			x.Coverage = "solver timed out"
		}
	}
	return x, nil
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2:]))
	}
	pkg := flag.String("pkg", "", "")
	h := flag.String("h", "", "")
	simos := flag.Bool("os", false, "")
	thr := flag.Bool("threads", false, "package crand lets threads run")
	dbg := flag.Bool("dbg", false, "")
	budget := flag.Duration("budget", 2*time.Minute, "")
	prof := flag.String("prof", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	work, _ := os.MkdirTemp("", "symx-dev-")
	defer os.RemoveAll(work)
	if err := prepareModule(work); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var ov map[string][]byte
	if *simos || *thr {
		var err error
		if ov, err = overlays(*simos, *thr); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	p, err := loadProgram("/verif/harness", goEnv(), ov, *pkg, "verif/harness/models")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p.order = p.initOrder()
	fmt.Println("load", p.LoadTime)
	sp := p.prog.ImportedPackage(*pkg)
	sp.Build()
	for _, name := range strings.Split(*h, ",") {
		t0 := time.Now()
		if os.Getenv("SYMX_FORKS") != "" {
			forkProfile = map[string]int{}
		}
		x, err := runHarness(p, sp, name, *budget, *dbg, 1)
		fmt.Println(name, "err", err, "time", time.Since(t0), "states", x.States, "merges", x.Merges, "forks", x.Forks, "steps", x.Steps, "exprs", len(x.c.all))
		fmt.Println("  paths", x.Paths, "reach", x.Reached, "asserts", x.Asserts, x.AssertsConst)
		for k, n := range forkProfile {
			if n > x.Forks/50 {
				fmt.Println("  forks", n, k)
			}
		}
		fmt.Println("  incon", x.Incon, "coverage", x.Coverage)
		fmt.Println("  solver", x.s.Queries, "sat", x.s.Sat, "unsat", x.s.Unsat, "unk", x.s.Unknown, "cached", x.s.Cached, "fb", x.s.Fallbacks, x.s.Time, x.s.Errors)
		fmt.Println("  mergefail", x.mergeFail)
		for _, v := range x.Violations {
			b, _ := json.Marshal(v)
			fmt.Println("  VIOL", string(b))
		}
	}
}
