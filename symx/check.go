package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropCfg configures the check of one property (checks.json).
type PropCfg struct {
	Pkg         string   `json:"pkg"`            // harness package
	OS          bool     `json:"os"`             // the operating system is simulated
	Threads     bool     `json:"threads"`        // package crand lets threads run
	Quick       int      `json:"quick_s"`        // wall budget per harness
	Thorough    int      `json:"thorough_s"`     //
	Assumptions []string `json:"assumptions"`    //
	Outside     string   `json:"outside_bounds"` //
	Bounds      string   `json:"bounds"`         // what the harnesses range over
	Parallel    int      `json:"parallel"`       //
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // substring of "kind: msg @ pos" plus inputs
	What     string `json:"what"`
}

type nativeResult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []ObsVal `json:"obs"`
	Reached []string `json:"reached"`
}

const verifDir = "/verif"

var modFile string

// prepareModule writes the module file the harnesses are built with: /repo's own
// requirements plus /repo and the sym package from their directories.
func prepareModule(dir string) error {
	data, err := os.ReadFile("/repo/go.mod")
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("module verif/harness\n\ngo 1.26.0\n\nrequire (\n\tgithub.com/sa6mwa/krypto431 v0.0.0\n\tverif/sym v0.0.0\n)\n\nreplace (\n\tgithub.com/sa6mwa/krypto431 => /repo\n\tverif/sym => " + verifDir + "/sym\n)\n\n")
	for _, l := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(l, "module ") || strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "toolchain ") {
			continue
		}
		b.WriteString(l + "\n")
	}
	modFile = filepath.Join(dir, "go.mod")
	if err := os.WriteFile(modFile, []byte(b.String()), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile("/repo/go.sum")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+modFile, "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

type replayer struct {
	bin string
	dir string
	env []string
}

// buildReplay compiles the harnesses natively against the current tree.
func buildReplay(dir string, cfg PropCfg, names []string) (*replayer, error) {
	r := &replayer{dir: dir}
	r.bin = filepath.Join(dir, "replay")
	repl := map[string]string{}
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t\"verif/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", cfg.Pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	src := filepath.Join(dir, "main.go")
	if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
		return nil, err
	}
	repl[verifDir+"/harness/zzreplay/main.go"] = src
	if cfg.OS || cfg.Threads {
		ov, err := overlays(cfg.OS, cfg.Threads)
		if err == nil {
			err = writeOverlay(dir, ov, repl)
		}
		if err != nil {
			return nil, err
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", r.bin, "verif/harness/zzreplay")
	cmd.Dir = verifDir + "/harness"
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return r, nil
}

type job struct {
	Harness string  `json:"harness"`
	Inputs  []InVal `json:"inputs"`
}

// run replays jobs natively. Each job runs in its own process with a scratch
// home directory when single is set.
func (r *replayer) run(jobs []job, tier string, timeout time.Duration) ([]nativeResult, string, error) {
	f, err := os.CreateTemp(r.dir, "jobs*.json")
	if err != nil {
		return nil, "", err
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(jobs)
	f.Write(b)
	f.Close()
	scratch, err := os.MkdirTemp(r.dir, "scratch")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(scratch)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_TIER="+tier, "HOME="+scratch, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch, "GOMEMLIMIT=4GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var out, serr bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &serr
	err = cmd.Run()
	var res []nativeResult
	for _, l := range strings.Split(out.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "RESULT "); ok {
			var nr nativeResult
			if json.Unmarshal([]byte(s), &nr) == nil {
				res = append(res, nr)
			}
		}
	}
	se := serr.String()
	if len(se) > 3000 {
		se = se[:3000]
	}
	if ctx.Err() != nil {
		return res, se, fmt.Errorf("timeout after %v", timeout)
	}
	if len(res) == len(jobs) {
		return res, se, nil
	}
	if err == nil {
		err = fmt.Errorf("no result")
	}
	return res, se, err
}

type hOut struct {
	name    string
	x       *Exec
	err     error
	wall    time.Duration
	reachWt []string
}

func staticReach(fn *ssa.Function) []string {
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == "verif/sym.Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						m[s] = true
					}
				} else if g.Pkg == fn.Pkg {
					visit(g)
				}
			}
		}
	}
	visit(fn)
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func checkMain(args []string) int {
	id, tier := "", os.Getenv("VERIF_TIER")
	only := ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "--tier":
			i++
			tier = args[i]
		case "--only":
			i++
			only = args[i]
		default:
			id = args[i]
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	thorough = tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	var all map[string]PropCfg
	data, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(data, &all)
	}
	if err != nil {
		fmt.Println("ERROR checks.json:", err)
		return 2
	}
	cfg, ok := all[id]
	if !ok {
		fmt.Println("ERROR unknown property", id)
		return 2
	}
	var known []Known
	if data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		var kf struct {
			Known []Known `json:"known"`
		}
		if err := json.Unmarshal(data, &kf); err != nil {
			fmt.Println("ERROR known_findings.json:", err)
			return 2
		}
		known = kf.Known
	}
	work, err := os.MkdirTemp("", "symx-"+id+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(work)

	if err := prepareModule(work); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	overlay := map[string][]byte{}
	pats := []string{cfg.Pkg, "verif/harness/models"}
	if cfg.OS || cfg.Threads {
		overlay, err = overlays(cfg.OS, cfg.Threads)
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}
	p, err := loadProgram(verifDir+"/harness", goEnv(), overlay, pats...)
	if err != nil {
		fmt.Println("ERROR the harness does not load against the current tree:", err)
		return 2
	}
	p.order = p.initOrder()
	sp := p.prog.ImportedPackage(cfg.Pkg)
	if sp == nil {
		for _, q := range p.prog.AllPackages() {
			if q.Pkg.Path() == cfg.Pkg {
				sp = q
			}
		}
	}
	if sp == nil {
		fmt.Println("ERROR no package", cfg.Pkg)
		return 2
	}
	// the harnesses run in parallel on one program: build it completely first
	p.prog.Build()
	var names []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, id+"_") && f.Signature.Params().Len() == 0 {
			if strings.Contains(n, "_Thorough") && !thorough {
				continue
			}
			if only != "" && n != only {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("ERROR no harness for", id)
		return 2
	}
	// native build in parallel with exploration
	var rep *replayer
	var repErr error
	var wgRep sync.WaitGroup
	wgRep.Add(1)
	go func() {
		defer wgRep.Done()
		rep, repErr = buildReplay(work, cfg, names)
	}()
	budget := time.Duration(cfg.Quick) * time.Second
	if budget == 0 {
		budget = 150 * time.Second
	}
	if thorough {
		budget = time.Duration(cfg.Thorough) * time.Second
		if budget == 0 {
			budget = 600 * time.Second
		}
	}
	par := runtime.NumCPU()
	if cfg.Parallel > 0 {
		par = cfg.Parallel
	}
	sem := make(chan struct{}, par)
	outs := make([]*hOut, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			t := time.Now()
			x, err := runHarness(p, sp, n, budget, false, seed)
			outs[i] = &hOut{name: n, x: x, err: err, wall: time.Since(t), reachWt: staticReach(sp.Func(n))}
		}()
	}
	wg.Wait()
	wgRep.Wait()
	if repErr != nil {
		fmt.Println("ERROR", repErr)
		return 2
	}
	return conclude(id, tier, seed, cfg, p, outs, rep, known, t0)
}

func conclude(id, tier string, seed int, cfg PropCfg, p *Program, outs []*hOut, rep *replayer, known []Known, t0 time.Time) int {
	outDir := filepath.Join(verifDir, "out")
	os.MkdirAll(outDir, 0o755)
	states, trans, validated, queries, confirmed := 0, 0, 0, 0, 0
	var samples []any
	var notes []string
	var lines []string
	fns := map[string]bool{}
	libs := map[string]bool{}
	stubs := map[string]bool{}
	bounds := map[string]string{}
	var hrep []any
	var solverT float64
	exhaustive := true
	totalFail := false
	knownHit := map[string]bool{}
	mismatches := 0
	exitV := 0
	for _, o := range outs {
		if o.err != nil {
			notes = append(notes, fmt.Sprintf("%s: %v", o.name, o.err))
			exhaustive = false
			totalFail = true
			continue
		}
		x := o.x
		states += x.States
		trans += x.Steps
		queries += x.s.Queries
		solverT += x.s.Time.Seconds()
		for f := range x.funcs {
			s := f.String()
			s = strings.ReplaceAll(s, "verif/harness/cmd431.", "github.com/sa6mwa/krypto431/cmd/krypto431.")
			if strings.Contains(s, "github.com/sa6mwa/krypto431") && f.Synthetic == "" && f.Pos().IsValid() && strings.HasPrefix(p.fset.Position(f.Pos()).Filename, "/repo/") && !strings.Contains(p.fset.Position(f.Pos()).Filename, "/zz_") {
				fns[strings.ReplaceAll(s, "github.com/sa6mwa/krypto431", "krypto431")] = true
			} else if !strings.HasPrefix(s, "verif/") {
				libs[s] = true
			}
		}
		for s := range x.fnSeen {
			if strings.HasPrefix(s, "stub ") && !strings.Contains(s, "verif/sym") {
				stubs[strings.TrimPrefix(s, "stub ")] = true
			}
		}
		for k, v := range x.bounds {
			bounds[o.name+"/"+k] = v
		}
		var inc []string
		for k, n := range x.Incon {
			inc = append(inc, fmt.Sprintf("%s (x%d)", k, n))
		}
		sort.Strings(inc)
		if len(inc) > 0 {
			exhaustive = false
			for _, s := range inc {
				notes = append(notes, "INCONCLUSIVE "+o.name+": "+s)
			}
		}
		explored := x.Paths["ok"] + x.Paths["panic"] + x.Paths["violated"] + len(x.Violations)
		if explored == 0 {
			totalFail = true
			notes = append(notes, "INCONCLUSIVE "+o.name+": no path completed")
		}
		var missing []string
		for _, t := range o.reachWt {
			if x.Reached[t] == 0 && !strings.HasPrefix(t, "opt:") {
				missing = append(missing, t)
			}
		}
		if len(missing) > 0 {
			notes = append(notes, "VACUOUS "+o.name+": nothing reached "+strings.Join(missing, ", "))
		}
		// translator validation
		var jobs []job
		for _, t := range x.Traces {
			jobs = append(jobs, job{o.name, t.Inputs})
		}
		if len(jobs) > 0 {
			res, serr, err := rep.run(jobs, tier, 120*time.Second)
			if err != nil && len(res) == 0 {
				notes = append(notes, fmt.Sprintf("INCONCLUSIVE %s: native replay of sampled paths: %v %s", o.name, err, serr))
			}
			for i, r := range res {
				if why := diffTrace(x.Traces[i], r); why != "" {
					mismatches++
					notes = append(notes, fmt.Sprintf("MISMATCH %s: engine and native disagree: %s inputs %v", o.name, why, compact(x.Traces[i].Inputs)))
					if r.Outcome == "assert" || r.Outcome == "panic" {
						// the real code fails the property on a sampled input: that is a real violation
						x.Violations = append(x.Violations, Violation{Harness: o.name, Kind: r.Outcome, Msg: r.Msg, Pos: "native", Inputs: x.Traces[i].Inputs})
					}
				} else {
					validated++
				}
			}
			if len(samples) < 6 && len(x.Traces) > 0 {
				t := x.Traces[len(x.Traces)/2]
				samples = append(samples, map[string]any{"harness": o.name, "inputs": compact(t.Inputs), "observed": compactObs(t.Obs), "panic": t.Panic})
			}
		}
		// violations
		nv := 0
		for i, v := range x.Violations {
			var res []nativeResult
			var err error
			ok, how := false, ""
			for _, inputs := range append([][]InVal{v.Inputs}, v.Alts...) {
				var serr string
				res, serr, err = rep.run([]job{{o.name, inputs}}, tier, 60*time.Second)
				switch {
				case len(res) == 1 && (res[0].Outcome == "assert" || res[0].Outcome == "panic"):
					ok, how = true, res[0].Outcome+": "+res[0].Msg
				case len(res) == 0 && err != nil && strings.Contains(err.Error(), "timeout"):
					ok, how = v.Kind == "hang", "does not terminate within 60 s"
				case len(res) == 0 && err != nil:
					ok, how = true, "process died: "+err.Error()+" "+firstLine(serr)
				}
				if ok {
					v.Inputs = inputs
					break
				}
			}
			desc := fmt.Sprintf("%s: %s @ %s", v.Kind, v.Msg, v.Pos)
			if !ok {
				out := "ok"
				if len(res) == 1 {
					out = res[0].Outcome + " " + res[0].Msg
				}
				notes = append(notes, fmt.Sprintf("UNCONFIRMED %s %s: native replay gives %q %v; inputs %v", o.name, desc, out, err, compact(v.Inputs)))
				mismatches++
				continue
			}
			confirmed++
			if k := matchKnown(known, id, o.name, desc+" | "+how); k != nil {
				if !knownHit[k.What] {
					knownHit[k.What] = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.What))
				}
				continue
			}
			nv++
			exitV++
			path := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", id, o.name, i))
			b, _ := json.MarshalIndent(map[string]any{"harness": o.name, "inputs": v.Inputs, "kind": v.Kind, "msg": v.Msg, "pos": v.Pos, "native": how, "stack": v.Stack,
				"replay_with": "bash /verif/replay.sh " + id + " " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			if nv <= 3 {
				lines = append(lines, fmt.Sprintf("  %s %s; native replay: %s; inputs %v", o.name, desc, how, compact(v.Inputs)))
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
			}
		}
		hrep = append(hrep, map[string]any{"harness": o.name, "states": x.States, "ssa_instructions": x.Steps, "merges": x.Merges, "forks": x.Forks,
			"paths": x.Paths, "reached": x.Reached, "assertions_checked": x.Asserts, "assertions_trivially_true": x.AssertsConst,
			"queries": x.s.Queries, "sat": x.s.Sat, "unsat": x.s.Unsat, "unknown": x.s.Unknown, "cached": x.s.Cached, "fallbacks": x.s.Fallbacks,
			"cross_checked_by_cvc5": x.s.CrossOK, "every_input_on_an_explored_path": x.Coverage, "branches_decided_by_normal_form": x.DDSat, "solver_s": round2(x.s.Time.Seconds()), "wall_s": round2(o.wall.Seconds()), "inconclusive": inc})
		fmt.Printf("%-28s states %6d merges %5d instr %9d asserts %6d (%d trivial) queries %5d (%d sat, %d unsat, %d unknown) solver %.1fs wall %.1fs paths %v\n",
			o.name, x.States, x.Merges, x.Steps, x.Asserts, x.AssertsConst, x.s.Queries, x.s.Sat, x.s.Unsat, x.s.Unknown, x.s.Time.Seconds(), o.wall.Seconds(), x.Paths)
	}
	for _, n := range notes {
		if len(n) > 700 {
			n = n[:700] + "..."
		}
		fmt.Println(n)
	}
	if cfg.Bounds != "" {
		bounds["stated"] = cfg.Bounds
	}
	common := []string{
		"the translation of Go SSA to terms is faithful; checked each run by replaying solver models natively and comparing all observations, and by the engine's differential tests",
		"z3 decides correctly (unknowns are retried with a second z3 and cvc5 and otherwise reported as inconclusive)",
		"memory is sequentially consistent and never runs out; integers have their real width",
	}
	if cfg.OS {
		common = append(common, "the operating system behaves as the simulated one (harness/sim/faultos): operations fail as a whole or after half their bytes, a crash keeps what was written", "the stream cipher, gob, gzip and key derivation are replaced by ideal stand-ins under the engine; the native replay uses the real ones")
	}
	cfg.Assumptions = append(common, cfg.Assumptions...)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"meaning":                     "states: symbolic states created (each stands for all inputs satisfying its path condition); transitions: SSA instructions executed symbolically; traces_validated: solver models replayed natively with identical observations",
			"queries_discharged":          queries,
			"solver_s":                    round2(solverT),
			"functions_encoded":           keys(fns),
			"library_functions_encoded":   len(libs),
			"stubs":                       keys(stubs),
			"bounds":                      bounds,
			"outside_bounds":              cfg.Outside,
			"complete_within_bounds":      exhaustive,
			"notes":                       notes,
			"harnesses":                   hrep,
			"counterexamples_confirmed":   confirmed,
			"engine_native_disagreements": mismatches,
		},
		"assumptions": cfg.Assumptions,
		"wall_s":      round2(time.Since(t0).Seconds()),
		"violations":  exitV,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d states, %d queries, %d traces validated, %d violations, %.1fs\n", id, tier, states, queries, validated, exitV, time.Since(t0).Seconds())
	if exitV > 0 {
		return 1
	}
	if totalFail {
		fmt.Println("ERROR no answer: a harness could not be explored at all")
		return 2
	}
	if mismatches > 0 && validated == 0 {
		fmt.Println("ERROR no answer: the engine disagrees with the real code")
		return 2
	}
	return 0
}

func matchKnown(known []Known, id, h, desc string) *Known {
	for i := range known {
		k := &known[i]
		if k.Property == id && (k.Harness == "" || k.Harness == h) && strings.Contains(desc, k.Match) {
			return k
		}
	}
	return nil
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
	return s
}

func diffTrace(t Trace, r nativeResult) string {
	if t.Panic != "" {
		if r.Outcome != "panic" {
			return "engine panics (" + t.Panic + "), native: " + r.Outcome + " " + r.Msg
		}
	} else if r.Outcome != "ok" {
		return "native: " + r.Outcome + " " + r.Msg
	}
	if len(t.Obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations against %d", len(t.Obs), len(r.Obs))
	}
	for i := range t.Obs {
		if t.Obs[i] != r.Obs[i] {
			return fmt.Sprintf("observation %d: engine %v native %v", i, t.Obs[i], r.Obs[i])
		}
	}
	return ""
}

func compact(in []InVal) string {
	var b strings.Builder
	for i, v := range in {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			fmt.Fprintf(&b, "... %d more", len(in)-i)
			break
		}
		fmt.Fprintf(&b, "%s=%d", v.Name, v.Val)
	}
	return b.String()
}

func compactObs(in []ObsVal) string {
	var b strings.Builder
	for i, v := range in {
		if i > 60 {
			fmt.Fprintf(&b, "... %d more", len(in)-i)
			break
		}
		fmt.Fprintf(&b, "%s=%d ", v.Tag, v.Val)
	}
	return b.String()
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// replayMain runs one saved counterexample natively.
func replayMain(args []string) int {
	if len(args) < 2 {
		fmt.Println("usage: symx replay ID FILE")
		return 2
	}
	var all map[string]PropCfg
	data, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(data, &all)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var j job
	data, err = os.ReadFile(args[1])
	if err == nil {
		err = json.Unmarshal(data, &j)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	work, err := os.MkdirTemp("", "symx-replay-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	if err := prepareModule(work); err != nil {
		fmt.Println(err)
		return 2
	}
	rep, err := buildReplay(work, all[args[0]], []string{j.Harness})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	res, serr, err := rep.run([]job{j}, os.Getenv("VERIF_TIER"), 60*time.Second)
	for _, r := range res {
		fmt.Println(r.Outcome, r.Msg, compactObs(r.Obs))
		if r.Outcome == "assert" || r.Outcome == "panic" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", args[0], args[1])
			return 1
		}
	}
	if len(res) == 0 {
		fmt.Println("died:", err, firstLine(serr))
		return 1
	}
	return 0
}
