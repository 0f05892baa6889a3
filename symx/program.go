package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func timeNow() time.Time { return time.Now() }

func ssaValue(in ssa.Instruction) (ssa.Value, bool) {
	v, ok := in.(ssa.Value)
	return v, ok
}

// Program is the loaded code: /repo, its dependencies, the standard library,
// the harnesses and the models.
type Program struct {
	root        string // /repo
	goroot      string
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        []*packages.Package
	all         map[string]*packages.Package
	sizes       types.Sizes
	models      map[string]*ssa.Function
	allowGlobal map[string]bool
	embeds      map[string]string // "pkgpath.Var" -> contents
	mu          sync.Mutex
	order       []*ssa.Package // init order
	LoadTime    time.Duration
	deps        map[string]bool
}

func (p *Program) runtimeErrType() types.Type { return types.Typ[types.String] }

func (p *Program) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
}

func loadProgram(dir string, env []string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	t0 := time.Now()
	p := &Program{root: "/repo", fset: token.NewFileSet(), models: map[string]*ssa.Function{}, allowGlobal: map[string]bool{}, embeds: map[string]string{}, all: map[string]*packages.Package{}, deps: map[string]bool{}}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Fset:    p.fset,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.all[pk.PkgPath] = pk
		if strings.HasPrefix(pk.PkgPath, "verif/") || strings.HasPrefix(pk.PkgPath, "github.com/sa6mwa/krypto431") {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load the code: %s", strings.Join(errs, "; "))
	}
	p.pkgs = pkgs
	p.sizes = pkgs[0].TypesSizes
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	p.goroot = os.Getenv("GOROOT_DIR")
	if pk := p.all["runtime"]; pk != nil && len(pk.GoFiles) > 0 {
		p.goroot = filepath.Dir(filepath.Dir(pk.GoFiles[0]))
	}
	for path, pk := range p.all {
		if strings.HasPrefix(path, "github.com/sa6mwa/krypto431") || strings.HasPrefix(path, "verif/harness") {
			p.findEmbeds(pk)
		}
	}
	// models: package verif/harness/models, functions named in its Table comment directives
	if pk := p.all["verif/harness/models"]; pk != nil {
		sp := prog.ImportedPackage("verif/harness/models")
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(strings.Replace(c.Text, "// model:", "//model:", 1), "//model:"); ok {
						p.models[strings.TrimSpace(t)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	}
	p.LoadTime = time.Since(t0)
	return p, nil
}

func (p *Program) findEmbeds(pk *packages.Package) {
	for i, f := range pk.Syntax {
		dir := filepath.Dir(pk.CompiledGoFiles[i])
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR || gd.Doc == nil {
				continue
			}
			for _, c := range gd.Doc.List {
				pat, ok := strings.CutPrefix(c.Text, "//go:embed ")
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Names) == 1 {
						data, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(pat)))
						if err == nil {
							p.embeds[pk.PkgPath+"."+vs.Names[0].Name] = string(data)
						}
					}
				}
			}
		}
	}
}

// initPkgs lists the packages whose initialisers are interpreted.
var initAllow = map[string]bool{
	"errors": true, "io": true, "unicode": true, "unicode/utf8": true, "strings": true, "bytes": true, "strconv": true,
	"math/rand": true, "encoding/binary": true, "encoding/hex": true, "internal/oserror": true, "io/fs": true, "sort": true, "bufio": true,
	"internal/bytealg": true, "time": true, "math/bits": true, "math": true, "slices": true, "syscall": true, "os": true, "internal/poll": true,
	"path/filepath": true, "path": true, "flag": true, "regexp": true, "regexp/syntax": true, "cmp": true, "maps": true,
	"internal/stringslite": true, "internal/filepathlite": true, "unicode/utf16": true, "text/tabwriter": true, "internal/syscall/unix": true,
	"log": true, "log/internal": true, "internal/itoa": true, "compress/gzip": true, "internal/godebug": true,
}

func (p *Program) initOrder() []*ssa.Package {
	var out []*ssa.Package
	seen := map[*packages.Package]bool{}
	var visit func(pk *packages.Package)
	visit = func(pk *packages.Package) {
		if seen[pk] {
			return
		}
		seen[pk] = true
		// deterministic order
		var names []string
		for n := range pk.Imports {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			visit(pk.Imports[n])
		}
		if p.initWanted(pk.PkgPath) {
			if sp := p.prog.Package(pk.Types); sp != nil {
				out = append(out, sp)
			}
		}
	}
	for _, pk := range p.pkgs {
		visit(pk)
	}
	return out
}

func (p *Program) initWanted(path string) bool {
	if initAllow[path] {
		return true
	}
	for _, pre := range []string{"verif/", "github.com/sa6mwa/", "github.com/urfave/cli", "github.com/AlecAivazis/survey", "github.com/nknorg/encrypted-stream"} {
		if strings.HasPrefix(path, pre) {
			return true
		}
	}
	return false
}

// base runs the initialisers and takes the base snapshot.
func (x *Exec) initBase() *State {
	st := &State{tok: &token_{}, model: x.c.NewModel()}
	for _, pk := range x.p.order {
		x.initPackage(st, pk)
	}
	// allocate remaining globals of reachable packages lazily is not possible after
	// the snapshot: create all globals of initialised packages now
	for _, pk := range x.p.prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				func() {
					defer func() { recover() }()
					x.globalObj(st, g)
				}()
			}
		}
	}
	for name, s := range x.p.embeds {
		i := strings.LastIndex(name, ".")
		sp := x.p.prog.ImportedPackage(name[:i])
		if sp == nil {
			continue
		}
		if g, ok := sp.Members[name[i+1:]].(*ssa.Global); ok {
			id := x.globalObj(st, g)
			if _, isStr := st.heap.get(id).(StrV); isStr {
				st.heap.set(id, StrV{s: s}, st.tok)
			} else {
				bs := x.c.strBytes(StrV{s: s})
				st.heap.set(id, x.byteSlice(st, bs), st.tok)
			}
		}
	}
	st.tok = &token_{}
	x.base = st.heap
	x.baseMax = x.nextID
	x.Steps, x.States, x.Forks = 0, 0, 0
	return st
}

type token_ = token_t

func (x *Exec) initPackage(st *State, pk *ssa.Package) {
	pk.Build()
	fn := pk.Func("init")
	x.inited[pk] = true
	if fn == nil || fn.Blocks == nil {
		return
	}
	old := x.Paths
	x.Paths = map[string]int{}
	oldIn := x.Incon
	x.Incon = map[string]int{}
	defer func() { x.Paths, x.Incon = old, oldIn }()
	st.done = false
	st.frames = nil
	st.pan = nil
	x.pushFrameInit(st, fn)
	for !st.done {
		x.stepOnce(st)
		if st.done && x.Paths["ok"] == 0 && len(st.frames) > 0 {
			// an initialiser the engine cannot run: its value becomes opaque (using it
			// later ends the path as unsupported), the others still run
			f0 := st.frames[0]
			in := f0.block.Instrs[f0.pc]
			if os.Getenv("SYMX_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "init %s: %v: %v\n", pk.Pkg.Path(), in, x.Incon)
			}
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "init") {
					x.poison[pk] = fmt.Sprint(x.Incon)
				}
			}
			switch in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
			default:
				x.Incon = map[string]int{}
				x.Paths = map[string]int{}
				st.frames = st.frames[:1]
				st.done = false
				st.pan = nil
				if v, ok := in.(ssa.Value); ok {
					x.setReg(f0, v, OpaqueV{"result of uninterpreted initialiser " + in.String()})
				}
				f0.pc++
				continue
			}
			break
		}
	}
	if x.Paths["ok"] == 0 {
		why := fmt.Sprint(x.Incon)
		for k := range x.Paths {
			why += " " + k
		}
		x.poison[pk] = why
		delete(x.inited, pk)
		if os.Getenv("SYMX_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "init %s failed: %s\n", pk.Pkg.Path(), why)
		}
	}
	x.Violations = nil
	x.violKeys = map[string]int{}
	x.Traces = nil
	x.traceSeen = 0
	st.done = false
	st.frames = nil
	st.pan = nil
	st.obs, st.ins = nil, nil
	st.decided = nil
}

func (x *Exec) pushFrameInit(st *State, fn *ssa.Function) {
	x.pushFrame(st, FuncV{fn: fn}, nil)
}
