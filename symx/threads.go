package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Threads of a harness (sym.Threads): one runs at a time, the next one is chosen
// by the symbolic input "sched" wherever one yields, blocks or ends.

type thread struct {
	frames  []*Frame // while not running
	blocked PtrV     // waits until this is false
	done    bool
	pan     *panicInfo
}

type threads struct {
	ts       []thread
	cur      int
	switches int64
	main     []*Frame
}

// switched says that an intrinsic went on in another thread.
type switched struct{}

func (t *threads) copy() *threads {
	if t == nil {
		return nil
	}
	n := *t
	n.ts = append([]thread(nil), t.ts...)
	return &n
}

func threadsStart(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
	if st.thr != nil {
		x.unsupported("nested threads")
	}
	t := &threads{cur: -1, switches: x.concretize(st, expr(a[0]))}
	for _, f := range x.sliceElems(st, a[1].(SliceV)) {
		main := st.frames
		st.frames = nil
		x.pushFrame(st, f.(FuncV), nil)
		t.ts = append(t.ts, thread{frames: st.frames})
		st.frames = main
	}
	i := x.pick(st, t)
	if i < 0 {
		return TupleV{}
	}
	st.top().pc++
	t.main = st.frames
	st.thr = t
	st.resume(i)
	return switched{}
}

// pick chooses the next thread: -1 when all have ended. It changes nothing but
// the inputs drawn, and nothing at all while it is undecided.
func (x *Exec) pick(st *State, t *threads) int {
	var can []int
	left, stay := false, false
	for i := range t.ts {
		h := &t.ts[i]
		if h.done {
			continue
		}
		left = true
		if h.blocked.obj != 0 && x.decide(st, expr(x.load(st, h.blocked))) {
			continue
		}
		can = append(can, i)
		stay = stay || i == t.cur
	}
	switch {
	case len(can) == 0 && !left:
		return -1
	case len(can) == 0:
		x.assertCond(st, x.c.False, "assert", "deadlock")
	case len(can) == 1:
		return can[0]
	case stay && t.switches == 0:
		return t.cur
	}
	save := st.ins
	e := x.input(st, "sched", 64, true, 0, int64(len(can)-1))
	drawn := st.ins
	st.ins = save
	v := x.concretize(st, e)
	st.ins = drawn
	i := can[v]
	if stay && i != t.cur {
		t.switches--
	}
	return i
}

func (st *State) resume(i int) {
	st.thr.cur = i
	h := &st.thr.ts[i]
	st.frames = append([]*Frame(nil), h.frames...)
	h.frames, h.blocked = nil, PtrV{}
	st.pan, h.pan = h.pan, nil
}

// yield is sym.Yield and sym.Block.
func (x *Exec) yield(st *State, p PtrV) Value {
	if st.thr == nil {
		if p.obj != 0 && x.decide(st, expr(x.load(st, p))) {
			x.assertCond(st, x.c.False, "assert", "deadlock")
		}
		return TupleV{}
	}
	t := st.thr.copy()
	t.ts[t.cur].blocked = p
	i := x.pick(st, t)
	st.top().pc++
	h := &t.ts[st.thr.cur]
	h.frames, h.pan = st.frames, st.pan
	st.thr = t
	st.resume(i)
	return switched{}
}

// threadEnd goes on after the running thread's function, whose only frame is
// left, returns; false when the state has no threads.
func (x *Exec) threadEnd(st *State) bool {
	if st.thr == nil {
		return false
	}
	t := st.thr.copy()
	t.ts[t.cur].done = true
	i := x.pick(st, t)
	st.thr = t
	if i >= 0 {
		st.resume(i)
		return true
	}
	st.thr = nil
	st.frames = append([]*Frame(nil), t.main...)
	return true
}

// threadOverlay generates package crand with the sync package replaced by locks
// that let other threads run, which they may also do before every statement that
// refers to a package variable or to the method's receiver.
func threadOverlay() (map[string][]byte, error) {
	fs, err := filepath.Glob("/repo/crand/*.go")
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	type file struct {
		name string
		src  []byte
		f    *ast.File
	}
	var all []file
	vars := map[string]bool{}
	for _, n := range fs {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		src, err = replaceImports(n, src, map[string][2]string{"sync": {"sync", "verif/harness/sim/sync"}})
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		all = append(all, file{n, src, f})
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						vars[id.Name] = true
					}
				}
			}
		}
	}
	out := map[string][]byte{}
	for _, a := range all {
		var at []int
		for _, d := range a.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			shared := map[string]bool{}
			for v := range vars {
				shared[v] = true
			}
			if fd.Recv != nil {
				for _, fl := range fd.Recv.List {
					for _, id := range fl.Names {
						shared[id.Name] = true
					}
				}
			}
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					if mentions(s, shared) {
						at = append(at, fset.Position(s.Pos()).Offset)
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
		sort.Sort(sort.Reverse(sort.IntSlice(at)))
		s := string(a.src)
		for _, o := range at {
			s = s[:o] + "verifsym.Yield(); " + s[o:]
		}
		e := fset.Position(a.f.Name.End()).Offset
		s = s[:e] + "; import verifsym \"verif/sym\"; var _ = verifsym.Yield" + s[e:]
		// imports must precede other declarations
		s = strings.Replace(s, "; var _ = verifsym.Yield", "", 1) + "\n\nvar _ = verifsym.Yield\n"
		out[a.name] = []byte(s)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no source in /repo/crand")
	}
	return out, nil
}

// mentions reports whether a statement, not counting nested blocks, refers to
// one of the names.
func mentions(s ast.Stmt, names map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			found = found || names[n.Name]
		}
		return true
	})
	return found
}
