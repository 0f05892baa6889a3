package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	parent *pcNode
	cond   *Expr
	depth  int
}

type inNode struct { // symbolic inputs drawn along the path
	parent *inNode
	name   string
	v      *Expr
	n      int
}

type obsNode struct {
	parent *obsNode
	tag    string
	v      *Expr
	n      int
}

type deferred struct {
	fn   FuncV
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	own       *token_t
	fn        *ssa.Function
	info      *FnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	regs      []Value
	iters     []int32
	defers    []deferred
	unwinding bool
	recovered bool
	deferCall bool // this frame is a deferred call run by its parent
	discard   bool // result is not stored in the caller
	binds     []Value
	initOf    *ssa.Package
}

type State struct {
	tok     *token_t
	frames  []*Frame
	heap    Heap
	pc      *pcNode
	ins     *inNode
	obs     *obsNode
	model   *Model
	pan     *panicInfo
	decided map[*Expr]bool
	steps   int
	merged  int
	done    bool
	meta    map[string]*Expr // small per-path engine state (clock...)
	thr     *threads
}

type panicInfo struct {
	val Value
	msg string
}

type endPath struct { // thrown by instruction execution to end a path
	kind string // "assume", "unsupported", "exit", "budget", "infeasible"
	msg  string
}

type goPanic struct { // a Go-level panic in the interpreted program
	val Value
	msg string
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic
	Msg     string            `json:"msg"`
	Pos     string            `json:"pos"`
	Inputs  []InVal           `json:"inputs"`
	Stack   []string          `json:"stack,omitempty"`
	Obs     map[string]string `json:"-"`
	Alts    [][]InVal         `json:"-"` // other inputs violating the same assertion
}

type InVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type Trace struct {
	Inputs []InVal  `json:"inputs"`
	Obs    []ObsVal `json:"obs"`
	Panic  string   `json:"panic,omitempty"`
}

type ObsVal struct {
	Tag string `json:"tag"`
	Val int64  `json:"val"`
}

// Exec executes one harness.
type Exec struct {
	p      *Program
	c      *Ctx
	s      *Solver
	name   string
	nextID int32

	globals map[*ssa.Global]int32
	poison  map[*ssa.Package]string
	inited  map[*ssa.Package]bool
	baseMax int32
	base    Heap

	queue  []*State
	funcs  map[*ssa.Function]*FnInfo
	fnSeen map[string]int

	States, Merges, Forks, Steps int
	Paths                        map[string]int
	Incon                        map[string]int
	Violations                   []Violation
	violKeys                     map[string]int
	Reached                      map[string]int
	Traces                       []Trace
	traceSeen                    int
	Asserts, AssertsConst        int
	Ends                         [][]*Expr // path conditions of the ended paths
	Coverage                     string    // the solver's answer to: is every input on one of them?
	DDSat                        int       // branches found feasible by their decision diagram
	deadline                     time.Time
	maxSteps                     int
	maxPath                      int // instructions of one path before it counts as not ending
	maxTraces                    int
	stopped                      string
	noMerge                      bool
	maxViol                      int
	MaxQueue                     int
	intLimits                    map[string]int
	queryCache                   map[string]cachedQ
	curCall                      ssa.CallInstruction
	consts                       map[*ssa.Const]Value
	callHook                     map[*ssa.Function]bool
	bounds                       map[string]string
	mergeFail                    map[string]int
	dbg                          bool
}

type cachedQ struct {
	res int
	mod map[int32]int64
}

func NewExec(p *Program, name string) *Exec {
	c := NewCtx()
	x := &Exec{p: p, c: c, s: NewSolver(c), name: name, nextID: 1,
		globals: map[*ssa.Global]int32{}, poison: map[*ssa.Package]string{}, inited: map[*ssa.Package]bool{},
		funcs: map[*ssa.Function]*FnInfo{}, fnSeen: map[string]int{},
		Paths: map[string]int{}, Incon: map[string]int{}, Reached: map[string]int{}, violKeys: map[string]int{},
		maxSteps: 400_000_000, maxPath: 60_000_000, maxTraces: 12, maxViol: 6, queryCache: map[string]cachedQ{}, consts: map[*ssa.Const]Value{},
		bounds: map[string]string{}, mergeFail: map[string]int{}}
	return x
}

func (x *Exec) newObj(st *State, v Value) int32 {
	id := x.nextID
	x.nextID++
	st.heap.set(id, v, st.tok)
	return id
}

func (x *Exec) unsupported(f string, a ...any) {
	panic(endPath{"unsupported", fmt.Sprintf(f, a...)})
}

func (st *State) top() *Frame {
	n := len(st.frames) - 1
	f := st.frames[n]
	if f.own != st.tok {
		g := *f
		g.own = st.tok
		g.regs = append([]Value(nil), f.regs...)
		g.iters = append([]int32(nil), f.iters...)
		g.defers = append([]deferred(nil), f.defers...)
		st.frames[n] = &g
		f = &g
	}
	return f
}

func (x *Exec) clone(st *State) *State {
	n := *st
	// the running instruction holds the top frame: it stays with st, the clone
	// gets a copy
	var top *Frame
	if len(st.frames) > 0 {
		top = st.top()
	}
	st.tok = &token_t{}
	n.tok = &token_t{}
	n.frames = append([]*Frame(nil), st.frames...)
	if top != nil {
		g := *top
		g.own = n.tok
		g.regs = append([]Value(nil), top.regs...)
		g.iters = append([]int32(nil), top.iters...)
		g.defers = append([]deferred(nil), top.defers...)
		n.frames[len(n.frames)-1] = &g
		top.own = st.tok
	}
	n.thr = st.thr.copy()
	n.decided = map[*Expr]bool{}
	for k, v := range st.decided {
		n.decided[k] = v
	}
	if st.meta != nil {
		n.meta = map[string]*Expr{}
		for k, v := range st.meta {
			n.meta[k] = v
		}
	}
	x.States++
	return &n
}

func (x *Exec) addPC(st *State, e *Expr) {
	for _, cj := range conj(e) {
		if cj == x.c.True {
			continue
		}
		d := 0
		if st.pc != nil {
			d = st.pc.depth + 1
		}
		st.pc = &pcNode{st.pc, cj, d}
	}
}

func (x *Exec) pcList(st *State) []*Expr {
	var out []*Expr
	for n := st.pc; n != nil; n = n.parent {
		out = append(out, n.cond)
	}
	return out
}

// slice returns the conjuncts of the path condition connected to e by shared variables.
func (x *Exec) slice(st *State, e *Expr) []*Expr {
	vars := map[int32]bool{}
	for _, v := range e.sup {
		vars[v] = true
	}
	var rest []*Expr
	for n := st.pc; n != nil; n = n.parent {
		rest = append(rest, n.cond)
	}
	used := make([]bool, len(rest))
	out := []*Expr{}
	for changed := true; changed; {
		changed = false
		for i, cnd := range rest {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range cnd.sup {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, cnd)
				for _, v := range cnd.sup {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible decides PC && e; returns result and a model extension.
func (x *Exec) feasible(st *State, e *Expr, final bool) (int, *Model) {
	if e == x.c.False {
		return rUnsat, nil
	}
	if st.model.Eval(e) != 0 {
		return rSat, st.model
	}
	cs := x.slice(st, e)
	for _, cnd := range cs {
		if cnd == x.c.Not(e) {
			return rUnsat, nil
		}
	}
	full := x.c.And(append(append([]*Expr{}, cs...), e)...)
	if full == x.c.False {
		if final {
			// the rewriter refuted it; let the solver have the last word
			if res, mod := x.s.Check(append(append([]*Expr{}, cs...), e), true, final); res == rSat {
				x.s.Errors = append(x.s.Errors, "DISAGREEMENT: rewriter unsat, solver sat")
				return res, st.model.with(mod)
			}
		}
		return rUnsat, nil
	}
	ids := make([]int, 0, len(cs)+1)
	for _, cj := range conj(full) {
		ids = append(ids, int(cj.id))
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if q, ok := x.queryCache[key]; ok {
		x.s.Cached++
		if q.res == rSat {
			return rSat, st.model.with(q.mod)
		}
		return q.res, nil
	}
	var res int
	var mod map[int32]int64
	if isDD(full) && !final {
		// a diagram other than false is satisfiable; walk to a leaf
		res, mod = rSat, x.c.ddModel(full, st.model)
		x.DDSat++
	} else {
		res, mod = x.s.Check(conj(full), true, final)
	}
	x.queryCache[key] = cachedQ{res, mod}
	if res == rSat {
		// variables of the slice that disappeared by simplification keep any value
		// satisfying the slice: re-evaluate to be safe
		m := st.model.with(mod)
		if m.Eval(full) == 0 {
			x.s.Errors = append(x.s.Errors, fmt.Sprintf("model does not satisfy query (translator bug): %s", full))
			return rUnknown, nil
		}
		for _, cnd := range cs {
			if m.Eval(cnd) == 0 {
				// rare: simplification dropped a variable; ask again unsimplified
				res, mod = x.s.Check(append(append([]*Expr{}, cs...), e), true, final)
				if res != rSat {
					return res, nil
				}
				return rSat, st.model.with(mod)
			}
		}
		return rSat, m
	}
	return res, nil
}

// decide returns the truth of cond on this path, forking when both are possible.
func (x *Exec) decide(st *State, cond *Expr) bool {
	if cond == x.c.True {
		return true
	}
	if cond == x.c.False {
		return false
	}
	if v, ok := st.decided[cond]; ok {
		return v
	}
	ncond := x.c.Not(cond)
	for n := st.pc; n != nil; n = n.parent {
		if n.cond == cond {
			return true
		}
		if n.cond == ncond {
			return false
		}
	}
	v := st.model.Eval(cond) != 0
	other := cond
	if v {
		other = ncond
	}
	res, m := x.feasible(st, other, false)
	if res == rUnsat {
		if st.decided == nil {
			st.decided = map[*Expr]bool{}
		}
		st.decided[cond] = v
		return v
	}
	if res == rUnknown {
		x.Incon["solver unknown on a branch (branch not explored)"]++
	} else {
		o := x.clone(st)
		o.model = m
		x.addPC(o, other)
		o.decided[cond] = !v
		x.Forks++
		if forkProfile != nil {
			f := st.top()
			forkProfile[f.fn.String()+" "+x.where(st)]++
		}
		x.push(o)
	}
	if v {
		x.addPC(st, cond)
	} else {
		x.addPC(st, ncond)
	}
	if st.decided == nil {
		st.decided = map[*Expr]bool{}
	}
	st.decided[cond] = v
	return v
}

// concretize forks over the possible values of e.
func (x *Exec) concretize(st *State, e *Expr) int64 {
	if e.isConst() {
		return e.k
	}
	if !e.top && e.hi-e.lo > 1<<16 || e.top {
		// only allowed if few values are feasible; bounded by the decide loop
		if !x.fewValues(st, e) {
			x.unsupported("concretising a wide symbolic integer")
		}
	}
	for i := 0; ; i++ {
		v := st.model.Eval(e)
		if x.decide(st, x.c.Eq(e, x.c.Int(v, e.w, e.sg))) {
			return v
		}
		if i > 2000 {
			x.unsupported("too many values to concretise")
		}
	}
}

func (x *Exec) fewValues(st *State, e *Expr) bool {
	// count up to 300 distinct feasible values
	cond := x.c.True
	tmp := *st
	for i := 0; i < 300; i++ {
		res, m := x.feasible(&tmp, cond, false)
		if res != rSat {
			return res == rUnsat
		}
		v := m.Eval(e)
		cond = x.c.And(cond, x.c.Not(x.c.Eq(e, x.c.Int(v, e.w, e.sg))))
	}
	return false
}

// assertCond checks a property.
func (x *Exec) assertCond(st *State, cond *Expr, kind, msg string) {
	x.Asserts++
	if cond == x.c.True {
		x.AssertsConst++
		return
	}
	res, m := x.feasible(st, x.c.Not(cond), true)
	switch res {
	case rSat:
		x.violation(st, m, kind, msg)
	case rUnknown:
		x.Incon["solver unknown on assertion: "+msg]++
	}
	// continue under the assertion
	if cond == x.c.False {
		panic(endPath{"violated", msg})
	}
	if res != rUnsat {
		r2, m2 := x.feasible(st, cond, false)
		if r2 != rSat {
			panic(endPath{"violated", msg})
		}
		st.model = m2
		x.addPC(st, cond)
	}
}

func (x *Exec) violation(st *State, m *Model, kind, msg string) {
	pos := x.where(st)
	key := kind + "|" + msg + "|" + pos
	if i, ok := x.violKeys[key]; ok {
		if v := &x.Violations[i]; len(v.Alts) < 12 {
			v.Alts = append(v.Alts, x.inputs(st, m))
		}
		return
	}
	if len(x.Violations) >= x.maxViol {
		x.Incon["more violations than kept"]++
		return
	}
	x.violKeys[key] = len(x.Violations)
	v := Violation{Harness: x.name, Kind: kind, Msg: msg, Pos: pos, Inputs: x.inputs(st, m)}
	for i := len(st.frames) - 1; i >= 0; i-- {
		v.Stack = append(v.Stack, st.frames[i].fn.String())
	}
	x.Violations = append(x.Violations, v)
}

func (x *Exec) inputs(st *State, m *Model) []InVal {
	var out []InVal
	for n := st.ins; n != nil; n = n.parent {
		out = append(out, InVal{n.name, m.Eval(n.v)})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		pc := min(f.pc, len(f.block.Instrs)-1)
		for j := pc; j >= 0; j-- {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				ps := x.p.fset.Position(p)
				if strings.Contains(ps.Filename, "/src/") && i > 0 && strings.HasPrefix(ps.Filename, x.p.goroot) {
					break
				}
				return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.p.root+"/"), ps.Line)
			}
		}
	}
	return "?"
}

func (x *Exec) input(st *State, name string, w uint8, sg bool, lo, hi int64) *Expr {
	n := 0
	for p := st.ins; p != nil; p = p.parent {
		if p.name == name {
			n = p.n + 1
			break
		}
	}
	vn := fmt.Sprintf("%s#%d:%d", name, n, w)
	if w > 0 {
		vn += fmt.Sprintf("[%d,%d]", lo, hi)
	}
	v := x.c.Var(vn, w, sg, lo, hi)
	st.ins = &inNode{st.ins, name, v, n}
	return v
}

// ---- static function info: weak topological order, loop nests, liveness

type FnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	ord   []int   // block index -> WTO order
	loops [][]int // block index -> enclosing loop heads (block indices), outer first
	live  map[[2]int][]int
	outL  [][]bool // live-out per block
	count int
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if fi := x.funcs[fn]; fi != nil {
		return fi
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, live: map[[2]int][]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.wto()
	x.funcs[fn] = fi
	return fi
}

// wto computes Bourdoncle's weak topological order.
func (fi *FnInfo) wto() {
	n := len(fi.fn.Blocks)
	fi.ord = make([]int, n)
	fi.loops = make([][]int, n)
	dfn := make([]int, n)
	num := 0
	var stack []int
	type elem struct {
		v    int
		comp []elem
		head bool
	}
	const inf = 1 << 30
	var visit func(v int, part *[]elem) int
	var component func(v int) elem
	component = func(v int) elem {
		var part []elem
		for _, s := range fi.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return elem{v: v, comp: part, head: true}
	}
	visit = func(v int, part *[]elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range fi.fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]elem{component(v)}, *part...)
			} else {
				*part = append([]elem{{v: v}}, *part...)
			}
		}
		return head
	}
	var roots []elem
	visit(0, &roots)
	if r := fi.fn.Recover; r != nil && dfn[r.Index] == 0 {
		var p []elem
		visit(r.Index, &p)
		roots = append(roots, p...)
	}
	k := 0
	var walk func(es []elem, nest []int)
	walk = func(es []elem, nest []int) {
		for _, e := range es {
			if e.head {
				nn := append(append([]int{}, nest...), e.v)
				fi.ord[e.v] = k
				k++
				fi.loops[e.v] = nn
				walk(e.comp, nn)
			} else {
				fi.ord[e.v] = k
				k++
				fi.loops[e.v] = nest
			}
		}
	}
	walk(roots, nil)
}

// setBlock moves the frame to block b, maintaining loop counters.
func (f *Frame) setBlock(b *ssa.BasicBlock) {
	old := f.block
	fi := f.info
	f.prev = old
	f.block = b
	f.pc = 0
	nl := fi.loops[b.Index]
	var ol []int
	if old != nil {
		ol = fi.loops[old.Index]
	}
	it := make([]int32, len(nl))
	for i := range nl {
		if i < len(ol) && ol[i] == nl[i] {
			it[i] = f.iters[i]
			if nl[i] == b.Index { // back edge to the head
				it[i]++
			}
		} else {
			break
		}
	}
	f.iters = it
}

// cmpPos orders states by program position.
func cmpPos(a, b *State) int {
	for i := 0; ; i++ {
		if i >= len(a.frames) || i >= len(b.frames) {
			if len(a.frames) == len(b.frames) {
				return 0
			}
			if i >= len(a.frames) {
				return -1
			}
			return 1
		}
		f, g := a.frames[i], b.frames[i]
		if f == g {
			continue
		}
		if f.fn != g.fn {
			return strings.Compare(f.fn.String(), g.fn.String())
		}
		lf, lg := f.info.loops[f.block.Index], g.info.loops[g.block.Index]
		for j := 0; j < len(lf) && j < len(lg) && lf[j] == lg[j]; j++ {
			if f.iters[j] != g.iters[j] {
				if f.iters[j] < g.iters[j] {
					return -1
				}
				return 1
			}
		}
		if of, og := f.info.ord[f.block.Index], g.info.ord[g.block.Index]; of != og {
			if of < og {
				return -1
			}
			return 1
		}
		if f.pc != g.pc {
			if f.pc < g.pc {
				return -1
			}
			return 1
		}
		if len(f.defers) != len(g.defers) && len(a.frames) == i+1 && len(b.frames) == i+1 {
			// more pending deferred calls first
			if len(f.defers) > len(g.defers) {
				return -1
			}
			return 1
		}
	}
}

// liveAt returns the register indices live before instruction pc of block b.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, pc int) []int {
	key := [2]int{b.Index, pc}
	if l, ok := fi.live[key]; ok {
		return l
	}
	if fi.outL == nil {
		fi.liveness()
	}
	cur := append([]bool(nil), fi.outL[b.Index]...)
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			cur[fi.idx[v]] = false
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o == nil {
				continue
			}
			if k, ok := fi.idx[*o]; ok {
				cur[k] = true
			}
		}
	}
	var out []int
	for i, l := range cur {
		if l {
			out = append(out, i)
		}
	}
	fi.live[key] = out
	return out
}

func (fi *FnInfo) liveness() {
	nb := len(fi.fn.Blocks)
	fi.outL = make([][]bool, nb)
	inL := make([][]bool, nb)
	for i := range inL {
		inL[i] = make([]bool, fi.n)
		fi.outL[i] = make([]bool, fi.n)
	}
	var ops []*ssa.Value
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			out := fi.outL[bi]
			for _, s := range b.Succs {
				// phi uses on this edge
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						break
					}
				}
				for k, l := range inL[s.Index] {
					if l && !out[k] {
						out[k] = true
						changed = true
					}
				}
				for j, p := range s.Preds {
					if p != b {
						continue
					}
					pi = j
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if k, ok := fi.idx[ph.Edges[pi]]; ok && !out[k] {
							out[k] = true
							changed = true
						}
					}
				}
			}
			cur := append([]bool(nil), out...)
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					cur[fi.idx[v]] = false
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if k, ok := fi.idx[*o]; ok {
						cur[k] = true
					}
				}
			}
			for k, l := range cur {
				if l && !inL[bi][k] {
					inL[bi][k] = true
					changed = true
				}
			}
		}
	}
	// values used by the recover block are always live
	if r := fi.fn.Recover; r != nil {
		for k, l := range inL[r.Index] {
			if l {
				for i := range fi.outL {
					fi.outL[i][k] = true
				}
			}
		}
	}
}

var _ = types.Identical

// forkProfile counts where states forked (development runs only).
var forkProfile map[string]int
