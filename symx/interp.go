package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var _ = strings.Contains

// ---- operand access

func (x *Exec) constVal(k *ssa.Const) Value {
	if v, ok := x.consts[k]; ok {
		return v
	}
	v := x.constVal1(k)
	x.consts[k] = v
	return v
}

func (x *Exec) constVal1(k *ssa.Const) Value {
	if k.Value == nil {
		return x.zero(k.Type())
	}
	if tp, ok := k.Type().(*types.TypeParam); ok {
		x.unsupported("constant of type parameter %s", tp)
	}
	b, ok := k.Type().Underlying().(*types.Basic)
	if !ok {
		x.unsupported("constant of type %s", k.Type())
	}
	if w, sg, ok := intType(b); ok {
		if i, exact := constant.Int64Val(constant.ToInt(k.Value)); exact {
			return x.c.Int(i, w, sg)
		}
		u, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return x.c.Int(int64(u), w, sg)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return StrV{s: constant.StringVal(k.Value)}
		}
		i, _ := constant.Int64Val(k.Value)
		return StrV{s: string(rune(i))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return FloatV(f)
	}
	return OpaqueV{"const " + k.String()}
}

func (x *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Global:
		return PtrV{obj: x.globalObj(st, k)}
	case *ssa.Function:
		return FuncV{fn: k}
	case *ssa.Builtin:
		return FuncV{builtin: k}
	}
	r := f.regs[f.info.idx[v]]
	if r == nil {
		panic(fmt.Sprintf("unset register %s in %s", v.Name(), f.fn))
	}
	return r
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int32 {
	if id, ok := x.globals[g]; ok {
		return id
	}
	// globals discovered after the base snapshot are allocated in a reserved
	// range so that all states agree on their identity.
	if x.baseMax != 0 {
		x.unsupported("global %s outside initialised packages", g)
	}
	id := x.newObj(st, x.zero(g.Type().(*types.Pointer).Elem()))
	x.globals[g] = id
	return id
}

func (x *Exec) num(st *State, f *Frame, v ssa.Value) *Expr {
	r := x.get(st, f, v)
	e, ok := r.(*Expr)
	if !ok {
		x.unsupported("expected integer, have %T", r)
	}
	return e
}

// ---- memory

func (x *Exec) nilDeref() {
	panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
}

func (x *Exec) load(st *State, p PtrV) Value {
	if p.obj == 0 {
		x.nilDeref()
	}
	v := st.heap.get(p.obj)
	if v == nil {
		x.unsupported("dangling object %d", p.obj)
	}
	return x.loadPath(v, p, 0)
}

func (x *Exec) loadPath(v Value, p PtrV, i int) Value {
	for ; i < len(p.path); i++ {
		a, ok := v.(*AggV)
		if !ok {
			if op, ok := v.(OpaqueV); ok {
				x.unsupported("access into %s", op.what)
			}
			panic(fmt.Sprintf("load path through %T", v))
		}
		k := p.path[i]
		if k == -1 {
			var r Value
			// build ite from the last candidate
			for j := int(p.symN) - 1; j >= 0; j-- {
				e := x.loadPath(a.f[int(p.symO)+j], p, i+1)
				if r == nil {
					r = e
					continue
				}
				m, ok := x.iteVal(x.c.Eq(p.sym, x.c.Int(int64(j), p.sym.w, p.sym.sg)), e, r)
				if !ok {
					x.unsupported("symbolic index into non-scalar elements")
				}
				r = m
			}
			return r
		}
		v = a.f[k]
	}
	if a, ok := v.(*AggV); ok {
		a.own = nil
	}
	return v
}

// iteVal merges two values of the same type under a condition without touching
// the heap; fails if they have different shapes.
func (x *Exec) iteVal(c *Expr, a, b Value) (Value, bool) {
	if sameIdent(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *Expr:
		q, ok := b.(*Expr)
		if !ok || p.w != q.w {
			return nil, false
		}
		return x.c.Ite(c, p, q), true
	case StrV:
		q, ok := b.(StrV)
		if !ok || p.Len() != q.Len() {
			return nil, false
		}
		pb, qb := x.c.strBytes(p), x.c.strBytes(q)
		r := make([]*Expr, len(pb))
		for i := range r {
			r[i] = x.c.Ite(c, pb[i], qb[i])
		}
		return mkStr(r), true
	case *AggV:
		q, ok := b.(*AggV)
		if !ok || len(p.f) != len(q.f) {
			return nil, false
		}
		r := &AggV{f: make([]Value, len(p.f))}
		for i := range p.f {
			v, ok := x.iteVal(c, p.f[i], q.f[i])
			if !ok {
				return nil, false
			}
			r.f[i] = v
		}
		return r, true
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok || p.t == nil || q.t == nil || !types.Identical(p.t, q.t) {
			return nil, false
		}
		v, ok := x.iteVal(c, p.v, q.v)
		return IfaceV{p.t, v}, ok
	}
	return nil, false
}

func (x *Exec) store(st *State, p PtrV, v Value) {
	if p.obj == 0 {
		x.nilDeref()
	}
	root := st.heap.get(p.obj)
	if root == nil {
		x.unsupported("dangling object %d", p.obj)
	}
	if len(p.path) == 0 {
		st.heap.set(p.obj, v, st.tok)
		return
	}
	n := x.storePath(st, root, p, 0, v)
	if n != root {
		st.heap.set(p.obj, n, st.tok)
	}
}

func (st *State) ownAgg(a *AggV) *AggV {
	if a.own == st.tok {
		return a
	}
	n := &AggV{own: st.tok, f: append([]Value(nil), a.f...)}
	for _, ch := range n.f {
		if g, ok := ch.(*AggV); ok {
			g.own = nil
		}
	}
	return n
}

func (x *Exec) storePath(st *State, cur Value, p PtrV, i int, v Value) Value {
	if i == len(p.path) {
		return v
	}
	a, ok := cur.(*AggV)
	if !ok {
		x.unsupported("store into %T", cur)
	}
	n := st.ownAgg(a)
	k := p.path[i]
	if k == -1 {
		for j := 0; j < int(p.symN); j++ {
			old := n.f[int(p.symO)+j]
			nv := x.storePath(st, old, PtrV{obj: p.obj, path: p.path, sym: p.sym, symN: p.symN, symO: p.symO}, i+1, v)
			m, ok := x.iteVal(x.c.Eq(p.sym, x.c.Int(int64(j), p.sym.w, p.sym.sg)), nv, old)
			if !ok {
				x.unsupported("symbolic index store into non-scalar elements")
			}
			n.f[int(p.symO)+j] = m
		}
		return n
	}
	n.f[k] = x.storePath(st, n.f[k], p, i+1, v)
	return n
}

// sliceElems returns the elements of a slice (shared, read-only).
func (x *Exec) sliceElems(st *State, s SliceV) []Value {
	if s.len == 0 {
		return nil
	}
	v := x.load(st, s.arr)
	a, ok := v.(*AggV)
	if !ok {
		x.unsupported("slice of %T", v)
	}
	return a.f[s.off : s.off+s.len]
}

func (x *Exec) mkSlice(st *State, elems []Value, capacity int, elemZero func() Value) SliceV {
	f := make([]Value, capacity)
	copy(f, elems)
	for i := len(elems); i < capacity; i++ {
		f[i] = elemZero()
	}
	id := x.newObj(st, &AggV{own: nil, f: f})
	return SliceV{arr: PtrV{obj: id}, len: len(elems), cap: capacity}
}

func (x *Exec) byteSlice(st *State, b []*Expr) SliceV {
	f := make([]Value, len(b))
	for i := range b {
		f[i] = b[i]
	}
	return x.mkSlice(st, f, len(f), func() Value { return x.c.Int(0, 8, false) })
}

func (x *Exec) sliceBytes(st *State, s SliceV) []*Expr {
	el := x.sliceElems(st, s)
	r := make([]*Expr, len(el))
	for i := range el {
		e, ok := el[i].(*Expr)
		if !ok {
			x.unsupported("byte slice of %T", el[i])
		}
		r[i] = e
	}
	return r
}

func (x *Exec) writeElems(st *State, s SliceV, at int, vals []Value) {
	if len(vals) == 0 {
		return
	}
	root := st.heap.get(s.arr.obj)
	var rec func(cur Value, i int) Value
	rec = func(cur Value, i int) Value {
		n := st.ownAgg(cur.(*AggV))
		if i == len(s.arr.path) {
			copy(n.f[s.off+at:], vals)
			for _, v := range vals {
				if g, ok := v.(*AggV); ok {
					g.own = nil
				}
			}
			return n
		}
		k := s.arr.path[i]
		n.f[k] = rec(n.f[k], i+1)
		return n
	}
	nr := rec(root, 0)
	if nr != root {
		st.heap.set(s.arr.obj, nr, st.tok)
	}
}

// growCap mimics the runtime's append growth through a native append.
var growCache = newGrowCache()

func (x *Exec) growCap(elem types.Type, l, c, add int) int {
	size := x.p.sizes.Sizeof(elem)
	ptrs := hasPtr(elem)
	return growCache.get(size, ptrs, l, c, add)
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

// ---- running

func (x *Exec) push(st *State) {
	x.queue = append(x.queue, st)
	// sift up
	i := len(x.queue) - 1
	for i > 0 {
		p := (i - 1) / 2
		if cmpPos(x.queue[i], x.queue[p]) < 0 {
			x.queue[i], x.queue[p] = x.queue[p], x.queue[i]
			i = p
		} else {
			break
		}
	}
	x.MaxQueue = max(x.MaxQueue, len(x.queue))
}

func (x *Exec) pop() *State {
	q := x.queue
	r := q[0]
	n := len(q) - 1
	q[0] = q[n]
	q[n] = nil
	q = q[:n]
	i := 0
	for {
		l, m := 2*i+1, i
		if l < n && cmpPos(q[l], q[m]) < 0 {
			m = l
		}
		if l+1 < n && cmpPos(q[l+1], q[m]) < 0 {
			m = l + 1
		}
		if m == i {
			break
		}
		q[i], q[m] = q[m], q[i]
		i = m
	}
	x.queue = q
	return r
}

// step executes until the path ends or must wait at a merge point.
func (x *Exec) runState(st *State) {
	first := true
	for !st.done {
		stop := x.stepOnce(st)
		if st.done {
			return
		}
		if stop && !first || stop && len(x.queue) > 0 {
			if len(x.queue) > 0 && cmpPos(st, x.queue[0]) >= 0 {
				x.push(st)
				return
			}
		}
		first = false
	}
}

func (x *Exec) endState(st *State, kind, msg string) {
	st.done = true
	x.Paths[kind]++
	x.Ends = append(x.Ends, x.pcList(st))
	if kind == "unsupported" || kind == "budget" || kind == "exit" {
		x.Incon[kind+": "+msg+" @ "+x.where(st)]++
	}
	if kind == "ok" || kind == "panic" {
		x.sampleTrace(st, kind, msg)
	}
}

func (x *Exec) sampleTrace(st *State, kind, msg string) {
	x.traceSeen++
	if len(x.Traces) >= x.maxTraces {
		// keep a spread: replace pseudo-randomly but deterministically
		k := (x.traceSeen * 7919) % (x.traceSeen)
		if k >= x.maxTraces {
			return
		}
	}
	t := Trace{Inputs: x.inputs(st, st.model)}
	for o := st.obs; o != nil; o = o.parent {
		t.Obs = append(t.Obs, ObsVal{o.tag, st.model.Eval(o.v)})
	}
	for i, j := 0, len(t.Obs)-1; i < j; i, j = i+1, j-1 {
		t.Obs[i], t.Obs[j] = t.Obs[j], t.Obs[i]
	}
	if kind == "panic" {
		t.Panic = msg
	}
	if len(x.Traces) < x.maxTraces {
		x.Traces = append(x.Traces, t)
	} else {
		x.Traces[x.traceSeen%x.maxTraces] = t
	}
}

// stepOnce executes one instruction; returns true at a merge point.
func (x *Exec) stepOnce(st *State) (stop bool) {
	x.Steps++
	st.steps++
	f := st.top()
	in := f.block.Instrs[f.pc]
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case endPath:
			x.endState(st, e.kind, e.msg)
		case goPanic:
			st.decided = nil
			x.startPanic(st, e)
		default:
			if os.Getenv("SYMX_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "engine failure in %s at %s: %v (%v)\n", f.fn, x.p.fset.Position(in.Pos()), in, r)
				panic(r)
			}
			x.endState(st, "unsupported", fmt.Sprintf("engine: %v in %v", r, in))
		}
	}()
	if traceSteps {
		fmt.Fprintf(os.Stderr, "[%p] %s %v\n", st, f.fn.Name(), in)
	}
	if x.Steps > x.maxSteps {
		panic(endPath{"budget", "step budget"})
	}
	if st.steps > x.maxPath {
		x.violation(st, st.model, "hang", "does not end")
		panic(endPath{"budget", "path step budget"})
	}
	stop = x.exec(st, f, in)
	if len(st.decided) > 0 {
		st.decided = nil
	}
	return stop
}

func (x *Exec) setReg(f *Frame, v ssa.Value, val Value) {
	f.regs[f.info.idx[v]] = val
}

func (x *Exec) exec(st *State, f *Frame, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		var z Value
		et := i.Type().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && i.Comment == "makeslice" && at.Len() > physSlack {
			a := &AggV{f: make([]Value, physSlack)}
			ez := x.zero(at.Elem())
			for j := range a.f {
				a.f[j] = ez
			}
			z = a
		} else {
			z = x.zero(et)
		}
		id := x.newObj(st, z)
		x.setReg(f, i, PtrV{obj: id})
		f.pc++
	case *ssa.BinOp:
		x.setReg(f, i, x.binop(st, i.Op, i.X.Type(), x.get(st, f, i.X), x.get(st, f, i.Y), i.Y.Type()))
		f.pc++
	case *ssa.UnOp:
		x.setReg(f, i, x.unop(st, i, x.get(st, f, i.X)))
		f.pc++
	case *ssa.Phi:
		// evaluate all phis of the block in parallel
		b := f.block
		pi := -1
		for j, p := range b.Preds {
			if p == f.prev {
				pi = j
			}
		}
		n := 0
		var vals []Value
		for _, in2 := range b.Instrs {
			ph, ok := in2.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, x.get(st, f, ph.Edges[pi]))
			n++
		}
		for j := 0; j < n; j++ {
			x.setReg(f, b.Instrs[j].(*ssa.Phi), vals[j])
		}
		f.pc = n
		return true
	case *ssa.Jump:
		f.setBlock(f.block.Succs[0])
		return x.enter(f)
	case *ssa.If:
		c := x.num(st, f, i.Cond)
		if x.decide(st, c) {
			f.setBlock(f.block.Succs[0])
		} else {
			f.setBlock(f.block.Succs[1])
		}
		return x.enter(f)
	case *ssa.Return:
		var res Value
		switch len(i.Results) {
		case 0:
			res = TupleV{}
		case 1:
			res = x.get(st, f, i.Results[0])
		default:
			t := make(TupleV, len(i.Results))
			for j, r := range i.Results {
				t[j] = x.get(st, f, r)
			}
			res = t
		}
		return x.doReturn(st, res)
	case *ssa.Call:
		return x.call(st, f, i, i.Common(), i)
	case *ssa.Defer:
		fn, args := x.resolve(st, f, i.Common())
		if i.DeferStack != nil {
			x.unsupported("defer in range-over-func body")
		}
		f.defers = append(f.defers, deferred{fn: fn, args: args, call: i.Common()})
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return false
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.invokeDeferred(st, f, d)
		return false
	case *ssa.Go:
		// Only the signal handler of the password prompt starts one: no signal
		// arrives, so it never does anything.
		if simulated {
			f.pc++
			return false
		}
		x.unsupported("go statement")
	case *ssa.MakeChan:
		x.setReg(f, i, PtrV{obj: x.newObj(st, x.zero(types.Typ[types.Int]))})
		f.pc++
	case *ssa.Panic:
		v := x.get(st, f, i.X)
		panic(goPanic{val: v, msg: x.panicString(st, v)})
	case *ssa.ChangeInterface:
		x.setReg(f, i, x.get(st, f, i.X))
		f.pc++
	case *ssa.ChangeType:
		x.setReg(f, i, x.get(st, f, i.X))
		f.pc++
	case *ssa.Convert:
		x.setReg(f, i, x.convert(st, i.X.Type(), i.Type(), x.get(st, f, i.X)))
		f.pc++
	case *ssa.MultiConvert:
		x.setReg(f, i, x.convert(st, i.X.Type(), i.Type(), x.get(st, f, i.X)))
		f.pc++
	case *ssa.Extract:
		x.setReg(f, i, x.get(st, f, i.Tuple).(TupleV)[i.Index])
		f.pc++
	case *ssa.Field:
		a, ok := x.get(st, f, i.X).(*AggV)
		if !ok {
			x.unsupported("field of opaque value")
		}
		v := a.f[i.Field]
		if g, ok := v.(*AggV); ok {
			g.own = nil
		}
		x.setReg(f, i, v)
		f.pc++
	case *ssa.FieldAddr:
		p, ok := x.get(st, f, i.X).(PtrV)
		if !ok {
			x.unsupported("field address of opaque value")
		}
		if p.obj == 0 {
			x.nilDeref()
		}
		x.setReg(f, i, p.child(i.Field))
		f.pc++
	case *ssa.Index:
		x.index(st, f, i)
		f.pc++
	case *ssa.IndexAddr:
		x.indexAddr(st, f, i)
		f.pc++
	case *ssa.Lookup:
		x.lookup(st, f, i)
		f.pc++
	case *ssa.MakeClosure:
		b := make([]Value, len(i.Bindings))
		for j, v := range i.Bindings {
			b[j] = x.get(st, f, v)
		}
		x.setReg(f, i, FuncV{fn: i.Fn.(*ssa.Function), binds: b})
		f.pc++
	case *ssa.MakeInterface:
		x.setReg(f, i, IfaceV{t: i.X.Type(), v: x.get(st, f, i.X)})
		f.pc++
	case *ssa.MakeMap:
		id := x.newObj(st, &MapObj{})
		x.setReg(f, i, MapV{id})
		f.pc++
	case *ssa.MakeSlice:
		l := x.concretize(st, x.num(st, f, i.Len))
		c := x.concretize(st, x.num(st, f, i.Cap))
		if l < 0 || l > 1<<40 {
			panic(goPanic{msg: "runtime error: makeslice: len out of range"})
		}
		if c < l {
			panic(goPanic{msg: "runtime error: makeslice: cap out of range"})
		}
		el := i.Type().Underlying().(*types.Slice).Elem()
		if l > 1<<21 {
			x.unsupported("make slice of %d elements", l)
		}
		z := x.zero(el)
		// unused capacity is materialised on demand (ensurePhys)
		s := x.mkSlice(st, nil, int(min(c, l+physSlack)), func() Value { return z })
		s.len = int(l)
		s.cap = int(c)
		x.setReg(f, i, s)
		f.pc++
	case *ssa.MapUpdate:
		m, ok := x.get(st, f, i.Map).(MapV)
		if !ok {
			x.unsupported("map update of opaque")
		}
		x.mapSet(st, m, x.get(st, f, i.Key), x.get(st, f, i.Value))
		f.pc++
	case *ssa.Range:
		x.rangeInit(st, f, i)
		f.pc++
	case *ssa.Next:
		x.next(st, f, i)
		f.pc++
	case *ssa.Slice:
		x.sliceOp(st, f, i)
		f.pc++
	case *ssa.SliceToArrayPointer:
		s := x.get(st, f, i.X).(SliceV)
		n := int(i.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{msg: fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)})
		}
		if s.off != 0 || n != s.cap {
			// pointer into the middle of an array: supported only as a whole copy for reads
			el := x.sliceElems(st, SliceV{arr: s.arr, off: s.off, len: n, cap: n})
			id := x.newObj(st, &AggV{f: append([]Value(nil), el...)})
			x.setReg(f, i, PtrV{obj: id})
		} else {
			x.setReg(f, i, s.arr)
		}
		f.pc++
	case *ssa.Store:
		p, ok := x.get(st, f, i.Addr).(PtrV)
		if !ok {
			x.unsupported("store through opaque pointer")
		}
		v := x.get(st, f, i.Val)
		if g, ok := v.(*AggV); ok {
			g.own = nil
		}
		x.store(st, p, v)
		f.pc++
	case *ssa.TypeAssert:
		x.typeAssert(st, f, i)
		f.pc++
	default:
		x.unsupported("instruction %T", in)
	}
	return false
}

// enter is called after a block change; phis are executed as an instruction.
func (x *Exec) enter(f *Frame) bool {
	if _, ok := f.block.Instrs[0].(*ssa.Phi); ok {
		return false // Phi instruction itself is the merge point
	}
	return len(f.block.Preds) > 1
}

// ---- calls

func (x *Exec) resolve(st *State, f *Frame, c *ssa.CallCommon) (FuncV, []Value) {
	var args []Value
	var fn FuncV
	if c.IsInvoke() {
		r := x.get(st, f, c.Value)
		iv, ok := r.(IfaceV)
		if !ok {
			x.unsupported("invoke on %T", r)
		}
		if iv.t == nil {
			x.nilDeref()
		}
		m := x.p.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			x.unsupported("method %s of %s", c.Method.Name(), iv.t)
		}
		fn = FuncV{fn: m}
		args = append(args, iv.v)
	} else {
		v := x.get(st, f, c.Value)
		fv, ok := v.(FuncV)
		if !ok {
			x.unsupported("call of %T", v)
		}
		fn = fv
	}
	for _, a := range c.Args {
		args = append(args, x.get(st, f, a))
	}
	return fn, args
}

func (x *Exec) call(st *State, f *Frame, i ssa.CallInstruction, c *ssa.CallCommon, dst ssa.Value) bool {
	fn, args := x.resolve(st, f, c)
	if fn.builtin != nil {
		v := x.builtin(st, f, fn.builtin, args, c)
		if dst != nil {
			x.setReg(f, dst, v)
		}
		f.pc++
		return false
	}
	if fn.fn == nil {
		x.nilDeref()
	}
	if h := x.intrinsic(fn.fn); h != nil {
		v := h(x, st, fn.fn, args)
		if _, ok := v.(switched); ok {
			return true
		}
		f = st.top()
		x.setReg(f, dst, v)
		f.pc++
		return true
	}
	x.pushFrame(st, fn, args)
	return false
}

func (x *Exec) pushFrame(st *State, fv FuncV, args []Value) *Frame {
	fn := fv.fn
	if m := x.p.models[fn.String()]; m != nil {
		fn = m
	}
	if fn.Blocks == nil {
		x.p.build(fn)
		if fn.Blocks == nil {
			x.unsupported("function without body: %s", fn)
		}
	}
	if len(st.frames) > 400 {
		x.unsupported("call depth")
	}
	fi := x.info(fn)
	nf := &Frame{own: st.tok, fn: fn, info: fi, regs: make([]Value, fi.n)}
	for j, p := range fn.Params {
		nf.regs[fi.idx[p]] = args[j]
	}
	for j, p := range fn.FreeVars {
		nf.regs[fi.idx[p]] = fv.binds[j]
	}
	nf.block = nil
	nf.setBlock(fn.Blocks[0])
	nf.prev = nil
	st.frames = append(st.frames, nf)
	fi.count++
	return nf
}

func (x *Exec) invokeDeferred(st *State, f *Frame, d deferred) {
	if d.fn.builtin != nil {
		x.builtin(st, f, d.fn.builtin, d.args, d.call)
		x.afterDefer(st)
		return
	}
	if d.fn.fn == nil {
		x.nilDeref()
	}
	if h := x.intrinsic(d.fn.fn); h != nil {
		h(x, st, d.fn.fn, d.args)
		x.afterDefer(st)
		return
	}
	nf := x.pushFrame(st, d.fn, d.args)
	nf.deferCall = true
}

// afterDefer continues the frame whose deferred call just returned.
func (x *Exec) afterDefer(st *State) {
	f := st.top()
	if !f.unwinding {
		return // RunDefers re-executes
	}
	if st.pan == nil {
		// recovered
		f.recovered = true
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.invokeDeferred(st, f, d)
			return
		}
		f.unwinding = false
		if f.fn.Recover != nil {
			f.setBlock(f.fn.Recover)
			return
		}
		x.doReturn(st, x.zero(f.fn.Signature.Results()))
		return
	}
	x.unwind(st)
}

func (x *Exec) doReturn(st *State, res Value) bool {
	f := st.frames[len(st.frames)-1]
	if len(st.frames) == 1 && x.threadEnd(st) {
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		x.endState(st, "ok", "")
		return true
	}
	if f.initOf != nil {
		return true
	}
	p := st.top()
	if f.deferCall {
		x.afterDefer(st)
		return true
	}
	ci := p.block.Instrs[p.pc]
	if v, ok := ci.(*ssa.Call); ok {
		if t, ok := res.(TupleV); ok && len(t) == 1 {
			res = t[0]
		}
		x.setReg(p, v, res)
	}
	p.pc++
	return true
}

func (x *Exec) startPanic(st *State, e goPanic) {
	if e.val == nil {
		e.val = IfaceV{t: x.p.runtimeErrType(), v: StrV{s: e.msg}}
	}
	st.pan = &panicInfo{val: e.val, msg: e.msg + " @ " + x.where(st)}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case endPath:
			x.endState(st, e.kind, e.msg)
		default:
			panic(r)
		}
	}()
	x.unwind(st)
}

func (x *Exec) unwind(st *State) {
	for {
		f := st.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.unwinding = true
			x.invokeDeferred(st, f, d)
			return
		}
		if len(st.frames) == 1 {
			msg := st.pan.msg
			x.violation(st, st.model, "panic", msg)
			x.endState(st, "panic", msg)
			return
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

func (x *Exec) doRecover(st *State) Value {
	n := len(st.frames)
	if st.pan == nil || n < 2 {
		return IfaceV{}
	}
	f := st.frames[n-1]
	p := st.frames[n-2]
	if !f.deferCall || !p.unwinding {
		return IfaceV{}
	}
	v := st.pan.val
	st.pan = nil
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	return IfaceV{t: types.Typ[types.String], v: StrV{s: "panic"}}
}

func (x *Exec) panicString(st *State, v Value) string {
	iv, ok := v.(IfaceV)
	if !ok || iv.t == nil {
		return "panic(nil)"
	}
	switch a := iv.v.(type) {
	case StrV:
		if a.b == nil {
			return "panic: " + a.s
		}
	}
	return "panic: value of type " + iv.t.String()
}

// ---- builtins

func (x *Exec) builtin(st *State, f *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case StrV:
			return x.c.Int(int64(a.Len()), 64, true)
		case SliceV:
			return x.c.Int(int64(a.len), 64, true)
		case MapV:
			if a.obj == 0 {
				return x.c.Int(0, 64, true)
			}
			return x.c.Int(int64(len(st.heap.get(a.obj).(*MapObj).keys)), 64, true)
		case *AggV:
			return x.c.Int(int64(len(a.f)), 64, true)
		case PtrV:
			t := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return x.c.Int(t.Len(), 64, true)
		}
		x.unsupported("len of %T", args[0])
	case "cap":
		switch a := args[0].(type) {
		case SliceV:
			return x.c.Int(int64(a.cap), 64, true)
		case *AggV:
			return x.c.Int(int64(len(a.f)), 64, true)
		}
		x.unsupported("cap of %T", args[0])
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			x.unsupported("append to %T", args[0])
		}
		var add []Value
		switch a := args[1].(type) {
		case SliceV:
			add = append([]Value(nil), x.sliceElems(st, a)...)
		case StrV:
			for _, e := range x.c.strBytes(a) {
				add = append(add, e)
			}
		default:
			x.unsupported("append of %T", args[1])
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return x.appendVals(st, s, add, et)
	case "close":
		return TupleV{}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch a := args[1].(type) {
		case SliceV:
			src = append([]Value(nil), x.sliceElems(st, a)...)
		case StrV:
			for _, e := range x.c.strBytes(a) {
				src = append(src, e)
			}
		}
		n := min(d.len, len(src))
		x.writeElems(st, d, 0, src[:n])
		return x.c.Int(int64(n), 64, true)
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return TupleV{}
		}
		i := x.mapFind(st, m, args[1])
		if i >= 0 {
			mo := st.heap.get(m.obj).(*MapObj)
			n := &MapObj{}
			n.keys = append(append(n.keys, mo.keys[:i]...), mo.keys[i+1:]...)
			n.vals = append(append(n.vals, mo.vals[:i]...), mo.vals[i+1:]...)
			st.heap.set(m.obj, n, st.tok)
		}
		return TupleV{}
	case "clear":
		switch a := args[0].(type) {
		case MapV:
			if a.obj != 0 {
				st.heap.set(a.obj, &MapObj{}, st.tok)
			}
		case SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := make([]Value, a.len)
			for i := range z {
				z[i] = x.zero(et)
			}
			x.writeElems(st, a, 0, z)
		}
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch p := r.(type) {
			case *Expr:
				q := a.(*Expr)
				lt := x.c.Lt(p, q)
				if b.Name() == "max" {
					lt = x.c.Lt(q, p)
				}
				r = x.c.Ite(lt, p, q)
			case FloatV:
				if b.Name() == "min" {
					r = FloatV(math.Min(float64(p), float64(a.(FloatV))))
				} else {
					r = FloatV(math.Max(float64(p), float64(a.(FloatV))))
				}
			default:
				x.unsupported("min/max of %T", r)
			}
		}
		return r
	case "print", "println":
		return TupleV{}
	case "recover":
		return x.doRecover(st)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			panic(goPanic{msg: "runtime error: value method called using nil pointer"})
		}
		return args[0]
	case "String": // unsafe.String
		p, ok := args[0].(PtrV)
		n := x.concretize(st, args[1].(*Expr))
		if n == 0 {
			return StrV{}
		}
		if ok {
			if len(p.path) > 0 {
				base := PtrV{obj: p.obj, path: p.path[:len(p.path)-1]}
				if a, ok := x.load(st, base).(*AggV); ok {
					k := int(p.path[len(p.path)-1])
					var bs []*Expr
					for _, v := range a.f[k : k+int(n)] {
						bs = append(bs, v.(*Expr))
					}
					return mkStr(bs)
				}
			}
		}
		x.unsupported("unsafe.String")
	case "SliceData":
		s := args[0].(SliceV)
		if s.null || s.cap == 0 {
			return PtrV{}
		}
		return s.arr.child(s.off)
	case "StringData":
		s := args[0].(StrV)
		if s.Len() == 0 {
			return PtrV{}
		}
		sl := x.byteSlice(st, x.c.strBytes(s))
		return sl.arr.child(0)
	case "Slice": // unsafe.Slice
		p, ok := args[0].(PtrV)
		n := x.concretize(st, args[1].(*Expr))
		if ok && p.obj == 0 && n == 0 {
			return SliceV{null: true}
		}
		if ok && len(p.path) > 0 {
			k := int(p.path[len(p.path)-1])
			base := PtrV{obj: p.obj, path: p.path[:len(p.path)-1]}
			if _, ok := x.load(st, base).(*AggV); ok {
				return SliceV{arr: base, off: k, len: int(n), cap: int(n)}
			}
		}
		x.unsupported("unsafe.Slice")
	}
	x.unsupported("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendVals(st *State, s SliceV, add []Value, et types.Type) SliceV {
	if len(add) == 0 {
		return s
	}
	n := s.len + len(add)
	if n <= s.cap {
		r := s
		r.len = n
		x.ensurePhys(st, s.arr, s.off+n, et)
		x.writeElems(st, SliceV{arr: s.arr, off: s.off, len: n, cap: s.cap}, s.len, add)
		return r
	}
	nc := x.growCap(et, s.len, s.cap, len(add))
	vals := make([]Value, 0, n)
	vals = append(vals, x.sliceElems(st, s)...)
	vals = append(vals, add...)
	for _, v := range vals {
		if g, ok := v.(*AggV); ok {
			g.own = nil
		}
	}
	z := x.zero(et)
	r := x.mkSlice(st, vals, min(nc, n+physSlack), func() Value { return z })
	r.cap = nc
	return r
}

const physSlack = 32

// ensurePhys materialises the elements of a backing array up to need.
func (x *Exec) ensurePhys(st *State, p PtrV, need int, et types.Type) {
	if p.obj == 0 || len(p.path) > 0 {
		return
	}
	a, ok := st.heap.get(p.obj).(*AggV)
	if !ok || len(a.f) >= need {
		return
	}
	n := 64
	for n < need {
		n *= 2
	}
	g := &AggV{own: st.tok, f: make([]Value, n)}
	copy(g.f, a.f)
	for _, v := range a.f {
		if c, ok := v.(*AggV); ok {
			c.own = nil
		}
	}
	z := x.zero(et)
	for i := len(a.f); i < n; i++ {
		g.f[i] = z
	}
	st.heap.set(p.obj, g, st.tok)
}

// ---- operators

func (x *Exec) eqVal(st *State, a, b Value) *Expr {
	switch p := a.(type) {
	case *Expr:
		q, ok := b.(*Expr)
		if !ok {
			x.unsupported("compare %T and %T", a, b)
		}
		return x.c.Eq(p, q)
	case FloatV:
		return x.c.Bool(p == b.(FloatV))
	case StrV:
		q := b.(StrV)
		if p.Len() != q.Len() {
			return x.c.False
		}
		if p.b == nil && q.b == nil {
			return x.c.Bool(p.s == q.s)
		}
		pb, qb := x.c.strBytes(p), x.c.strBytes(q)
		cs := make([]*Expr, len(pb))
		for i := range pb {
			cs[i] = x.c.Eq(pb[i], qb[i])
			if cs[i] == x.c.False {
				return x.c.False
			}
		}
		return x.c.And(cs...)
	case PtrV:
		q, ok := b.(PtrV)
		if !ok {
			x.unsupported("compare pointer with %T", b)
		}
		return x.c.Bool(ptrEq(p, q))
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			x.unsupported("compare interface with %T", b)
		}
		if p.t == nil || q.t == nil {
			return x.c.Bool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return x.c.False
		}
		return x.eqVal(st, p.v, q.v)
	case *AggV:
		q := b.(*AggV)
		cs := make([]*Expr, len(p.f))
		for i := range p.f {
			cs[i] = x.eqVal(st, p.f[i], q.f[i])
		}
		return x.c.And(cs...)
	case SliceV:
		q, ok := b.(SliceV)
		if ok && (p.null || q.null) {
			return x.c.Bool(p.null && q.null)
		}
	case MapV:
		q, ok := b.(MapV)
		if ok {
			return x.c.Bool(p.obj == q.obj)
		}
	case FuncV:
		q, ok := b.(FuncV)
		if ok {
			pn, qn := p.fn == nil && p.builtin == nil, q.fn == nil && q.builtin == nil
			if pn || qn {
				return x.c.Bool(pn && qn)
			}
		}
	}
	x.unsupported("compare %T and %T", a, b)
	return nil
}

func (x *Exec) strLess(a, b StrV) *Expr {
	if a.b == nil && b.b == nil {
		return x.c.Bool(a.s < b.s)
	}
	pb, qb := x.c.strBytes(a), x.c.strBytes(b)
	n := min(len(pb), len(qb))
	r := x.c.Bool(len(pb) < len(qb))
	for i := n - 1; i >= 0; i-- {
		r = x.c.Or(x.c.Lt(pb[i], qb[i]), x.c.And(x.c.Eq(pb[i], qb[i]), r))
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	switch op {
	case token.EQL:
		return x.eqVal(st, a, b)
	case token.NEQ:
		return x.c.Not(x.eqVal(st, a, b))
	}
	switch p := a.(type) {
	case *Expr:
		q, ok := b.(*Expr)
		if !ok {
			x.unsupported("binop on %T,%T", a, b)
		}
		if p.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return x.c.And(p, q)
			case token.OR, token.LOR:
				return x.c.Or(p, q)
			case token.XOR:
				return x.c.Not(x.c.Eq(p, q))
			}
		}
		switch op {
		case token.ADD:
			return x.c.Add(p, q)
		case token.SUB:
			return x.c.Sub(p, q)
		case token.MUL:
			return x.c.Mul(p, q)
		case token.QUO, token.REM:
			if x.decide(st, x.c.Eq(q, x.c.Int(0, q.w, q.sg))) {
				panic(goPanic{msg: "runtime error: integer divide by zero"})
			}
			if !q.isConst() && !q.top && q.hi-q.lo <= 64 {
				q = x.c.Int(x.concretize(st, q), q.w, q.sg)
			}
			if op == token.QUO {
				return x.c.Quo(p, q)
			}
			return x.c.Rem(p, q)
		case token.AND:
			return x.c.AndB(p, q)
		case token.OR:
			return x.c.OrB(p, q)
		case token.XOR:
			return x.c.XorB(p, q)
		case token.AND_NOT:
			return x.c.AndB(p, x.c.BitNot(q))
		case token.SHL, token.SHR:
			if q.sg && x.decide(st, x.c.Lt(q, x.c.Int(0, q.w, q.sg))) {
				panic(goPanic{msg: "runtime error: negative shift amount"})
			}
			if !q.isConst() {
				if !q.top && q.hi-q.lo <= 128 {
					q = x.c.Int(x.concretize(st, q), q.w, q.sg)
				} else {
					x.unsupported("wide symbolic shift count")
				}
			}
			n := q.k
			if n < 0 || n > 64 {
				n = 64
			}
			cnt := x.c.Int(n, p.w, p.sg)
			if p.w == 8 && p.sg && n > 127 {
				cnt = x.c.Int(64, p.w, p.sg)
			}
			if op == token.SHL {
				return x.c.Shl(p, cnt)
			}
			return x.c.Shr(p, cnt)
		case token.LSS:
			return x.c.Lt(p, q)
		case token.LEQ:
			return x.c.Le(p, q)
		case token.GTR:
			return x.c.Lt(q, p)
		case token.GEQ:
			return x.c.Le(q, p)
		}
	case FloatV:
		q, ok := b.(FloatV)
		if !ok {
			x.unsupported("float op on %T", b)
		}
		var r float64
		switch op {
		case token.ADD:
			r = float64(p + q)
		case token.SUB:
			r = float64(p - q)
		case token.MUL:
			r = float64(p * q)
		case token.QUO:
			r = float64(p / q)
		case token.LSS:
			return x.c.Bool(p < q)
		case token.LEQ:
			return x.c.Bool(p <= q)
		case token.GTR:
			return x.c.Bool(p > q)
		case token.GEQ:
			return x.c.Bool(p >= q)
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return FloatV(r)
	case StrV:
		q := b.(StrV)
		switch op {
		case token.ADD:
			if p.b == nil && q.b == nil {
				return StrV{s: p.s + q.s}
			}
			return mkStr(append(append([]*Expr{}, x.c.strBytes(p)...), x.c.strBytes(q)...))
		case token.LSS:
			return x.strLess(p, q)
		case token.GTR:
			return x.strLess(q, p)
		case token.LEQ:
			return x.c.Not(x.strLess(q, p))
		case token.GEQ:
			return x.c.Not(x.strLess(p, q))
		}
	}
	x.unsupported("binop %s on %T", op, a)
	return nil
}

func (x *Exec) unop(st *State, i *ssa.UnOp, v Value) Value {
	switch i.Op {
	case token.MUL: // load
		p, ok := v.(PtrV)
		if !ok {
			x.unsupported("load through %T", v)
		}
		if g, ok := i.X.(*ssa.Global); ok {
			x.checkPoison(st, g)
		}
		return x.load(st, p)
	case token.NOT:
		return x.c.Not(v.(*Expr))
	case token.SUB:
		switch a := v.(type) {
		case *Expr:
			return x.c.Neg(a)
		case FloatV:
			return -a
		}
	case token.XOR:
		return x.c.BitNot(v.(*Expr))
	}
	x.unsupported("unop %s", i.Op)
	return nil
}

func (x *Exec) checkPoison(st *State, g *ssa.Global) {
	if x.baseMax == 0 || g.Pkg == nil {
		return
	}
	if !x.inited[g.Pkg] && !x.p.allowGlobal[g.String()] {
		// a variable the harness itself has set is fine
		if id, ok := x.globals[g]; ok {
			if i, ok := st.heap.get(id).(IfaceV); ok && i.t != nil {
				return
			}
		}
		x.unsupported("global %s of package %s which was not initialised (%s)", g.Name(), g.Pkg.Pkg.Path(), x.poison[g.Pkg])
	}
}

// ---- conversions

func (x *Exec) convert(st *State, from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if w, sg, ok := intType(to); ok {
		switch a := v.(type) {
		case *Expr:
			return x.c.Conv(a, w, sg)
		case FloatV:
			if w == 64 && !sg {
				return x.c.Int(int64(uint64(a)), w, sg)
			}
			return x.c.Int(int64(a), w, sg)
		case PtrV:
			x.unsupported("pointer to integer conversion")
		}
	}
	if b, ok := tu.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			switch a := v.(type) {
			case FloatV:
				if b.Kind() == types.Float32 {
					return FloatV(float64(float32(a)))
				}
				return a
			case *Expr:
				k := x.concretize(st, a)
				if !a.sg && a.w == 64 {
					return FloatV(float64(uint64(k)))
				}
				return FloatV(float64(k))
			}
		case b.Info()&types.IsString != 0:
			switch a := v.(type) {
			case StrV:
				return a
			case *Expr:
				if a.isConst() {
					if a.k < 0 || a.k > utf8.MaxRune {
						return StrV{s: "\uFFFD"}
					}
					return StrV{s: string(rune(a.k))}
				}
				return mkStr(x.encodeRune(st, a, nil))
			case SliceV:
				el := fu.(*types.Slice).Elem()
				if w, _, _ := intType(el); w == 8 {
					return mkStr(x.sliceBytes(st, a))
				}
				var out []*Expr
				for _, r := range x.sliceElems(st, a) {
					out = x.encodeRune(st, r.(*Expr), out)
				}
				return mkStr(out)
			}
		case b.Kind() == types.UnsafePointer:
			return v
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			if w, _, _ := intType(sl.Elem()); w == 8 {
				r := x.byteSlice(st, x.c.strBytes(s))
				return r
			}
			bs := x.c.strBytes(s)
			var out []Value
			for len(bs) > 0 {
				r, n := x.decodeRune(st, bs)
				out = append(out, r)
				bs = bs[n:]
			}
			return x.mkSlice(st, out, len(out), nil)
		}
		return v
	}
	if _, ok := tu.(*types.Array); ok {
		if s, ok := v.(SliceV); ok {
			n := int(tu.(*types.Array).Len())
			if s.len < n {
				panic(goPanic{msg: fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)})
			}
			s.len = n
			return &AggV{f: append([]Value(nil), x.sliceElems(st, s)...)}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if p, ok := v.(PtrV); ok {
			if _, isUns := fu.(*types.Basic); isUns {
				// unsafe.Pointer -> *T: only sound when the object layout matches
				return p
			}
			return p
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	x.unsupported("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) encodeRune(st *State, r *Expr, out []*Expr) []*Expr {
	c := x.c
	k := func(v int64) *Expr { return c.Int(v, r.w, r.sg) }
	by := func(e *Expr) *Expr { return c.Conv(e, 8, false) }
	if r.isConst() {
		var s string
		if r.k < 0 || r.k > utf8.MaxRune {
			s = "\uFFFD"
		} else {
			s = string(rune(r.k))
		}
		for i := 0; i < len(s); i++ {
			out = append(out, c.Int(int64(s[i]), 8, false))
		}
		return out
	}
	bad := func() []*Expr {
		return append(out, c.Int(0xEF, 8, false), c.Int(0xBF, 8, false), c.Int(0xBD, 8, false))
	}
	if x.decide(st, c.Lt(r, k(0))) {
		return bad()
	}
	if x.decide(st, c.Lt(r, k(0x80))) {
		return append(out, by(r))
	}
	sh := func(n int64) *Expr { return c.ediv(r, 1<<uint(n)) }
	lo := func(e *Expr) *Expr { return by(c.Add(c.emod(e, 64), k(0x80))) }
	if x.decide(st, c.Lt(r, k(0x800))) {
		return append(out, by(c.Add(sh(6), k(0xC0))), lo(r))
	}
	if x.decide(st, c.And(c.Le(k(0xD800), r), c.Le(r, k(0xDFFF)))) {
		return bad()
	}
	if x.decide(st, c.Lt(r, k(0x10000))) {
		return append(out, by(c.Add(sh(12), k(0xE0))), lo(sh(6)), lo(r))
	}
	if x.decide(st, c.Le(r, k(0x10FFFF))) {
		return append(out, by(c.Add(sh(18), k(0xF0))), lo(sh(12)), lo(sh(6)), lo(r))
	}
	return bad()
}

func (x *Exec) decodeRune(st *State, b []*Expr) (*Expr, int) {
	c := x.c
	allConst := true
	for i := 0; i < len(b) && i < 4; i++ {
		if !b[i].isConst() {
			allConst = false
		}
		if i == 0 && b[0].isConst() && b[0].k < 0x80 {
			return c.Int(b[0].k, 32, true), 1
		}
	}
	if allConst {
		var raw []byte
		for i := 0; i < len(b) && i < 4; i++ {
			raw = append(raw, byte(b[i].k))
		}
		r, n := utf8.DecodeRune(raw)
		return c.Int(int64(r), 32, true), n
	}
	r32 := func(e *Expr) *Expr { return c.Conv(e, 32, true) }
	k := func(v int64) *Expr { return c.Int(v, 8, false) }
	k32 := func(v int64) *Expr { return c.Int(v, 32, true) }
	bad := k32(0xFFFD)
	rng := func(e *Expr, lo, hi int64) bool {
		return x.decide(st, c.And(c.Le(k(lo), e), c.Le(e, k(hi))))
	}
	b0 := b[0]
	if x.decide(st, c.Lt(b0, k(0x80))) {
		return r32(b0), 1
	}
	low := func(e *Expr) *Expr { return c.Sub(r32(e), k32(0x80)) }
	if rng(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !rng(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		return c.Add(c.Mul(c.Sub(r32(b0), k32(0xC0)), k32(64)), low(b[1])), 2
	}
	if rng(b0, 0xE0, 0xEF) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := int64(0x80), int64(0xBF)
		if x.decide(st, c.Eq(b0, k(0xE0))) {
			lo = 0xA0
		} else if x.decide(st, c.Eq(b0, k(0xED))) {
			hi = 0x9F
		}
		if !rng(b[1], lo, hi) || len(b) < 3 || !rng(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		r := c.Add(c.Mul(c.Sub(r32(b0), k32(0xE0)), k32(4096)), c.Add(c.Mul(low(b[1]), k32(64)), low(b[2])))
		return r, 3
	}
	if rng(b0, 0xF0, 0xF4) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := int64(0x80), int64(0xBF)
		if x.decide(st, c.Eq(b0, k(0xF0))) {
			lo = 0x90
		} else if x.decide(st, c.Eq(b0, k(0xF4))) {
			hi = 0x8F
		}
		if !rng(b[1], lo, hi) || len(b) < 3 || !rng(b[2], 0x80, 0xBF) || len(b) < 4 || !rng(b[3], 0x80, 0xBF) {
			return bad, 1
		}
		r := c.Add(c.Mul(c.Sub(r32(b0), k32(0xF0)), k32(262144)), c.Add(c.Mul(low(b[1]), k32(4096)), c.Add(c.Mul(low(b[2]), k32(64)), low(b[3]))))
		return r, 4
	}
	return bad, 1
}

// ---- indexing

// checkIndex panics (on one path) when idx is outside [0,n).
func (x *Exec) checkIndex(st *State, idx *Expr, n int) {
	c := x.c
	z := c.Int(0, idx.w, idx.sg)
	var in *Expr
	if fits(int64(n), int64(n), idx.w, idx.sg) {
		in = c.And(c.Le(z, idx), c.Lt(idx, c.Int(int64(n), idx.w, idx.sg)))
	} else {
		in = c.Le(z, idx)
	}
	if !x.decide(st, in) {
		ix := "?"
		if idx.isConst() {
			ix = fmt.Sprint(idx.k)
		}
		panic(goPanic{msg: fmt.Sprintf("runtime error: index out of range [%s] with length %d", ix, n)})
	}
}

// narrowIndex returns the candidate range of a symbolic index known to be in [0,n).
func narrowIndex(idx *Expr, n int) (lo, cnt int) {
	l, h := int64(0), int64(n-1)
	if !idx.top {
		l = max(l, idx.lo)
		h = min(h, idx.hi)
	}
	return int(l), int(h - l + 1)
}

func (x *Exec) selectElem(st *State, elems []Value, idx *Expr) Value {
	if idx.isConst() {
		return elems[idx.k]
	}
	lo, cnt := narrowIndex(idx, len(elems))
	if cnt > 300 {
		x.unsupported("symbolic index over %d elements", cnt)
	}
	// affine table: elem[i] == elem[lo] + (i-lo)
	if cnt > 2 {
		aff := true
		var e0 *Expr
		for j := 0; j < cnt; j++ {
			e, ok := elems[lo+j].(*Expr)
			if !ok || !e.isConst() || e.w == 0 || e.top {
				aff = false
				break
			}
			if j == 0 {
				e0 = e
			} else if e.k != e0.k+int64(j) {
				aff = false
				break
			}
		}
		if aff {
			d := x.c.Conv(x.c.Sub(idx, x.c.Int(int64(lo), idx.w, idx.sg)), e0.w, e0.sg)
			return x.c.Add(d, e0)
		}
	}
	// constant-leaf index: map directly
	if x.c.constLeaf(idx) {
		ok := true
		for j := 0; j < cnt; j++ {
			if _, is := elems[lo+j].(*Expr); !is {
				ok = false
				break
			}
		}
		if ok {
			memo := map[*Expr]*Expr{}
			var rec func(e *Expr) *Expr
			rec = func(e *Expr) *Expr {
				if r, ok := memo[e]; ok {
					return r
				}
				var r *Expr
				if e.op == OpConst {
					k := e.k
					if k < 0 || k >= int64(len(elems)) {
						k = int64(lo)
					}
					r = elems[k].(*Expr)
				} else if e.tv != nil {
					r = x.selectTable(e, elems, lo)
				} else if e.op == OpCase {
					r = x.selectCase(e, elems, lo, rec)
				} else {
					r = x.c.Ite(e.args[0], rec(e.args[1]), rec(e.args[2]))
				}
				memo[e] = r
				return r
			}
			return rec(idx)
		}
	}
	var r Value
	for j := cnt - 1; j >= 0; j-- {
		e := elems[lo+j]
		if r == nil {
			r = e
			continue
		}
		m, ok := x.iteVal(x.c.Eq(idx, x.c.Int(int64(lo+j), idx.w, idx.sg)), e, r)
		if !ok {
			// elements are not scalars: fork over the index
			return elems[x.concretize(st, idx)]
		}
		r = m
	}
	return r
}

func (x *Exec) index(st *State, f *Frame, i *ssa.Index) {
	idx := x.num(st, f, i.Index)
	switch a := x.get(st, f, i.X).(type) {
	case StrV:
		x.checkIndex(st, idx, a.Len())
		if idx.isConst() && a.b == nil {
			x.setReg(f, i, x.c.Int(int64(a.s[idx.k]), 8, false))
			return
		}
		bs := x.c.strBytes(a)
		vs := make([]Value, len(bs))
		for j := range bs {
			vs[j] = bs[j]
		}
		x.setReg(f, i, x.selectElem(st, vs, idx))
	case *AggV:
		x.checkIndex(st, idx, len(a.f))
		v := x.selectElem(st, a.f, idx)
		if g, ok := v.(*AggV); ok {
			g.own = nil
		}
		x.setReg(f, i, v)
	default:
		x.unsupported("index of %T", a)
	}
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) {
	idx := x.num(st, f, i.Index)
	var base PtrV
	off, n := 0, 0
	switch a := x.get(st, f, i.X).(type) {
	case SliceV:
		base, off, n = a.arr, a.off, a.len
	case PtrV:
		if a.obj == 0 {
			x.nilDeref()
		}
		base = a
		n = int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	default:
		x.unsupported("index address of %T", a)
	}
	x.checkIndex(st, idx, n)
	if idx.isConst() {
		x.setReg(f, i, base.child(off+int(idx.k)))
		return
	}
	lo, cnt := narrowIndex(idx, n)
	onlyLoads := true
	for _, r := range *i.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				onlyLoads = false
			}
		}
	}
	if cnt > 300 || base.sym != nil {
		x.setReg(f, i, base.child(off+int(x.concretize(st, idx))))
		return
	}
	if onlyLoads {
		// precompute the selected element: a fresh cell holding it
		el := x.load(st, base).(*AggV).f[off : off+n]
		if _, ok := el[0].(*Expr); ok {
			v := x.selectElem(st, el, idx)
			id := x.newObj(st, v)
			x.setReg(f, i, PtrV{obj: id})
			return
		}
		// fork over the distinct elements only
		x.setReg(f, i, base.child(off+x.pickElem(st, el, idx, lo, cnt)))
		return
	}
	et := i.Type().(*types.Pointer).Elem()
	if _, ok := et.Underlying().(*types.Basic); !ok {
		x.setReg(f, i, base.child(off+int(x.concretize(st, idx))))
		return
	}
	p := base.child(-1)
	p.path[len(p.path)-1] = -1
	p.sym = x.c.Sub(idx, x.c.Int(int64(lo), idx.w, idx.sg))
	p.symN = int32(cnt)
	p.symO = int32(off + lo)
	x.setReg(f, i, p)
}

func (x *Exec) sliceOp(st *State, f *Frame, i *ssa.Slice) {
	opt := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return int(x.concretize(st, x.num(st, f, v)))
	}
	switch a := x.get(st, f, i.X).(type) {
	case StrV:
		lo, hi := opt(i.Low, 0), opt(i.High, a.Len())
		if hi < 0 || hi > a.Len() || lo < 0 || lo > hi {
			panic(goPanic{msg: fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, a.Len())})
		}
		if a.b == nil {
			x.setReg(f, i, StrV{s: a.s[lo:hi]})
		} else {
			x.setReg(f, i, mkStr(a.b[lo:hi]))
		}
	case SliceV:
		lo, hi := opt(i.Low, 0), opt(i.High, a.len)
		mx := opt(i.Max, a.cap)
		if hi < 0 || hi > mx || mx > a.cap || lo < 0 || lo > hi {
			panic(goPanic{msg: fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, a.cap)})
		}
		if hi > a.len && a.arr.obj != 0 {
			x.ensurePhys(st, a.arr, a.off+hi, i.X.Type().Underlying().(*types.Slice).Elem())
		}
		x.setReg(f, i, SliceV{arr: a.arr, off: a.off + lo, len: hi - lo, cap: mx - lo, null: a.null})
	case PtrV:
		if a.obj == 0 {
			x.nilDeref()
		}
		n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi := opt(i.Low, 0), opt(i.High, n)
		mx := opt(i.Max, n)
		if hi < 0 || hi > mx || mx > n || lo < 0 || lo > hi {
			panic(goPanic{msg: "runtime error: slice bounds out of range"})
		}
		x.ensurePhys(st, a, hi, i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem())
		x.setReg(f, i, SliceV{arr: a, off: lo, len: hi - lo, cap: mx - lo})
	default:
		x.unsupported("slice of %T", a)
	}
}

// ---- maps

func (x *Exec) mapFind(st *State, m MapV, key Value) int {
	mo := st.heap.get(m.obj).(*MapObj)
	for i := range mo.keys {
		e := x.eqVal(st, mo.keys[i], key)
		if e == x.c.False {
			continue
		}
		if x.decide(st, e) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapSet(st *State, m MapV, k, v Value) {
	if m.obj == 0 {
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	i := x.mapFind(st, m, k)
	mo := st.heap.get(m.obj).(*MapObj)
	n := mo
	if mo.own != st.tok {
		n = &MapObj{own: st.tok, keys: append([]Value(nil), mo.keys...), vals: append([]Value(nil), mo.vals...)}
	}
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	if n != mo {
		st.heap.set(m.obj, n, st.tok)
	}
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) {
	switch a := x.get(st, f, i.X).(type) {
	case MapV:
		vt := i.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		found := false
		if a.obj != 0 {
			if j := x.mapFind(st, a, x.get(st, f, i.Index)); j >= 0 {
				v = st.heap.get(a.obj).(*MapObj).vals[j]
				found = true
			}
		}
		if v == nil {
			v = x.zero(vt)
		}
		if i.CommaOk {
			x.setReg(f, i, TupleV{v, x.c.Bool(found)})
		} else {
			x.setReg(f, i, v)
		}
	case StrV:
		idx := x.num(st, f, i.Index)
		x.checkIndex(st, idx, a.Len())
		bs := x.c.strBytes(a)
		vs := make([]Value, len(bs))
		for j := range bs {
			vs[j] = bs[j]
		}
		x.setReg(f, i, x.selectElem(st, vs, idx))
	default:
		x.unsupported("lookup in %T", a)
	}
}

func (x *Exec) rangeInit(st *State, f *Frame, i *ssa.Range) {
	it := IterV{}
	switch a := x.get(st, f, i.X).(type) {
	case MapV:
		it.m = a.obj
		if a.obj != 0 {
			it.keys = append([]Value(nil), st.heap.get(a.obj).(*MapObj).keys...)
		}
	case StrV:
		it.isStr = true
		it.str = a
	default:
		x.unsupported("range over %T", a)
	}
	it.obj = x.newObj(st, x.c.Int(0, 64, true))
	x.setReg(f, i, it)
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) {
	it := x.get(st, f, i.Iter).(IterV)
	pos := int(st.heap.get(it.obj).(*Expr).k)
	if it.isStr {
		if pos >= it.str.Len() {
			x.setReg(f, i, TupleV{x.c.False, x.c.Int(0, 64, true), x.c.Int(0, 32, true)})
			return
		}
		r, n := x.decodeRune(st, x.c.strBytes(it.str)[pos:])
		st.heap.set(it.obj, x.c.Int(int64(pos+n), 64, true), st.tok)
		x.setReg(f, i, TupleV{x.c.True, x.c.Int(int64(pos), 64, true), r})
		return
	}
	for pos < len(it.keys) {
		// skip keys deleted meanwhile
		j := x.mapFind(st, MapV{it.m}, it.keys[pos])
		if j >= 0 {
			st.heap.set(it.obj, x.c.Int(int64(pos+1), 64, true), st.tok)
			x.setReg(f, i, TupleV{x.c.True, it.keys[pos], st.heap.get(it.m).(*MapObj).vals[j]})
			return
		}
		pos++
	}
	tt := i.Type().(*types.Tuple)
	zk, zv := Value(OpaqueV{"unused"}), Value(OpaqueV{"unused"})
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = x.zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = x.zero(tt.At(2).Type())
	}
	x.setReg(f, i, TupleV{x.c.False, zk, zv})
}

// ---- type assertions

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) {
	r := x.get(st, f, i.X)
	iv, ok := r.(IfaceV)
	if !ok {
		x.unsupported("type assertion on %T", r)
	}
	holds := false
	var v Value
	if iv.t != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			holds = types.Implements(iv.t, it)
			v = iv
		} else {
			holds = types.Identical(iv.t, i.AssertedType)
			v = iv.v
		}
	}
	if !holds {
		if !i.CommaOk {
			panic(goPanic{msg: fmt.Sprintf("interface conversion: not %s", i.AssertedType)})
		}
		x.setReg(f, i, TupleV{x.zero(i.AssertedType), x.c.False})
		return
	}
	if i.CommaOk {
		x.setReg(f, i, TupleV{v, x.c.True})
	} else {
		x.setReg(f, i, v)
	}
}

// ---- growth oracle

type growKey struct {
	size      int64
	ptrs      bool
	l, c, add int
}

type growC struct {
	mu chan struct{}
	m  map[growKey]int
}

func newGrowCache() *growC {
	g := &growC{mu: make(chan struct{}, 1), m: map[growKey]int{}}
	return g
}

func (g *growC) get(size int64, ptrs bool, l, c, add int) int {
	k := growKey{size, ptrs, l, c, add}
	g.mu <- struct{}{}
	defer func() { <-g.mu }()
	if r, ok := g.m[k]; ok {
		return r
	}
	var et reflect.Type
	if ptrs && size >= 8 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf(unsafe.Pointer(nil)))
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), l, c)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(et), add, add))
	g.m[k] = s.Cap()
	return s.Cap()
}

var traceSteps = os.Getenv("SYMX_STEP") != ""

// selectTable reads elems at an index over one small variable.
func (x *Exec) selectTable(e *Expr, elems []Value, lo int) *Expr {
	c := x.c
	v := c.all[e.sup[0]]
	pick := func(k int64) *Expr {
		if k < 0 || k >= int64(len(elems)) {
			k = int64(lo)
		}
		return elems[k].(*Expr)
	}
	consts := true
	t := make([]int64, len(e.tv))
	w := pick(e.tv[0])
	groups := map[*Expr][]int{}
	var order []*Expr
	for i, k := range e.tv {
		y := pick(k)
		if !y.isConst() || y.top {
			consts = false
		} else {
			t[i] = y.k
		}
		if groups[y] == nil {
			order = append(order, y)
		}
		groups[y] = append(groups[y], i)
	}
	if consts {
		return c.fromTable(t, v, w.w, w.sg)
	}
	r := order[len(order)-1]
	for n := len(order) - 2; n >= 0; n-- {
		s := make([]int64, len(e.tv))
		for _, i := range groups[order[n]] {
			s[i] = 1
		}
		r = c.Ite(c.fromTable(s, v, 0, false), order[n], r)
	}
	return r
}

// selectCase reads elems at an index given by a decision diagram.
func (x *Exec) selectCase(e *Expr, elems []Value, lo int, rec func(*Expr) *Expr) *Expr {
	c := x.c
	r := rec(e.args[len(e.args)-1])
	for n := len(e.args) - 3; n >= 0; n-- {
		t := make([]int64, len(e.coefs))
		for i, k := range e.coefs {
			t[i] = b2i(k == int64(n))
		}
		r = c.Ite(c.fromTable(t, e.args[0], 0, false), rec(e.args[1+n]), r)
	}
	return r
}

// pickElem returns an index whose element is the one at idx.
func (x *Exec) pickElem(st *State, el []Value, idx *Expr, lo, cnt int) int {
	c := x.c
	var reps []int
	conds := map[int]*Expr{}
	for j := lo; j < lo+cnt; j++ {
		at := c.Eq(idx, c.Int(int64(j), idx.w, idx.sg))
		if at == c.False {
			continue
		}
		rep := -1
		for _, r := range reps {
			if sameIdent(el[r], el[j]) {
				rep = r
				break
			}
		}
		if rep < 0 {
			if len(reps) > 40 {
				return int(x.concretize(st, idx))
			}
			reps = append(reps, j)
			conds[j] = at
			continue
		}
		conds[rep] = c.Or(conds[rep], at)
	}
	for k, r := range reps {
		if k == len(reps)-1 || x.decide(st, conds[r]) {
			return r
		}
	}
	return int(x.concretize(st, idx))
}
