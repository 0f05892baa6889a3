package main

import (
	"fmt"
	"go/types"
	"os"
)

// sigger computes a canonical shape hash of a state: control position is the
// same for all candidates, so only data matters. Symbolic leaves and rune/byte
// constants are wild cards.
type sigger struct {
	x    *Exec
	st   *State
	h    uint64
	num  map[int32]int
	todo []int32
}

func (g *sigger) add(v uint64) { g.h = mix(g.h, v) }

func (g *sigger) obj(id int32) {
	if id == 0 {
		g.add(0)
		return
	}
	if id < g.x.baseMax {
		g.add(uint64(id) + 1<<40)
		return
	}
	n, ok := g.num[id]
	if !ok {
		n = len(g.num) + 1
		g.num[id] = n
		g.todo = append(g.todo, id)
	}
	g.add(uint64(n))
}

func wild(e *Expr) bool {
	return !e.isConst() || e.w == 32 && e.sg || e.w == 8
}

func (g *sigger) val(v Value) {
	switch a := v.(type) {
	case nil:
		g.add(1)
	case *Expr:
		if wild(a) {
			g.add(uint64(a.w) + 2)
		} else {
			g.add(uint64(a.w) + 1000)
			g.add(uint64(a.k))
		}
	case FloatV:
		g.add(3)
		g.add(uint64(int64(float64(a) * 1024)))
	case StrV:
		g.add(4)
		g.add(uint64(a.Len()))
	case PtrV:
		g.add(5)
		g.obj(a.obj)
		for _, p := range a.path {
			g.add(uint64(p))
		}
	case SliceV:
		g.add(6)
		g.add(uint64(a.off)<<40 | uint64(a.len)<<20 | uint64(a.cap))
		g.add(uint64(b2i(a.null)))
		g.val(a.arr)
	case *AggV:
		g.add(7)
		for _, f := range a.f {
			g.val(f)
		}
	case IfaceV:
		g.add(8)
		if a.t != nil {
			g.add(uint64(len(a.t.String())))
			g.val(a.v)
		}
	case FuncV:
		g.add(9)
		for _, b := range a.binds {
			g.val(b)
		}
	case MapV:
		g.add(10)
		g.obj(a.obj)
	case *MapObj:
		g.add(11)
		g.add(uint64(len(a.keys)))
		for i := range a.keys {
			g.val(a.keys[i])
			g.val(a.vals[i])
		}
	case TupleV:
		for _, f := range a {
			g.val(f)
		}
	case IterV:
		g.add(12)
		g.obj(a.obj)
	default:
		g.add(13)
	}
}

func (x *Exec) signature(st *State) uint64 {
	g := &sigger{x: x, st: st, num: map[int32]int{}, h: 99}
	for fi, f := range st.frames {
		for _, k := range x.liveRegs(st, fi) {
			g.val(f.regs[k])
		}
		for _, d := range f.defers {
			g.val(d.fn)
			for _, a := range d.args {
				g.val(a)
			}
		}
		g.add(uint64(b2i(f.unwinding)) | uint64(b2i(f.recovered))<<1)
	}
	var mods []int32
	diffIDs(x.base.root, st.heap.root, hLevels-1, 0, x.baseMax, &mods)
	for _, id := range mods {
		g.add(uint64(id))
		g.val(st.heap.get(id))
	}
	for len(g.todo) > 0 {
		id := g.todo[0]
		g.todo = g.todo[1:]
		g.val(st.heap.get(id))
	}
	if st.pan != nil {
		g.add(77)
	}
	return g.h
}

// liveRegs lists the live registers of frame fi: for the top frame before its
// current instruction, for the others after their call returns.
func (x *Exec) liveRegs(st *State, fi int) []int {
	f := st.frames[fi]
	if fi == len(st.frames)-1 {
		return f.info.liveAt(f.block, f.pc)
	}
	if f.unwinding {
		return f.info.liveAt(f.block, f.pc)
	}
	if f.pc+1 <= len(f.block.Instrs) {
		l := f.info.liveAt(f.block, f.pc+1)
		// the call's own result is assigned on return: exclude it
		if v, ok := f.block.Instrs[f.pc].(interface{ Name() string }); ok {
			_ = v
		}
		out := make([]int, 0, len(l))
		self := -1
		if cv, ok := ssaValue(f.block.Instrs[f.pc]); ok {
			self = f.info.idx[cv]
		}
		for _, k := range l {
			if k != self {
				out = append(out, k)
			}
		}
		return out
	}
	return nil
}

type merger struct {
	x        *Exec
	a, b     *State
	cond     *Expr // true: state a
	ab, ba   map[int32]int32
	todo     [][2]int32
	why      string
	heap     Heap
	tok      *token_t
	modified map[int32]bool
}

func (m *merger) fail(f string, a ...any) bool {
	if m.why == "" {
		m.why = fmt.Sprintf(f, a...)
	}
	return false
}

func (m *merger) pair(p, q int32) bool {
	if p == 0 || q == 0 {
		return p == q || m.fail("nil vs object")
	}
	if p < m.x.baseMax || q < m.x.baseMax {
		return p == q || m.fail("different base objects")
	}
	if r, ok := m.ab[p]; ok {
		return r == q || m.fail("aliasing")
	}
	if _, ok := m.ba[q]; ok {
		return m.fail("aliasing")
	}
	m.ab[p] = q
	m.ba[q] = p
	m.todo = append(m.todo, [2]int32{p, q})
	return true
}

func (m *merger) val(a, b Value) (Value, bool) {
	switch p := a.(type) {
	case nil:
		return nil, b == nil || m.fail("nil value")
	case *Expr:
		q, ok := b.(*Expr)
		if !ok {
			return nil, m.fail("kind")
		}
		if p == q {
			return p, true
		}
		if p.w != q.w || p.sg != q.sg {
			return nil, m.fail("width")
		}
		if p.isConst() && q.isConst() && !wild(p) {
			return nil, m.fail("concrete %d/%d", p.k, q.k)
		}
		if (p.isConst() || q.isConst()) && !(wild(p) && wild(q)) && p.w == 64 {
			return nil, m.fail("concrete/symbolic int")
		}
		r := m.x.c.Ite(m.cond, p, q)
		if r.op == OpIte && hasMod(r.args[1]) && hasMod(r.args[2]) {
			return nil, m.fail("unlike residues")
		}
		return r, true
	case FloatV:
		q, ok := b.(FloatV)
		return p, ok && p == q || m.fail("float")
	case StrV:
		q, ok := b.(StrV)
		if !ok || p.Len() != q.Len() {
			return nil, m.fail("string length")
		}
		if p.b == nil && q.b == nil && p.s == q.s {
			return p, true
		}
		x, y := m.x.c.strBytes(p), m.x.c.strBytes(q)
		r := make([]*Expr, len(x))
		for i := range x {
			r[i] = m.x.c.Ite(m.cond, x[i], y[i])
		}
		return mkStr(r), true
	case PtrV:
		q, ok := b.(PtrV)
		if !ok || len(p.path) != len(q.path) || p.sym != q.sym {
			return nil, m.fail("pointer")
		}
		for i := range p.path {
			if p.path[i] != q.path[i] {
				return nil, m.fail("pointer path")
			}
		}
		return p, m.pair(p.obj, q.obj)
	case SliceV:
		q, ok := b.(SliceV)
		if !ok || p.off != q.off || p.len != q.len || p.cap != q.cap || p.null != q.null {
			if ok {
				return nil, m.fail("slice len %d/%d cap %d/%d", p.len, q.len, p.cap, q.cap)
			}
			return nil, m.fail("slice")
		}
		_, ok = m.val(p.arr, q.arr)
		return p, ok
	case *AggV:
		q, ok := b.(*AggV)
		if !ok || len(p.f) != len(q.f) {
			return nil, m.fail("aggregate")
		}
		if p == q {
			// identical content; nested references still need pairing
			for _, f := range p.f {
				if !m.refs(f) {
					return nil, false
				}
			}
			return p, true
		}
		var r *AggV
		for i := range p.f {
			v, ok := m.val(p.f[i], q.f[i])
			if !ok {
				return nil, false
			}
			if r == nil && !sameIdent(v, p.f[i]) {
				r = &AggV{f: append([]Value(nil), p.f...)}
				for _, ch := range r.f {
					if g, ok := ch.(*AggV); ok {
						g.own = nil
					}
				}
			}
			if r != nil {
				r.f[i] = v
			}
		}
		if r == nil {
			return p, true
		}
		return r, true
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok || (p.t == nil) != (q.t == nil) {
			return nil, m.fail("interface nilness")
		}
		if p.t == nil {
			return p, true
		}
		if !types.Identical(p.t, q.t) {
			return nil, m.fail("interface type %s/%s", p.t, q.t)
		}
		v, ok := m.val(p.v, q.v)
		return IfaceV{p.t, v}, ok
	case FuncV:
		q, ok := b.(FuncV)
		if !ok || p.fn != q.fn || p.builtin != q.builtin || len(p.binds) != len(q.binds) {
			return nil, m.fail("function")
		}
		r := FuncV{fn: p.fn, builtin: p.builtin}
		for i := range p.binds {
			v, ok := m.val(p.binds[i], q.binds[i])
			if !ok {
				return nil, false
			}
			r.binds = append(r.binds, v)
		}
		return r, true
	case MapV:
		q, ok := b.(MapV)
		if !ok {
			return nil, m.fail("map")
		}
		return p, m.pair(p.obj, q.obj)
	case *MapObj:
		q, ok := b.(*MapObj)
		if !ok || len(p.keys) != len(q.keys) {
			return nil, m.fail("map size")
		}
		r := &MapObj{}
		for i := range p.keys {
			k, ok := m.val(p.keys[i], q.keys[i])
			if !ok {
				return nil, false
			}
			v, ok := m.val(p.vals[i], q.vals[i])
			if !ok {
				return nil, false
			}
			r.keys = append(r.keys, k)
			r.vals = append(r.vals, v)
		}
		return r, true
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return nil, m.fail("tuple")
		}
		r := make(TupleV, len(p))
		for i := range p {
			v, ok := m.val(p[i], q[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case IterV:
		q, ok := b.(IterV)
		if !ok || p.isStr != q.isStr || len(p.keys) != len(q.keys) || p.m != q.m && !m.pair(p.m, q.m) {
			return nil, m.fail("iterator")
		}
		if p.isStr {
			s, ok := m.val(p.str, q.str)
			if !ok {
				return nil, false
			}
			p.str = s.(StrV)
		}
		for i := range p.keys {
			if !sameIdent(p.keys[i], q.keys[i]) {
				return nil, m.fail("iterator keys")
			}
		}
		return p, m.pair(p.obj, q.obj)
	case OpaqueV:
		q, ok := b.(OpaqueV)
		return p, ok && p == q || m.fail("opaque")
	}
	return nil, m.fail("unmergeable %T", a)
}

// refs registers the identity pairing of references inside a shared value.
func (m *merger) refs(v Value) bool {
	switch p := v.(type) {
	case PtrV:
		return m.pair(p.obj, p.obj)
	case SliceV:
		return m.pair(p.arr.obj, p.arr.obj)
	case MapV:
		return m.pair(p.obj, p.obj)
	case IterV:
		return m.pair(p.obj, p.obj) && (p.m == 0 || m.pair(p.m, p.m))
	case *AggV:
		for _, f := range p.f {
			if !m.refs(f) {
				return false
			}
		}
	case IfaceV:
		if p.t != nil {
			return m.refs(p.v)
		}
	case FuncV:
		for _, b := range p.binds {
			if !m.refs(b) {
				return false
			}
		}
	case TupleV:
		for _, f := range p {
			if !m.refs(f) {
				return false
			}
		}
	}
	return true
}

// tryMerge merges b into a copy of a; nil if the shapes differ.
func (x *Exec) tryMerge(a, b *State) (*State, string) {
	if a.thr != nil || b.thr != nil {
		return nil, "threads"
	}
	if len(a.frames) != len(b.frames) {
		return nil, "frames"
	}
	if (a.pan == nil) != (b.pan == nil) || a.pan != nil && a.pan != b.pan {
		return nil, "panic"
	}
	// common ancestor of the path conditions
	p, q := a.pc, b.pc
	var sa, sb []*Expr
	d := func(n *pcNode) int {
		if n == nil {
			return -1
		}
		return n.depth
	}
	for p != q {
		if d(p) >= d(q) {
			sa = append(sa, p.cond)
			p = p.parent
		} else {
			sb = append(sb, q.cond)
			q = q.parent
		}
	}
	ca, cb := x.c.And(sa...), x.c.And(sb...)
	// inputs drawn must coincide
	if !sameIns(a.ins, b.ins) {
		return nil, "inputs drawn differ"
	}
	for k, v := range a.meta {
		if b.meta[k] != v {
			return nil, "engine state"
		}
	}
	if len(a.meta) != len(b.meta) {
		return nil, "engine state"
	}
	// a condition distinguishing a from b, as small as possible
	cond := ca
	if len(conj(cb)) < len(conj(ca)) {
		cond = x.c.Not(cb)
	}
	if x.c.And(ca, cb) != x.c.False {
		// suffixes are always exclusive by construction (forks); keep ca
		cond = ca
	}
	if ip := x.c.interpolant(ca, cb); ip != nil {
		cond = ip
	}
	m := &merger{x: x, a: a, b: b, cond: cond, ab: map[int32]int32{}, ba: map[int32]int32{}}
	n := &State{tok: &token_t{}, steps: max(a.steps, b.steps), merged: a.merged + b.merged + 1, model: a.model, pan: a.pan, ins: a.ins, meta: a.meta}
	n.heap = a.heap
	for fi := range a.frames {
		f, g := a.frames[fi], b.frames[fi]
		if f.fn != g.fn || f.block != g.block || f.pc != g.pc || len(f.defers) != len(g.defers) || f.unwinding != g.unwinding || f.recovered != g.recovered || f.deferCall != g.deferCall {
			return nil, "frame"
		}
		nf := *f
		nf.own = n.tok
		nf.iters = append([]int32(nil), f.iters...)
		nf.regs = make([]Value, len(f.regs))
		for _, k := range x.liveRegs(a, fi) {
			v, ok := m.val(f.regs[k], g.regs[k])
			if !ok {
				return nil, m.why
			}
			nf.regs[k] = v
		}
		nf.defers = nil
		for di := range f.defers {
			df, dg := f.defers[di], g.defers[di]
			fv, ok := m.val(df.fn, dg.fn)
			if !ok || df.call != dg.call {
				return nil, "defer"
			}
			nd := deferred{fn: fv.(FuncV), call: df.call}
			for ai := range df.args {
				v, ok := m.val(df.args[ai], dg.args[ai])
				if !ok {
					return nil, m.why
				}
				nd.args = append(nd.args, v)
			}
			nf.defers = append(nf.defers, nd)
		}
		n.frames = append(n.frames, &nf)
	}
	var mods []int32
	diffIDs(x.base.root, a.heap.root, hLevels-1, 0, x.baseMax, &mods)
	diffIDs(x.base.root, b.heap.root, hLevels-1, 0, x.baseMax, &mods)
	for _, id := range mods {
		va, vb := a.heap.get(id), b.heap.get(id)
		v, ok := m.val(va, vb)
		if !ok {
			return nil, m.why
		}
		if !sameIdent(v, va) {
			n.heap.set(id, v, n.tok)
		}
	}
	for len(m.todo) > 0 {
		pr := m.todo[len(m.todo)-1]
		m.todo = m.todo[:len(m.todo)-1]
		va, vb := a.heap.get(pr[0]), b.heap.get(pr[1])
		v, ok := m.val(va, vb)
		if !ok {
			return nil, m.why
		}
		if !sameIdent(v, va) {
			n.heap.set(pr[0], v, n.tok)
		}
	}
	// observations
	o, ok := x.mergeObs(m, a.obs, b.obs)
	if !ok {
		return nil, "observations"
	}
	n.obs = o
	n.pc = p
	x.addPC(n, x.c.Or(ca, cb))
	x.Merges++
	x.States++
	return n, ""
}

func sameIns(a, b *inNode) bool {
	for a != b {
		if a == nil || b == nil || a.v != b.v || a.name != b.name {
			return false
		}
		a, b = a.parent, b.parent
	}
	return true
}

func (x *Exec) mergeObs(m *merger, a, b *obsNode) (*obsNode, bool) {
	if a == b {
		return a, true
	}
	if a == nil || b == nil || a.tag != b.tag || a.n != b.n {
		return nil, false
	}
	p, ok := x.mergeObs(m, a.parent, b.parent)
	if !ok {
		return nil, false
	}
	v := a.v
	if a.v != b.v {
		if a.v.w != b.v.w {
			return nil, false
		}
		v = x.c.Ite(m.cond, a.v, b.v)
	}
	return &obsNode{p, a.tag, v, a.n}, true
}

// run drives all states to completion.
func (x *Exec) run(st *State) {
	x.push(st)
	for len(x.queue) > 0 {
		if x.stopped != "" {
			break
		}
		if !x.deadline.IsZero() && timeNow().After(x.deadline) {
			x.stopped = "time budget"
			break
		}
		s := x.pop()
		batch := []*State{s}
		for len(x.queue) > 0 && cmpPos(x.queue[0], s) == 0 {
			batch = append(batch, x.pop())
		}
		if len(batch) > 1 && !x.noMerge {
			batch = x.mergeBatch(batch)
		}
		for _, b := range batch {
			x.runState(b)
		}
	}
	if x.stopped != "" {
		x.Incon[fmt.Sprintf("stopped: %s with %d states pending", x.stopped, len(x.queue))]++
	}
}

func (x *Exec) mergeBatch(batch []*State) []*State {
	buckets := map[uint64][]*State{}
	var order []uint64
	var out []*State
	for _, s := range batch {
		if s.thr != nil {
			out = append(out, s)
			continue
		}
		k := x.signature(s)
		if _, ok := buckets[k]; !ok {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], s)
	}
	for _, k := range order {
		var reps []*State
		for _, s := range buckets[k] {
			done := false
			for i, r := range reps {
				if len(s.decided) > 0 || len(r.decided) > 0 {
					continue
				}
				n, why := x.tryMerge(r, s)
				if n != nil {
					reps[i] = n
					done = true
					break
				}
				x.mergeFail[why]++
			}
			if !done {
				reps = append(reps, s)
			}
		}
		out = append(out, reps...)
	}
	if x.dbg {
		fmt.Fprintf(os.Stderr, "batch %d -> %d (%d sigs) at %s q=%d steps=%d\n", len(batch), len(out), len(order), x.where(batch[0]), len(x.queue), x.Steps)
	}
	return out
}

// hasMod reports whether e is linear in a residue. A conditional between two
// residues that could not be combined would keep later arithmetic from
// cancelling, so such states stay separate.
func hasMod(e *Expr) bool {
	if e.op == OpEMod {
		return true
	}
	if e.op == OpLin {
		for _, a := range e.args {
			if a.op == OpEMod {
				return true
			}
		}
	}
	return false
}
