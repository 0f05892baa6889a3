package main

// Hash-consed expression DAG.
//
// Integer nodes denote mathematical integers inside the range of their Go type
// (width w, signed or not); every node carries an interval.  Additions and
// multiplications by constants whose result provably fits the type are kept in
// linear normal form (OpLin); anything that may wrap around becomes an opaque
// bit-vector operation node, so machine arithmetic is preserved exactly.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota // integer or boolean constant
	OpVar             // symbolic input
	OpLin             // k + sum coefs[i]*args[i]; never wraps
	OpEMod            // args[0] mod k (Euclidean, 0..k-1), k>0 constant
	OpEDiv            // floor(args[0] / k), k>0 constant
	OpIte             // args[0] ? args[1] : args[2]
	OpConv            // args[0] converted (two's complement) to this type, may truncate
	OpAdd             // wrapping
	OpSub
	OpMul
	OpQuo // Go / on the node's type (divisor non-zero)
	OpRem
	OpAndB
	OpOrB
	OpXorB
	OpShl // shift count unsigned, >= width gives 0
	OpShr // logical or arithmetic according to signedness
	// boolean
	OpNot
	OpAnd
	OpLE0 // args[0] <= 0 (args[0] any int expr, usually Lin carried as lin fields)
	OpEQ0
	OpLT // generic typed comparison args[0] < args[1] (for 64-bit unsigned tops)
	OpEQ // generic typed equality
	// OpTab is a function of one small-domain variable args[0]: coefs[v-lo] is
	// its value. Every expression over a single such variable is normalised to
	// a constant, the variable, a linear form of it, or a table.
	OpTab
	OpCase // decision diagram node, see dd.go
	OpFn   // name(args[0]): a Unicode class or case map (see unicode.go)
)

// smallDomain is the largest domain for which tables are built.
const smallDomain = 512

type Expr struct {
	op      Op
	w       uint8 // 0 = bool
	sg      bool
	top     bool // interval unknown (64-bit unsigned possibly above MaxInt64)
	lo      int64
	hi      int64
	k       int64
	args    []*Expr
	coefs   []int64
	name    string
	id      int32
	neg     *Expr
	sup     []int32 // sorted ids of support variables (shared slices)
	tv      []int64 // values over the domain of the only (small) support variable
	base    *Expr   // OpTab, OpCase: offset-normalised form
	baseOff int64
	cl      int8 // constant-leaf ite tree: 0 unknown 1 yes 2 no
}

type Ctx struct {
	tab   map[uint64][]*Expr
	all   []*Expr
	vars  []*Expr
	small [6][520]*Expr
	True  *Expr
	False *Expr
	projs map[projKey]*Expr

	ddSteps, ddDepth, DDBlown int
	ddAndMemo                 map[pair32]*Expr
	ddMemo                    map[uint64][]ddEnt
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Expr{}, ddAndMemo: map[pair32]*Expr{}}
	c.False = c.mk(&Expr{op: OpConst, k: 0})
	c.True = c.mk(&Expr{op: OpConst, k: 1})
	c.True.neg, c.False.neg = c.False, c.True
	return c
}

func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	return bits.RotateLeft64(h, 29)
}

func (e *Expr) hash() uint64 {
	h := uint64(e.op)<<16 | uint64(e.w)<<8
	if e.sg {
		h |= 1
	}
	h = mix(0x1234567, h)
	h = mix(h, uint64(e.k))
	for _, a := range e.args {
		h = mix(h, uint64(a.id)+1)
	}
	for _, c := range e.coefs {
		h = mix(h, uint64(c))
	}
	for i := 0; i < len(e.name); i++ {
		h = mix(h, uint64(e.name[i]))
	}
	return h
}

func (e *Expr) same(f *Expr) bool {
	if e.op != f.op || e.w != f.w || e.sg != f.sg || e.k != f.k || e.name != f.name || len(e.args) != len(f.args) || len(e.coefs) != len(f.coefs) {
		return false
	}
	for i := range e.args {
		if e.args[i] != f.args[i] {
			return false
		}
	}
	for i := range e.coefs {
		if e.coefs[i] != f.coefs[i] {
			return false
		}
	}
	return true
}

// single returns the only support variable of the arguments if its domain is
// small.
func (c *Ctx) single(args []*Expr) *Expr {
	var v *Expr
	for _, a := range args {
		switch len(a.sup) {
		case 0:
		case 1:
			if a.tv == nil {
				return nil
			}
			x := c.all[a.sup[0]]
			if v != nil && v != x {
				return nil
			}
			v = x
		default:
			return nil
		}
	}
	return v
}

func at(a *Expr, i int) int64 {
	if a.op == OpConst {
		return a.k
	}
	return a.tv[i]
}

// table evaluates e for every value of v.
func (c *Ctx) table(e, v *Expr) []int64 {
	n := int(v.hi - v.lo + 1)
	t := make([]int64, n)
	for i := range t {
		t[i] = evalNode(e, func(a *Expr) int64 { return at(a, i) })
	}
	return t
}

// fromTable makes the normal form of a function of v.
func (c *Ctx) fromTable(t []int64, v *Expr, w uint8, sg bool) *Expr {
	same := true
	for _, x := range t {
		if x != t[0] {
			same = false
			break
		}
	}
	if same {
		if w == 0 {
			return c.Bool(t[0] != 0)
		}
		return c.Int(t[0], w, sg)
	}
	lo, hi := t[0], t[0]
	for _, x := range t {
		lo, hi = min(lo, x), max(hi, x)
	}
	if w == 0 && v.w == 0 && t[1] == 1 {
		return v
	}
	if w != 0 && v.w != 0 && lo > -1<<61 && hi < 1<<61 {
		d := t[1] - t[0]
		off, aff := mulOv(d, v.lo)
		_, ok := mulOv(d, int64(len(t)))
		k, ok2 := addOv(t[0], -off)
		aff = aff && ok && ok2 && off != math.MinInt64
		for i := range t {
			if t[i] != t[0]+int64(i)*d {
				aff = false
				break
			}
		}
		if aff {
			if k == 0 && d == 1 && v.w == w && v.sg == sg {
				return v
			}
			return c.mkTab(&Expr{op: OpLin, w: w, sg: sg, k: k, args: []*Expr{v}, coefs: []int64{d}, lo: lo, hi: hi, tv: t})
		}
	}
	return c.mkTab(&Expr{op: OpTab, w: w, sg: sg, args: []*Expr{v}, coefs: t, lo: lo, hi: hi, tv: t})
}

func (c *Ctx) mkTab(e *Expr) *Expr { return c.intern(e) }

func (c *Ctx) mk(e *Expr) *Expr {
	if e.op == OpEMod && (e.args[0].op == OpLin || e.args[0].op == OpVar) {
		return c.intern(e) // kept linear inside, see lift
	}
	if e.op != OpVar && e.op != OpConst && !e.top {
		if v := c.single(e.args); v != nil {
			return c.fromTable(c.table(e, v), v, e.w, e.sg)
		}
		if r := c.ddTry(e); r != nil {
			return r
		}
	}
	return c.intern(e)
}

func (c *Ctx) intern(e *Expr) *Expr {
	h := e.hash()
	for _, f := range c.tab[h] {
		if f.same(e) {
			return f
		}
	}
	e.id = int32(len(c.all))
	c.all = append(c.all, e)
	c.tab[h] = append(c.tab[h], e)
	if e.op == OpVar {
		e.sup = []int32{e.id}
		if e.w == 0 {
			e.lo, e.hi = 0, 1
		}
		if !e.top && e.hi-e.lo >= 0 && e.hi-e.lo < smallDomain {
			e.tv = make([]int64, e.hi-e.lo+1)
			for i := range e.tv {
				e.tv[i] = e.lo + int64(i)
			}
		}
	} else {
		e.sup = mergeSup(e.args)
	}
	return e
}

func mergeSup(args []*Expr) []int32 {
	var cur []int32
	for _, a := range args {
		if len(a.sup) == 0 {
			continue
		}
		if cur == nil {
			cur = a.sup
			continue
		}
		cur = unionSup(cur, a.sup)
	}
	return cur
}

func unionSup(a, b []int32) []int32 {
	// subset checks to share slices
	i, j := 0, 0
	extraA, extraB := false, false
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i] < b[j]:
			extraA = true
			i++
		default:
			extraB = true
			j++
		}
	}
	if i < len(a) {
		extraA = true
	}
	if j < len(b) {
		extraB = true
	}
	if !extraB {
		return a
	}
	if !extraA {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// ---- type ranges

func typeRange(w uint8, sg bool) (lo, hi int64, top bool) {
	if sg {
		if w == 64 {
			return math.MinInt64, math.MaxInt64, false
		}
		return -(1 << (w - 1)), 1<<(w-1) - 1, false
	}
	if w == 64 {
		return 0, math.MaxInt64, true
	}
	return 0, 1<<w - 1, false
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	p := a * b
	if p/b != a {
		return 0, false
	}
	return p, true
}

// ---- constructors

func (e *Expr) isConst() bool { return e.op == OpConst }
func (e *Expr) isBool() bool  { return e.w == 0 }

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

// wrapConst reduces v (bit pattern) to the type's range.
func wrapConst(v int64, w uint8, sg bool) int64 {
	if w == 64 {
		return v
	}
	if sg {
		sh := 64 - w
		return v << sh >> sh
	}
	return int64(uint64(v) & (1<<w - 1))
}

func (c *Ctx) Int(v int64, w uint8, sg bool) *Expr {
	v = wrapConst(v, w, sg)
	var slot = -1
	if v >= -8 && v < 512 {
		switch {
		case w == 64 && sg:
			slot = 0
		case w == 32 && sg:
			slot = 1
		case w == 8 && !sg:
			slot = 2
		case w == 64 && !sg:
			slot = 3
		}
		if slot >= 0 {
			if e := c.small[slot][v+8]; e != nil {
				return e
			}
		}
	}
	e := &Expr{op: OpConst, w: w, sg: sg, k: v, lo: v, hi: v, cl: 1}
	if !sg && w == 64 && v < 0 {
		e.top = true
		e.lo, e.hi = 0, math.MaxInt64
	}
	e = c.mk(e)
	if slot >= 0 {
		c.small[slot][v+8] = e
	}
	return e
}

func (c *Ctx) Var(name string, w uint8, sg bool, lo, hi int64) *Expr {
	e := &Expr{op: OpVar, w: w, sg: sg, name: name}
	if w == 0 {
		e.lo, e.hi = 0, 1
		return c.mkVar(e)
	}
	tl, th, top := typeRange(w, sg)
	if lo < tl {
		lo = tl
	}
	if hi > th {
		hi = th
	}
	if lo == hi {
		return c.Int(lo, w, sg)
	}
	e.lo, e.hi = lo, hi
	if top && lo == 0 && hi == math.MaxInt64 {
		e.top = true
	}
	return c.mkVar(e)
}

func (c *Ctx) mkVar(e *Expr) *Expr {
	n := len(c.all)
	r := c.mk(e)
	if len(c.all) > n {
		c.vars = append(c.vars, r)
	} else if r.lo != e.lo || r.hi != e.hi {
		panic("symbolic variable " + e.name + " recreated with another range")
	}
	return r
}

// linear view
type lin struct {
	k     int64
	atoms []*Expr
	coefs []int64
}

func (c *Ctx) asLin(e *Expr) lin {
	switch e.op {
	case OpConst:
		return lin{k: e.k}
	case OpLin:
		return lin{e.k, e.args, e.coefs}
	case OpTab, OpCase:
		b, off := c.ddBase(e)
		if b.op == OpTab || b.op == OpCase {
			return lin{off, []*Expr{b}, []int64{1}}
		}
	}
	return lin{0, []*Expr{e}, []int64{1}}
}

// addLin computes a*ca + b*cb with overflow detection.
func addLin(a lin, ca int64, b lin, cb int64) (lin, bool) {
	var r lin
	x, ok1 := mulOv(a.k, ca)
	y, ok2 := mulOv(b.k, cb)
	if !ok1 || !ok2 {
		return r, false
	}
	var ok bool
	if r.k, ok = addOv(x, y); !ok {
		return r, false
	}
	i, j := 0, 0
	r.atoms = make([]*Expr, 0, len(a.atoms)+len(b.atoms))
	r.coefs = make([]int64, 0, len(a.atoms)+len(b.atoms))
	push := func(at *Expr, co int64) {
		if co != 0 {
			r.atoms = append(r.atoms, at)
			r.coefs = append(r.coefs, co)
		}
	}
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j >= len(b.atoms) || (i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id):
			m, ok := mulOv(a.coefs[i], ca)
			if !ok {
				return r, false
			}
			push(a.atoms[i], m)
			i++
		case i >= len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
			m, ok := mulOv(b.coefs[j], cb)
			if !ok {
				return r, false
			}
			push(b.atoms[j], m)
			j++
		default:
			m, ok := mulOv(a.coefs[i], ca)
			n, ok2 := mulOv(b.coefs[j], cb)
			if !ok || !ok2 {
				return r, false
			}
			s, ok := addOv(m, n)
			if !ok {
				return r, false
			}
			push(a.atoms[i], s)
			i++
			j++
		}
	}
	return r, true
}

func (l lin) interval() (lo, hi int64, ok bool) {
	lo, hi = l.k, l.k
	for i, a := range l.atoms {
		if a.top || l.coefs[i] == math.MinInt64 {
			return 0, 0, false
		}
		x, ok1 := mulOv(l.coefs[i], a.lo)
		y, ok2 := mulOv(l.coefs[i], a.hi)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		if lo, ok1 = addOv(lo, x); !ok1 {
			return 0, 0, false
		}
		if hi, ok2 = addOv(hi, y); !ok2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// bounded tells that no value of l overflows.
func (l lin) bounded() bool {
	_, _, ok := l.interval()
	return ok
}

// group combines the atoms that are functions of the same small variables.
func (c *Ctx) group(l lin) lin {
	n := 0
	for _, a := range l.atoms {
		if isDD(a) {
			n++
		}
	}
	if n < 2 {
		return l
	}
again:
	for i, a := range l.atoms {
		if !isDD(a) {
			continue
		}
		for j := i + 1; j < len(l.atoms); j++ {
			b := l.atoms[j]
			if !isDD(b) || !supLE(a.sup, b.sup) && !supLE(b.sup, a.sup) {
				continue
			}
			lo, hi, ok := lin{0, []*Expr{a, b}, []int64{l.coefs[i], l.coefs[j]}}.interval()
			if !ok || lo < -1<<60 || hi > 1<<60 {
				continue
			}
			p := &Expr{op: OpLin, w: 64, sg: true, args: []*Expr{a, b}, coefs: []int64{l.coefs[i], l.coefs[j]}}
			s := c.ddGuard(func() *Expr { return c.ddApply(p) })
			if s == nil {
				continue
			}
			r := lin{k: l.k}
			for x := range l.atoms {
				if x != i && x != j {
					r.atoms = append(r.atoms, l.atoms[x])
					r.coefs = append(r.coefs, l.coefs[x])
				}
			}
			r, ok = addLin(r, 1, c.asLin(s), 1)
			if !ok {
				return l
			}
			l = r
			goto again
		}
	}
	return l
}

// fromLin builds a node of the given type; caller guarantees no wrap.
func (c *Ctx) fromLin(l lin, w uint8, sg bool) *Expr {
	l = c.group(l)
	if len(l.atoms) == 0 {
		return c.Int(l.k, w, sg)
	}
	if len(l.atoms) == 1 {
		a := l.atoms[0]
		if l.coefs[0] == 1 && l.k == 0 && a.w == w && a.sg == sg {
			return a
		}
		if (a.op == OpIte || a.op == OpCase) && c.constLeaf(a) {
			co, k := l.coefs[0], l.k
			return c.mapLeaves(a, func(v int64) *Expr { return c.Int(v*co+k, w, sg) })
		}
	}
	lo, hi, ok := l.interval()
	if !ok {
		tl, th, _ := typeRange(w, sg)
		lo, hi = tl, th
	} else {
		tl, th, _ := typeRange(w, sg)
		if lo < tl {
			lo = tl
		}
		if hi > th {
			hi = th
		}
	}
	if lo == hi {
		return c.Int(lo, w, sg)
	}
	return c.mk(&Expr{op: OpLin, w: w, sg: sg, k: l.k, args: l.atoms, coefs: l.coefs, lo: lo, hi: hi})
}

func fits(lo, hi int64, w uint8, sg bool) bool {
	tl, th, _ := typeRange(w, sg)
	return lo >= tl && hi <= th
}

func (c *Ctx) linFit(l lin, w uint8, sg bool) (*Expr, bool) {
	l = c.group(l)
	lo, hi, ok := l.interval()
	if !ok || !fits(lo, hi, w, sg) {
		return nil, false
	}
	return c.fromLin(l, w, sg), true
}

func (c *Ctx) constLeaf(e *Expr) bool {
	if e.op == OpConst || e.tv != nil || e.op == OpCase {
		return true
	}
	if e.op != OpIte || e.w == 0 {
		return false
	}
	if e.cl == 0 {
		if c.constLeaf(e.args[1]) && c.constLeaf(e.args[2]) {
			e.cl = 1
		} else {
			e.cl = 2
		}
	}
	return e.cl == 1
}

func (c *Ctx) mapLeaves(e *Expr, f func(int64) *Expr) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(e *Expr) *Expr
	rec = func(e *Expr) *Expr {
		if r, ok := memo[e]; ok {
			return r
		}
		var r *Expr
		if e.op == OpConst {
			r = f(e.k)
		} else if e.op == OpCase {
			m := make([]*Expr, len(e.args)-1)
			for i := range m {
				m[i] = rec(e.args[1+i])
			}
			ch := make([]*Expr, len(e.coefs))
			for i, n := range e.coefs {
				ch[i] = m[n]
			}
			r = c.mkCase(e.args[0], ch, m[0].w, m[0].sg)
		} else if e.tv != nil {
			t := make([]int64, len(e.tv))
			var last *Expr
			for i, v := range e.tv {
				last = f(v)
				t[i] = last.k
			}
			r = c.fromTable(t, c.all[e.sup[0]], last.w, last.sg)
		} else {
			r = c.Ite(e.args[0], rec(e.args[1]), rec(e.args[2]))
		}
		memo[e] = r
		return r
	}
	return rec(e)
}

func (c *Ctx) rawBin(op Op, a, b *Expr) *Expr {
	lo, hi, top := typeRange(a.w, a.sg)
	return c.mk(&Expr{op: op, w: a.w, sg: a.sg, args: []*Expr{a, b}, lo: lo, hi: hi, top: top})
}

func (c *Ctx) rawBinIv(op Op, a, b *Expr, lo, hi int64) *Expr {
	if lo == hi {
		return c.Int(lo, a.w, a.sg)
	}
	return c.mk(&Expr{op: op, w: a.w, sg: a.sg, args: []*Expr{a, b}, lo: lo, hi: hi})
}

func (c *Ctx) Add(a, b *Expr) *Expr {
	if !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), 1, c.asLin(b), 1); ok {
			if r, ok := c.linFit(l, a.w, a.sg); ok {
				return r
			}
		}
	}
	if a.isConst() && b.isConst() {
		return c.Int(a.k+b.k, a.w, a.sg)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.rawBin(OpAdd, a, b)
}

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.Int(0, a.w, a.sg)
	}
	if !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), 1, c.asLin(b), -1); ok {
			if r, ok := c.linFit(l, a.w, a.sg); ok {
				return r
			}
		}
	}
	if a.isConst() && b.isConst() {
		return c.Int(a.k-b.k, a.w, a.sg)
	}
	return c.rawBin(OpSub, a, b)
}

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), b.k, lin{}, 0); ok {
			if r, ok := c.linFit(l, a.w, a.sg); ok {
				return r
			}
		}
	}
	if a.isConst() && b.isConst() {
		return c.Int(a.k*b.k, a.w, a.sg)
	}
	if a.op == OpIte && c.constLeaf(a) && !b.isConst() {
		// (ite of constants)*b stays generic
		_ = a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.rawBin(OpMul, a, b)
}

func floorMod(x, m int64) int64 {
	r := x % m
	if r < 0 {
		r += m
	}
	return r
}

func floorDiv(x, m int64) int64 {
	q := x / m
	if x%m < 0 {
		q--
	}
	return q
}

// emod builds Euclidean modulo of a linear form by m>0 in type (w,sg).
func (c *Ctx) emod(e *Expr, m int64) *Expr {
	w, sg := e.w, e.sg
	if e.isConst() && !e.top {
		return c.Int(floorMod(e.k, m), w, sg)
	}
	if !e.top && e.lo >= 0 && e.hi < m {
		return e
	}
	if !fits(0, m-1, w, sg) {
		w, sg = 64, true
	}
	if (e.op == OpIte || e.op == OpTab || e.op == OpCase) && c.constLeaf(e) {
		return c.mapLeaves(e, func(v int64) *Expr { return c.Int(floorMod(v, m), w, sg) })
	}
	// expand nested EMod with the same modulus, reduce coefficients
	l := c.asLin(e)
	acc := lin{k: floorMod(l.k, m)}
	changed := acc.k != l.k
	for i, a := range l.atoms {
		co := l.coefs[i] % m
		if co != l.coefs[i] {
			changed = true
		}
		if co == 0 {
			changed = true
			continue
		}
		part := lin{0, []*Expr{a}, []int64{1}}
		if a.op == OpTab {
			// normal form modulo m: linear in the variable if possible
			v := a.args[0]
			t := a.coefs
			d := floorMod(t[1]-t[0], m)
			aff := true
			for j := range t {
				if floorMod(t[0]+int64(j)*d-t[j], m) != 0 {
					aff = false
					break
				}
			}
			if aff {
				if d > m/2 {
					d -= m
				}
				part = lin{floorMod(t[0]-d*v.lo, m), []*Expr{v}, []int64{d}}
				if d == 0 {
					part = lin{k: floorMod(t[0], m)}
				}
				changed = true
			} else {
				n := make([]int64, len(t))
				diff := co != 1
				for j := range t {
					n[j] = floorMod(t[j]*co, m)
					diff = diff || n[j] != t[j]
				}
				if diff {
					part = c.asLin(c.fromTable(n, v, 64, true))
					co = 1
					changed = true
				}
			}
		} else if a.op == OpCase {
			n := c.ddMap(a, 64, true, func(v int64) int64 { return floorMod(v*co, m) })
			if n != a {
				part = c.asLin(n)
				co = 1
				changed = true
			}
		} else if a.op == OpEMod && a.k%m == 0 {
			part = c.asLin(a.args[0])
			changed = true
		} else if a.op == OpIte && !a.args[1].top && !a.args[2].top {
			if d, ok := addLin(c.asLin(a.args[1]), 1, c.asLin(a.args[2]), -1); ok && len(d.atoms) == 0 && d.k%m == 0 {
				part = c.asLin(a.args[2])
				if x := a.args[2]; x.op == OpEMod && x.k%m == 0 {
					part = c.asLin(x.args[0])
				}
				changed = true
			}
		}
		var ok bool
		acc, ok = addLin(acc, 1, part, co)
		if !ok {
			changed = false
			acc = l
			break
		}
	}
	if changed {
		acc = c.group(acc)
		acc = lin{acc.k, append([]*Expr{}, acc.atoms...), append([]int64{}, acc.coefs...)}
		acc.k = floorMod(acc.k, m)
		for i := range acc.coefs {
			acc.coefs[i] %= m
		}
		// drop zero coefs
		j := 0
		for i := range acc.coefs {
			if acc.coefs[i] != 0 {
				acc.coefs[j], acc.atoms[j] = acc.coefs[i], acc.atoms[i]
				j++
			}
		}
		acc.coefs, acc.atoms = acc.coefs[:j], acc.atoms[:j]
	} else {
		acc = lin{acc.k, append([]*Expr{}, acc.atoms...), append([]int64{}, acc.coefs...)}
	}
	if len(acc.atoms) == 0 {
		return c.Int(floorMod(acc.k, m), w, sg)
	}
	// choose representative so that interval fits in [0,m) if possible
	lo, hi, ok := acc.interval()
	if ok && hi-lo >= 0 && hi-lo < m {
		sh := floorDiv(lo, m) * m
		if hi-sh < m {
			acc.k -= sh
			return c.fromLin(acc, w, sg)
		}
	}
	// canonical sign: make coefficients in (-m/2, m/2]
	for i := range acc.coefs {
		for acc.coefs[i] > m/2 {
			acc.coefs[i] -= m
		}
		for acc.coefs[i] <= -(m+1)/2 {
			acc.coefs[i] += m
		}
	}
	lo, hi, ok = acc.interval()
	if ok && hi-lo >= 0 && hi-lo < m {
		sh := floorDiv(lo, m) * m
		if hi-sh < m {
			acc.k -= sh
			return c.fromLin(acc, w, sg)
		}
	}
	var inner *Expr
	if ok && lo >= math.MinInt32 && hi <= math.MaxInt32 {
		inner = c.fromLin(acc, 64, true)
	} else if ok {
		inner = c.fromLin(acc, 64, true)
	} else {
		inner = e
	}
	return c.mk(&Expr{op: OpEMod, w: w, sg: sg, k: m, args: []*Expr{inner}, lo: 0, hi: m - 1})
}

// Rem is Go's %.
func (c *Ctx) Rem(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.k != 0 {
		if !a.sg {
			return c.Int(int64(uint64(a.k)%uint64(b.k)), a.w, a.sg)
		}
		if b.k == -1 {
			return c.Int(0, a.w, a.sg)
		}
		return c.Int(a.k%b.k, a.w, a.sg)
	}
	if b.isConst() && b.k > 0 && !b.top && !a.top {
		m := b.k
		if a.lo >= 0 {
			return c.emod(a, m)
		}
		if a.lo > -m && a.hi < m {
			return a
		}
		em := c.emod(a, m)
		// truncated: a>=0 or em==0 -> em, else em-m
		neg := c.And(c.Lt(a, c.Int(0, a.w, a.sg)), c.Not(c.Eq(em, c.Int(0, a.w, a.sg))))
		return c.iteRaw(neg, c.Sub(em, b), em)
	}
	lo, hi, top := typeRange(a.w, a.sg)
	if !a.top && !top && a.lo >= 0 && b.lo > 0 {
		lo, hi = 0, min(a.hi, b.hi-1)
		return c.rawBinIv(OpRem, a, b, lo, hi)
	}
	return c.rawBin(OpRem, a, b)
}

func (c *Ctx) Quo(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.k != 0 {
		if !a.sg {
			return c.Int(int64(uint64(a.k)/uint64(b.k)), a.w, a.sg)
		}
		if b.k == -1 {
			return c.Int(-a.k, a.w, a.sg)
		}
		return c.Int(a.k/b.k, a.w, a.sg)
	}
	if b.isConst() && b.k > 0 && !b.top && !a.top {
		if b.k == 1 {
			return a
		}
		if a.op == OpIte && c.constLeaf(a) {
			return c.mapLeaves(a, func(v int64) *Expr { return c.Int(v/b.k, a.w, a.sg) })
		}
		if a.lo >= 0 {
			return c.ediv(a, b.k)
		}
		return c.rawBinIv(OpQuo, a, b, a.lo/b.k, a.hi/b.k)
	}
	return c.rawBin(OpQuo, a, b)
}

func (c *Ctx) ediv(a *Expr, m int64) *Expr {
	lo, hi := floorDiv(a.lo, m), floorDiv(a.hi, m)
	if lo == hi {
		return c.Int(lo, a.w, a.sg)
	}
	// (m*q + r) div m = q + r div m
	if l := c.asLin(a); l.bounded() && (len(l.atoms) > 1 || l.k != 0 || l.coefs[0]%m == 0) {
		q, r := lin{k: floorDiv(l.k, m)}, lin{k: floorMod(l.k, m)}
		for i, co := range l.coefs {
			if co%m == 0 {
				q.atoms, q.coefs = append(q.atoms, l.atoms[i]), append(q.coefs, co/m)
			} else {
				r.atoms, r.coefs = append(r.atoms, l.atoms[i]), append(r.coefs, co)
			}
		}
		if rl, rh, ok := r.interval(); ok && (len(q.atoms) > 0 || q.k != 0) {
			if dl, dh := floorDiv(rl, m), floorDiv(rh, m); dl == dh {
				if k, ok := addOv(q.k, dl); ok {
					q.k = k
					if e, ok := c.linFit(q, a.w, a.sg); ok {
						return e
					}
				}
			} else if len(q.atoms) > 0 {
				if rest, ok := c.linFit(r, 64, true); ok {
					d := c.ediv(rest, m)
					if t, ok := addLin(q, 1, c.asLin(d), 1); ok {
						if e, ok := c.linFit(t, a.w, a.sg); ok {
							return e
						}
					}
				}
			}
		}
	}
	return c.mk(&Expr{op: OpEDiv, w: a.w, sg: a.sg, k: m, args: []*Expr{a}, lo: lo, hi: hi})
}

func (c *Ctx) Neg(a *Expr) *Expr { return c.Sub(c.Int(0, a.w, a.sg), a) }

func (c *Ctx) BitNot(a *Expr) *Expr {
	// ^a = -1 - a (signed) ; for unsigned max - a
	if a.isConst() {
		return c.Int(^a.k, a.w, a.sg)
	}
	if a.sg {
		return c.Sub(c.Int(-1, a.w, a.sg), a)
	}
	if a.w < 64 {
		return c.Sub(c.Int(-1, a.w, a.sg), a)
	}
	return c.rawBin(OpXorB, a, c.Int(-1, a.w, a.sg))
}

func (c *Ctx) AndB(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Int(a.k&b.k, a.w, a.sg)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == -1 && (b.sg || b.w == 64) {
			return a
		}
		if b.k > 0 && b.k&(b.k+1) == 0 { // mask 2^n-1
			if !a.top && a.lo >= 0 && a.hi <= b.k {
				return a
			}
			if !a.top && a.lo >= 0 {
				return c.emod(a, b.k+1)
			}
			return c.rawBinIv(OpAndB, a, b, 0, b.k)
		}
		if b.k > 0 {
			return c.rawBinIv(OpAndB, a, b, 0, b.k)
		}
	}
	if !a.top && !b.top && a.lo >= 0 && b.lo >= 0 {
		return c.rawBinIv(OpAndB, a, b, 0, min(a.hi, b.hi))
	}
	return c.rawBin(OpAndB, a, b)
}

func pow2up(v int64) int64 { // smallest 2^n-1 >= v
	r := int64(1)
	for r-1 < v && r > 0 {
		r <<= 1
	}
	if r <= 0 {
		return math.MaxInt64
	}
	return r - 1
}

func (c *Ctx) OrB(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Int(a.k|b.k, a.w, a.sg)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if !a.top && !b.top && a.lo >= 0 && b.lo >= 0 {
		return c.rawBinIv(OpOrB, a, b, max(a.lo, b.lo), pow2up(max(a.hi, b.hi)))
	}
	return c.rawBin(OpOrB, a, b)
}

func (c *Ctx) XorB(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Int(a.k^b.k, a.w, a.sg)
	}
	if a == b {
		return c.Int(0, a.w, a.sg)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if !a.top && !b.top && a.lo >= 0 && b.lo >= 0 {
		return c.rawBinIv(OpXorB, a, b, 0, pow2up(max(a.hi, b.hi)))
	}
	return c.rawBin(OpXorB, a, b)
}

// shift count n is any unsigned/nonnegative int expr; converted to a's type by caller.
func (c *Ctx) Shl(a, n *Expr) *Expr {
	if n.isConst() {
		if n.k >= int64(a.w) || n.k < 0 {
			return c.Int(0, a.w, a.sg)
		}
		if a.isConst() {
			return c.Int(a.k<<uint(n.k), a.w, a.sg)
		}
		if n.k == 0 {
			return a
		}
		if n.k < 62 && !a.top {
			return c.mulShift(a, n)
		}
	}
	return c.rawBin(OpShl, a, n)
}

func (c *Ctx) mulShift(a, n *Expr) *Expr {
	if l, ok := addLin(c.asLin(a), 1<<uint(n.k), lin{}, 0); ok {
		if r, ok := c.linFit(l, a.w, a.sg); ok {
			return r
		}
	}
	return c.rawBin(OpShl, a, n)
}

func (c *Ctx) Shr(a, n *Expr) *Expr {
	if n.isConst() {
		if n.k < 0 || n.k >= int64(a.w) {
			if a.sg {
				n = c.Int(int64(a.w)-1, a.w, a.sg)
			} else {
				return c.Int(0, a.w, a.sg)
			}
		}
		if a.isConst() {
			if a.sg {
				return c.Int(a.k>>uint(n.k), a.w, a.sg)
			}
			return c.Int(int64(uint64(a.k)>>uint(n.k)), a.w, a.sg)
		}
		if n.k == 0 {
			return a
		}
		if !a.top && n.k < 62 {
			return c.ediv(a, 1<<uint(n.k))
		}
		if a.top && !a.sg {
			return c.rawBinIv(OpShr, a, n, 0, int64(uint64(math.MaxUint64)>>uint(n.k)))
		}
	}
	return c.rawBin(OpShr, a, n)
}

// Conv converts to another integer type.
func (c *Ctx) Conv(a *Expr, w uint8, sg bool) *Expr {
	if a.w == w && a.sg == sg {
		return a
	}
	if a.isConst() {
		return c.Int(a.k, w, sg)
	}
	if a.op == OpIte && c.constLeaf(a) {
		return c.mapLeaves(a, func(v int64) *Expr { return c.Int(v, w, sg) })
	}
	if !a.top {
		tl, th, _ := typeRange(w, sg)
		if a.lo >= tl && a.hi <= th {
			return c.fromLin(c.asLin(a), w, sg)
		}
		if !sg && w < 63 && a.w >= w {
			// truncation to unsigned = Euclidean modulo
			e := c.emod(a, 1<<w)
			return c.fromLin(c.asLin(e), w, sg)
		}
	}
	if a.op == OpConv && a.w >= w && a.args[0].w >= w {
		// truncation of truncation
		return c.Conv(a.args[0], w, sg)
	}
	lo, hi, top := typeRange(w, sg)
	return c.mk(&Expr{op: OpConv, w: w, sg: sg, args: []*Expr{a}, lo: lo, hi: hi, top: top})
}

// ---- booleans

func (c *Ctx) le0(l lin) *Expr { // l <= 0
	l = c.group(l)
	lo, hi, ok := l.interval()
	if ok {
		if hi <= 0 {
			return c.True
		}
		if lo > 0 {
			return c.False
		}
	}
	if len(l.atoms) == 1 && c.constLeaf(l.atoms[0]) {
		return c.boolLeaves(l.atoms[0], func(v int64) bool { return v*l.coefs[0]+l.k <= 0 })
	}
	var g int64
	for _, co := range l.coefs {
		g = gcd(g, abs64(co))
	}
	if g > 1 {
		n := lin{atoms: l.atoms, coefs: make([]int64, len(l.coefs))}
		for i := range l.coefs {
			n.coefs[i] = l.coefs[i] / g
		}
		// sum*g + k <= 0 -> sum <= floor(-k/g)
		n.k = -floorDiv(-l.k, g)
		l = n
	}
	return c.mk(&Expr{op: OpLE0, k: l.k, args: l.atoms, coefs: l.coefs})
}

func (c *Ctx) eq0(l lin) *Expr {
	l = c.group(l)
	lo, hi, ok := l.interval()
	if ok && (lo > 0 || hi < 0) {
		return c.False
	}
	if len(l.atoms) == 0 {
		return c.Bool(l.k == 0)
	}
	if len(l.atoms) == 1 && c.constLeaf(l.atoms[0]) {
		return c.boolLeaves(l.atoms[0], func(v int64) bool { return v*l.coefs[0]+l.k == 0 })
	}
	var g int64
	for _, co := range l.coefs {
		g = gcd(g, abs64(co))
	}
	s := int64(1)
	if l.coefs[0] < 0 {
		s = -1
	}
	if g > 1 || s < 0 {
		if l.k%g != 0 {
			return c.False
		}
		n := lin{k: l.k / g * s, atoms: l.atoms, coefs: make([]int64, len(l.coefs))}
		for i := range l.coefs {
			n.coefs[i] = l.coefs[i] / g * s
		}
		l = n
	}
	return c.mk(&Expr{op: OpEQ0, k: l.k, args: l.atoms, coefs: l.coefs})
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (c *Ctx) boolLeaves(e *Expr, f func(int64) bool) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(e *Expr) *Expr
	rec = func(e *Expr) *Expr {
		if r, ok := memo[e]; ok {
			return r
		}
		var r *Expr
		if e.op == OpConst {
			r = c.Bool(f(e.k))
		} else if e.op == OpCase {
			r = c.ddMap(e, 0, false, func(v int64) int64 { return b2i(f(v)) })
		} else if e.tv != nil {
			t := make([]int64, len(e.tv))
			for i, v := range e.tv {
				t[i] = b2i(f(v))
			}
			r = c.fromTable(t, c.all[e.sup[0]], 0, false)
		} else {
			r = c.Ite(e.args[0], rec(e.args[1]), rec(e.args[2]))
		}
		memo[e] = r
		return r
	}
	return rec(e)
}

func (c *Ctx) Le(a, b *Expr) *Expr {
	if !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), 1, c.asLin(b), -1); ok && l.bounded() {
			return c.le0(l)
		}
	}
	return c.Not(c.Lt(b, a))
}

func (c *Ctx) Lt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), 1, c.asLin(b), -1); ok {
			if k, ok := addOv(l.k, 1); ok {
				l.k = k
				if l.bounded() {
					return c.le0(l)
				}
			}
		}
	}
	if a.isConst() && b.isConst() {
		if a.sg {
			return c.Bool(a.k < b.k)
		}
		return c.Bool(uint64(a.k) < uint64(b.k))
	}
	if a.isConst() && a.top && !b.top {
		return c.False // a >= 2^63 > b
	}
	if b.isConst() && b.top && !a.top {
		return c.True
	}
	return c.mk(&Expr{op: OpLT, args: []*Expr{a, b}})
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		return c.Ite(a, b, c.Not(b))
	}
	if !a.top && !b.top {
		if l, ok := addLin(c.asLin(a), 1, c.asLin(b), -1); ok && l.bounded() {
			return c.eq0(l)
		}
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OpEQ, args: []*Expr{a, b}})
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.neg != nil {
		return a.neg
	}
	var r *Expr
	switch a.op {
	case OpNot:
		r = a.args[0]
	case OpTab, OpCase, OpVar:
		r = c.ddNot(a)
	case OpLE0:
		n := lin{k: 1 - a.k, atoms: a.args, coefs: make([]int64, len(a.coefs))}
		for i := range a.coefs {
			n.coefs[i] = -a.coefs[i]
		}
		r = c.le0(n)
	default:
		r = c.mk(&Expr{op: OpNot, args: []*Expr{a}})
	}
	a.neg = r
	if r.neg == nil {
		r.neg = a
	}
	return r
}

func (c *Ctx) Or(es ...*Expr) *Expr {
	// factor common conjuncts when all disjuncts are conjunctions (or literals)
	ns := make([]*Expr, 0, len(es))
	var common map[*Expr]bool
	for i, e := range es {
		if e == c.True {
			return c.True
		}
		if e == c.False {
			continue
		}
		_ = i
		ns = append(ns, e)
	}
	if len(ns) == 0 {
		return c.False
	}
	if len(ns) == 1 {
		return ns[0]
	}
	for i, e := range ns {
		cs := conj(e)
		if i == 0 {
			common = make(map[*Expr]bool, len(cs))
			for _, x := range cs {
				common[x] = true
			}
			continue
		}
		if len(common) == 0 {
			break
		}
		nc := make(map[*Expr]bool, len(common))
		for _, x := range cs {
			if common[x] {
				nc[x] = true
			}
		}
		common = nc
	}
	if len(common) > 0 {
		var out []*Expr
		for x := range common {
			out = append(out, x)
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		rest := make([]*Expr, len(ns))
		for i, e := range ns {
			var rr []*Expr
			for _, x := range conj(e) {
				if !common[x] {
					rr = append(rr, x)
				}
			}
			rest[i] = c.And(rr...)
		}
		out = append(out, c.Or(rest...))
		return c.And(out...)
	}
	neg := make([]*Expr, len(ns))
	for i, e := range ns {
		neg[i] = c.Not(e)
	}
	return c.Not(c.And(neg...))
}

func conj(e *Expr) []*Expr {
	if e.op == OpAnd {
		return e.args
	}
	return []*Expr{e}
}

type bound struct {
	lo, hi int64
	ex     []int64
}

// atomBound recognises single-atom literals: returns atom, and kind.
// kind: 1 => atom <= v ; 2 => atom >= v ; 3 => atom == v ; 4 => atom != v
func atomLit(e *Expr) (a *Expr, kind int, v int64) {
	switch e.op {
	case OpLE0:
		if len(e.args) == 1 {
			if e.coefs[0] == 1 {
				return e.args[0], 1, -e.k
			}
			if e.coefs[0] == -1 {
				return e.args[0], 2, e.k
			}
		}
	case OpEQ0:
		if len(e.args) == 1 && e.coefs[0] == 1 {
			return e.args[0], 3, -e.k
		}
	case OpNot:
		f := e.args[0]
		if f.op == OpEQ0 && len(f.args) == 1 && f.coefs[0] == 1 {
			return f.args[0], 4, -f.k
		}
	}
	return nil, 0, 0
}

func (b *bound) contains(v int64) bool {
	if v < b.lo || v > b.hi {
		return false
	}
	for _, x := range b.ex {
		if x == v {
			return false
		}
	}
	return true
}

func (b *bound) shrink() {
	for changed := true; changed; {
		changed = false
		for _, x := range b.ex {
			if x == b.lo && b.lo <= b.hi {
				b.lo++
				changed = true
			}
			if x == b.hi && b.lo <= b.hi {
				b.hi--
				changed = true
			}
		}
	}
}

// litUnder decides literal under bounds: 1 true, -1 false, 0 unknown
func litUnder(bs map[*Expr]*bound, e *Expr) int {
	a, kind, v := atomLit(e)
	if a == nil {
		return 0
	}
	b := bs[a]
	if b == nil {
		return 0
	}
	switch kind {
	case 1:
		if b.hi <= v {
			return 1
		}
		if b.lo > v {
			return -1
		}
	case 2:
		if b.lo >= v {
			return 1
		}
		if b.hi < v {
			return -1
		}
	case 3:
		if b.lo == v && b.hi == v {
			return 1
		}
		if !b.contains(v) {
			return -1
		}
	case 4:
		if !b.contains(v) {
			return 1
		}
		if b.lo == v && b.hi == v {
			return -1
		}
	}
	return 0
}

// setUnder decides literal l given set o over the same variable.
func setUnder(o, l *Expr) int {
	sub, dis := true, true
	for i, b := range o.tv {
		if b != 0 {
			if l.tv[i] != 0 {
				dis = false
			} else {
				sub = false
			}
		}
	}
	if sub {
		return 1
	}
	if dis {
		return -1
	}
	return 0
}

func (c *Ctx) And(es ...*Expr) *Expr {
	return c.andN(es, 0)
}

func (c *Ctx) andN(es []*Expr, depth int) *Expr {
	set := map[*Expr]bool{}
	var list []*Expr
	var add func(e *Expr) bool
	add = func(e *Expr) bool {
		if e == c.True || set[e] {
			return true
		}
		if e == c.False {
			return false
		}
		if e.op == OpAnd {
			for _, x := range e.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if set[c.Not(e)] {
			return false
		}
		set[e] = true
		list = append(list, e)
		return true
	}
	for _, e := range es {
		if !add(e) {
			return c.False
		}
	}
	if len(list) == 0 {
		return c.True
	}
	if len(list) == 1 {
		return list[0]
	}
	// one diagram for all conditions over small variables
	var dd *Expr
	{
		var rest []*Expr
		nd := 0
		for _, e := range list {
			if !isDD(e) {
				rest = append(rest, e)
				continue
			}
			nd++
			if dd == nil {
				dd = e
				continue
			}
			f := e
			n := c.ddGuard(func() *Expr { return c.ddAnd(dd, f) })
			if n == nil {
				rest = append(rest, e)
				continue
			}
			dd = n
			if dd == c.False {
				return dd
			}
		}
		if nd > 1 {
			list = append(rest, dd)
			set[dd] = true
			if len(list) == 1 {
				return dd
			}
		}
	}
	// atom bounds
	var bs map[*Expr]*bound
	nlit := 0
	for _, e := range list {
		a, kind, v := atomLit(e)
		if a == nil || a.top {
			continue
		}
		nlit++
		if bs == nil {
			bs = map[*Expr]*bound{}
		}
		b := bs[a]
		if b == nil {
			b = &bound{lo: a.lo, hi: a.hi}
			bs[a] = b
		}
		switch kind {
		case 1:
			b.hi = min(b.hi, v)
		case 2:
			b.lo = max(b.lo, v)
		case 3:
			b.lo = max(b.lo, v)
			b.hi = min(b.hi, v)
		case 4:
			b.ex = append(b.ex, v)
		}
	}
	for _, b := range bs {
		b.shrink()
		if b.lo > b.hi {
			return c.False
		}
	}
	out := make([]*Expr, 0, len(list))
	done := map[*Expr]bool{}
	again := false
	for _, e := range list {
		a, _, _ := atomLit(e)
		if a != nil && bs[a] != nil {
			if done[a] {
				continue
			}
			done[a] = true
			b := bs[a]
			l := lin{atoms: []*Expr{a}, coefs: []int64{1}}
			if b.lo == b.hi {
				l.k = -b.lo
				out = append(out, c.eq0(l))
				continue
			}
			if b.lo > a.lo {
				out = append(out, c.le0(lin{k: b.lo, atoms: l.atoms, coefs: []int64{-1}}))
			}
			if b.hi < a.hi {
				out = append(out, c.le0(lin{k: -b.hi, atoms: l.atoms, coefs: []int64{1}}))
			}
			sort.Slice(b.ex, func(i, j int) bool { return b.ex[i] < b.ex[j] })
			var last int64
			for i, x := range b.ex {
				if x > b.lo && x < b.hi && (i == 0 || x != last) {
					out = append(out, c.Not(c.eq0(lin{k: -x, atoms: l.atoms, coefs: l.coefs})))
				}
				last = x
			}
			continue
		}
		// clause: Not(And(lits)) -> simplify the lits under the others
		if e.op == OpNot && e.args[0].op == OpAnd {
			lits := e.args[0].args
			keep := make([]*Expr, 0, len(lits))
			dead := false
			for _, l := range lits {
				if set[l] {
					continue // literal true in the inner conjunction
				}
				if set[c.Not(l)] {
					dead = true // inner conjunction false -> clause true
					break
				}
				r := 0
				if isDD(l) {
					if dd != nil {
						f, g := l, dd
						if c.ddGuard(func() *Expr { return c.ddAnd(g, f) }) == c.False {
							r = -1
						} else if c.ddGuard(func() *Expr { return c.ddAnd(g, c.Not(f)) }) == c.False {
							r = 1
						}
					}
				} else {
					r = litUnder(bs, l)
				}
				switch r {
				case 1:
					continue
				case -1:
					dead = true
				}
				if dead {
					break
				}
				keep = append(keep, l)
			}
			if dead {
				continue
			}
			if len(keep) < len(lits) {
				again = true
				e = c.Not(c.And(keep...))
				if e == c.False {
					return c.False
				}
			}
		}
		out = append(out, e)
	}
	if again && depth < 6 {
		return c.andN(out, depth+1)
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	j := 0
	for i := range out {
		if out[i] == c.True {
			continue
		}
		if out[i] == c.False {
			return c.False
		}
		if j > 0 && out[j-1] == out[i] {
			continue
		}
		out[j] = out[i]
		j++
	}
	out = out[:j]
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Expr{op: OpAnd, args: out})
}

func (c *Ctx) Ite(b, x, y *Expr) *Expr {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x == c.True {
			return c.Or(b, y)
		}
		if x == c.False {
			return c.And(c.Not(b), y)
		}
		if y == c.True {
			return c.Or(c.Not(b), x)
		}
		if y == c.False {
			return c.And(b, x)
		}
		if x == b {
			return c.Or(b, y)
		}
		if y == b {
			return c.And(b, x)
		}
		return c.And(c.Or(c.Not(b), x), c.Or(b, y))
	}
	return c.iteRaw(b, x, y)
}

func (c *Ctx) iteRaw(b, x, y *Expr) *Expr {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	if b.op == OpNot {
		b, x, y = b.args[0], y, x
	}
	// ite(b, x, ite(b2, x, z)) = ite(b|b2, x, z)
	if y.op == OpIte && y.args[1] == x {
		return c.iteRaw(c.Or(b, y.args[0]), x, y.args[2])
	}
	if y.op == OpIte && y.args[0] == b {
		return c.iteRaw(b, x, y.args[2])
	}
	if x.op == OpIte && x.args[0] == b {
		return c.iteRaw(b, x.args[1], y)
	}
	if y.op == OpIte && y.args[2] == x {
		return c.iteRaw(c.And(c.Not(b), y.args[0]), y.args[1], x)
	}
	if r := c.lift(b, x, y); r != nil {
		return r
	}
	e := &Expr{op: OpIte, w: x.w, sg: x.sg, args: []*Expr{b, x, y}}
	e.top = x.top || y.top
	e.lo, e.hi = min(x.lo, y.lo), max(x.hi, y.hi)
	return c.mk(e)
}

// ---- evaluation under a model (var id -> value)

type Model struct {
	vals map[int32]int64
	memo map[int32]int64
	ctx  *Ctx
}

func (c *Ctx) NewModel() *Model {
	return &Model{vals: map[int32]int64{}, memo: map[int32]int64{}, ctx: c}
}

func (m *Model) with(over map[int32]int64) *Model {
	n := m.ctx.NewModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range over {
		n.vals[k] = v
	}
	return n
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) Eval(e *Expr) int64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpVar:
		if v, ok := m.vals[e.id]; ok {
			return v
		}
		if e.w == 0 {
			return 0
		}
		v := e.lo
		if e.lo <= 0 && e.hi >= 0 {
			v = 0
		}
		return v
	}
	if v, ok := m.memo[e.id]; ok {
		return v
	}
	r := evalNode(e, m.Eval)
	m.memo[e.id] = r
	return r
}

func evalNode(e *Expr, ev func(*Expr) int64) int64 {
	var r int64
	switch e.op {
	case OpLin:
		r = e.k
		for i, a := range e.args {
			r += e.coefs[i] * ev(a)
		}
	case OpCase:
		v := e.args[0]
		i := ev(v) - v.lo
		if i >= 0 && i < int64(len(e.coefs)) {
			r = ev(e.args[1+e.coefs[i]])
		}
	case OpTab:
		v := e.args[0]
		i := ev(v) - v.lo
		if i >= 0 && i < int64(len(e.coefs)) {
			r = e.coefs[i]
		}
	case OpFn:
		r = uniFns[e.name](ev(e.args[0]))
	case OpEMod:
		r = floorMod(ev(e.args[0]), e.k)
	case OpEDiv:
		r = floorDiv(ev(e.args[0]), e.k)
	case OpIte:
		if ev(e.args[0]) != 0 {
			r = ev(e.args[1])
		} else {
			r = ev(e.args[2])
		}
	case OpConv:
		r = wrapConst(ev(e.args[0]), e.w, e.sg)
	case OpNot:
		r = 1 - ev(e.args[0])
	case OpAnd:
		r = 1
		for _, a := range e.args {
			if ev(a) == 0 {
				r = 0
				break
			}
		}
	case OpLE0, OpEQ0:
		s := e.k
		for i, a := range e.args {
			s += e.coefs[i] * ev(a)
		}
		if e.op == OpLE0 {
			r = b2i(s <= 0)
		} else {
			r = b2i(s == 0)
		}
	default:
		a, b := ev(e.args[0]), ev(e.args[1])
		x := e.args[0]
		switch e.op {
		case OpAdd:
			r = wrapConst(a+b, e.w, e.sg)
		case OpSub:
			r = wrapConst(a-b, e.w, e.sg)
		case OpMul:
			r = wrapConst(a*b, e.w, e.sg)
		case OpAndB:
			r = wrapConst(a&b, e.w, e.sg)
		case OpOrB:
			r = wrapConst(a|b, e.w, e.sg)
		case OpXorB:
			r = wrapConst(a^b, e.w, e.sg)
		case OpShl:
			if uint64(b) >= 64 {
				r = 0
			} else {
				r = wrapConst(a<<uint(b), e.w, e.sg)
			}
		case OpShr:
			if e.sg {
				r = a >> min(uint64(b), 63)
			} else if uint64(b) >= 64 {
				r = 0
			} else {
				r = int64(uint64(a) >> uint(b))
			}
		case OpQuo, OpRem:
			if b == 0 {
				r = 0
				break
			}
			if !e.sg {
				if e.op == OpQuo {
					r = int64(uint64(a) / uint64(b))
				} else {
					r = int64(uint64(a) % uint64(b))
				}
			} else if b == -1 {
				if e.op == OpQuo {
					r = wrapConst(-a, e.w, e.sg)
				}
			} else if e.op == OpQuo {
				r = a / b
			} else {
				r = a % b
			}
		case OpLT:
			if x.sg {
				r = b2i(a < b)
			} else {
				r = b2i(uint64(a) < uint64(b))
			}
		case OpEQ:
			r = b2i(a == b)
		default:
			panic(fmt.Sprintf("eval op %d", e.op))
		}
	}
	return r
}

func (e *Expr) String() string { return e.str(6) }

func (e *Expr) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", e.id)
	}
	switch e.op {
	case OpConst:
		if e.w == 0 {
			return fmt.Sprint(e.k == 1)
		}
		return fmt.Sprint(e.k)
	case OpVar:
		return e.name
	}
	names := map[Op]string{OpLin: "lin", OpEMod: "emod", OpEDiv: "ediv", OpIte: "ite", OpConv: "conv", OpAdd: "add", OpSub: "sub", OpMul: "mul", OpQuo: "quo", OpRem: "rem", OpAndB: "and", OpOrB: "or", OpXorB: "xor", OpShl: "shl", OpShr: "shr", OpNot: "not", OpAnd: "and", OpLE0: "le0", OpEQ0: "eq0", OpLT: "lt", OpEQ: "eq", OpTab: "tab", OpCase: "case", OpFn: "fn"}
	if e.op == OpTab {
		return "tab(" + e.args[0].name + ")" + tabString(e)
	}
	if e.op == OpCase {
		s := "case(" + e.args[0].name
		for n, a := range e.args[1:] {
			t := make([]int64, len(e.coefs))
			for i, x := range e.coefs {
				t[i] = b2i(x == int64(n))
			}
			s += " " + tabString(&Expr{op: OpTab, coefs: t, args: e.args}) + "=>" + a.str(d-1)
		}
		return s + ")"
	}
	s := "(" + names[e.op] + e.name
	if e.k != 0 || e.op == OpLin {
		s += fmt.Sprintf(" k=%d", e.k)
	}
	for i, a := range e.args {
		if e.coefs != nil {
			s += fmt.Sprintf(" %d*", e.coefs[i])
		} else {
			s += " "
		}
		s += a.str(d - 1)
	}
	return s + ")"
}

// runs splits a table into maximal runs on which f is constant.
func tabRuns(t []int64, f func(i int) int64) [][2]int {
	var out [][2]int
	for i := 0; i < len(t); {
		j := i
		for j+1 < len(t) && f(j+1) == f(i) {
			j++
		}
		out = append(out, [2]int{i, j})
		i = j + 1
	}
	return out
}

func tabString(e *Expr) string {
	s := "{"
	lo := e.args[0].lo
	for _, r := range tabRuns(e.coefs, func(i int) int64 { return e.coefs[i] }) {
		if e.w == 0 && e.coefs[r[0]] == 0 {
			continue
		}
		s += fmt.Sprintf(" %d", lo+int64(r[0]))
		if r[1] > r[0] {
			s += fmt.Sprintf("-%d", lo+int64(r[1]))
		}
		if e.w != 0 {
			s += fmt.Sprintf(":%d", e.coefs[r[0]])
		}
	}
	return s + " }"
}

type projKey struct {
	e *Expr
	v int32
}

// proj over-approximates the values of the small variable v under e.
func (c *Ctx) proj(e *Expr, v *Expr) *Expr {
	if len(e.sup) == 0 {
		return e
	}
	i := sort.Search(len(e.sup), func(i int) bool { return e.sup[i] >= v.id })
	if i == len(e.sup) || e.sup[i] != v.id {
		return c.True
	}
	if e.tv != nil {
		return e
	}
	k := projKey{e, v.id}
	if r, ok := c.projs[k]; ok {
		return r
	}
	r := c.True
	switch {
	case e.op == OpCase && e.args[0] == v:
		t := make([]int64, len(v.tv))
		for i, n := range e.coefs {
			t[i] = b2i(e.args[1+n] != c.False)
		}
		r = c.fromTable(t, v, 0, false)
	case e.op == OpCase:
		r = c.tabAll(e.args[1:], v, func(a *Expr) *Expr { return c.proj(a, v) }, false)
	case e.op == OpAnd:
		r = c.tabAll(e.args, v, func(a *Expr) *Expr { return c.proj(a, v) }, true)
	case e.op == OpNot && e.args[0].op == OpAnd:
		r = c.tabAll(e.args[0].args, v, func(a *Expr) *Expr { return c.proj(c.Not(a), v) }, false)
	}
	if c.projs == nil {
		c.projs = map[projKey]*Expr{}
	}
	c.projs[k] = r
	return r
}

func (c *Ctx) tabAll(args []*Expr, v *Expr, f func(*Expr) *Expr, and bool) *Expr {
	t := make([]int64, len(v.tv))
	for i := range t {
		t[i] = b2i(and)
	}
	for _, a := range args {
		p := f(a)
		if p.isConst() {
			if (p == c.True) != and { // false in a conjunction, true in a disjunction
				return p
			}
			continue
		}
		for i := range t {
			if and {
				t[i] &= p.tv[i]
			} else {
				t[i] |= p.tv[i]
			}
		}
	}
	return c.fromTable(t, v, 0, false)
}

// interpolant finds a condition over one small variable that a implies and b
// excludes.
func (c *Ctx) interpolant(a, b *Expr) *Expr {
	for _, id := range a.sup {
		v := c.all[id]
		if v.tv == nil {
			continue
		}
		pa := c.proj(a, v)
		if pa.isConst() {
			continue
		}
		pb := c.proj(b, v)
		if pb.isConst() {
			continue
		}
		if setUnder(pa, pb) == -1 {
			return pa
		}
	}
	return nil
}

// split separates the atoms two linear forms share.
func split(a, b lin) (com, ra, rb lin) {
	ra, rb = lin{k: a.k}, lin{k: b.k}
	i, j := 0, 0
	put := func(l *lin, at *Expr, co int64) {
		l.atoms = append(l.atoms, at)
		l.coefs = append(l.coefs, co)
	}
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j >= len(b.atoms) || i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id:
			put(&ra, a.atoms[i], a.coefs[i])
			i++
		case i >= len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
			put(&rb, b.atoms[j], b.coefs[j])
			j++
		default:
			if a.coefs[i] == b.coefs[j] {
				put(&com, a.atoms[i], a.coefs[i])
			} else {
				put(&ra, a.atoms[i], a.coefs[i])
				put(&rb, b.atoms[j], b.coefs[j])
			}
			i++
			j++
		}
	}
	return
}

// lift pulls what both branches share out of a conditional:
// ite(b, s+t, s+u) = s + ite(b, t, u), also inside a modulus.
func (c *Ctx) lift(b, x, y *Expr) *Expr {
	if x.w == 0 || x.top || y.top || x.isConst() || y.isConst() {
		return nil
	}
	lx, ly := c.asLin(x), c.asLin(y)
	com, rx, ry := split(lx, ly)
	if len(com.atoms) == 0 {
		if len(rx.atoms) != 1 || len(ry.atoms) != 1 || rx.coefs[0] != ry.coefs[0] || rx.k != ry.k {
			return nil
		}
		p, q := rx.atoms[0], ry.atoms[0]
		if p.op != OpEMod || q.op != OpEMod || p.k != q.k {
			return nil
		}
		cm, rp, rq := split(c.asLin(p.args[0]), c.asLin(q.args[0]))
		if len(cm.atoms) == 0 {
			return nil
		}
		inner := c.liftSum(b, cm, rp, rq, 64, true)
		if inner == nil {
			return nil
		}
		e := c.emod(inner, p.k)
		r, ok := addLin(c.asLin(e), rx.coefs[0], lin{k: rx.k}, 1)
		if !ok {
			return nil
		}
		f, ok := c.linFit(r, x.w, x.sg)
		if !ok {
			return nil
		}
		return f
	}
	return c.liftSum(b, com, rx, ry, x.w, x.sg)
}

func (c *Ctx) liftSum(b *Expr, com, rx, ry lin, w uint8, sg bool) *Expr {
	px, ok1 := c.linFit(rx, 64, true)
	py, ok2 := c.linFit(ry, 64, true)
	if !ok1 || !ok2 {
		return nil
	}
	d := c.Ite(b, px, py)
	r, ok := addLin(com, 1, c.asLin(d), 1)
	if !ok {
		return nil
	}
	f, ok := c.linFit(r, w, sg)
	if !ok {
		return nil
	}
	return f
}
