package main

// Decision diagrams over small-domain variables. OpCase branches on args[0]:
// coefs[v-lo] is the number of the child in args[1:]. Children are constants,
// functions of one later variable, or OpCase nodes over later variables, so
// every function of small variables has one representation.

type ddBlowT struct{}

const ddBudget = 60000

func isDD(e *Expr) bool { return e.op == OpConst && !e.top || e.tv != nil || e.op == OpCase }

func (c *Ctx) topVar(e *Expr) *Expr {
	if e.op == OpCase {
		return e.args[0]
	}
	return c.all[e.sup[0]]
}

// child is e with the i:th value of v.
func (c *Ctx) child(e, v *Expr, i int) *Expr {
	if e.op == OpConst {
		return e
	}
	if c.topVar(e) != v {
		return e
	}
	if e.op == OpCase {
		return e.args[1+e.coefs[i]]
	}
	if e.w == 0 {
		return c.Bool(e.tv[i] != 0)
	}
	return c.Int(e.tv[i], e.w, e.sg)
}

func (c *Ctx) ddTick() {
	c.ddSteps++
	if c.ddSteps > ddBudget {
		panic(ddBlowT{})
	}
}

// ddGuard runs f with a node budget; nil if it is exceeded.
func (c *Ctx) ddGuard(f func() *Expr) (r *Expr) {
	if c.ddDepth > 0 {
		return f()
	}
	c.ddDepth++
	c.ddSteps = 0
	defer func() {
		c.ddDepth--
		if p := recover(); p != nil {
			if _, ok := p.(ddBlowT); !ok {
				panic(p)
			}
			c.DDBlown++
			r = nil
		}
	}()
	return f()
}

// mkCase builds the node from the child for every value of v.
func (c *Ctx) mkCase(v *Expr, ch []*Expr, w uint8, sg bool) *Expr {
	same, consts := true, true
	for _, x := range ch {
		if x != ch[0] {
			same = false
		}
		if x.op != OpConst {
			consts = false
		}
	}
	if same {
		return ch[0]
	}
	if consts {
		t := make([]int64, len(ch))
		for i, x := range ch {
			t[i] = x.k
		}
		return c.fromTable(t, v, w, sg)
	}
	args := []*Expr{v}
	ix := make([]int64, len(ch))
	num := map[*Expr]int64{}
	lo, hi := ch[0].lo, ch[0].hi
	for i, x := range ch {
		n, ok := num[x]
		if !ok {
			n = int64(len(args) - 1)
			num[x] = n
			args = append(args, x)
			lo, hi = min(lo, x.lo), max(hi, x.hi)
		}
		ix[i] = n
	}
	r := c.intern(&Expr{op: OpCase, w: w, sg: sg, args: args, coefs: ix, lo: lo, hi: hi})
	return r
}

// ddBase is the offset-normalised form of an integer diagram.
func (c *Ctx) ddBase(e *Expr) (*Expr, int64) {
	if e.base == nil {
		z := leftmost(e)
		if z == 0 && e.w == 64 && e.sg {
			e.base = e
		} else {
			e.base = c.ddMap(e, 64, true, func(v int64) int64 { return v - z })
		}
		e.baseOff = z
	}
	return e.base, e.baseOff
}

func leftmost(e *Expr) int64 {
	for e.op == OpCase {
		e = e.args[1+e.coefs[0]]
	}
	if e.op == OpConst {
		return e.k
	}
	return e.tv[0]
}

// ddMap applies f to the leaves.
func (c *Ctx) ddMap(e *Expr, w uint8, sg bool, f func(int64) int64) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(e *Expr) *Expr
	rec = func(e *Expr) *Expr {
		if r, ok := memo[e]; ok {
			return r
		}
		var r *Expr
		switch {
		case e.op == OpConst:
			if w == 0 {
				r = c.Bool(f(e.k) != 0)
			} else {
				r = c.Int(f(e.k), w, sg)
			}
		case e.op == OpCase:
			m := make([]*Expr, len(e.args)-1)
			for i := range m {
				m[i] = rec(e.args[1+i])
			}
			ch := make([]*Expr, len(e.coefs))
			for i, n := range e.coefs {
				ch[i] = m[n]
			}
			r = c.mkCase(e.args[0], ch, w, sg)
		default:
			t := make([]int64, len(e.tv))
			for i, v := range e.tv {
				t[i] = f(v)
			}
			r = c.fromTable(t, c.all[e.sup[0]], w, sg)
		}
		memo[e] = r
		return r
	}
	return rec(e)
}

func (c *Ctx) ddNot(e *Expr) *Expr {
	return c.ddMap(e, 0, false, func(v int64) int64 { return 1 - v })
}

type pair32 struct{ a, b int32 }

func (c *Ctx) ddAnd(a, b *Expr) *Expr {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := pair32{a.id, b.id}
	if r, ok := c.ddAndMemo[k]; ok {
		return r
	}
	c.ddTick()
	va, vb := c.topVar(a), c.topVar(b)
	v := va
	if vb.id < va.id {
		v = vb
	}
	ch := make([]*Expr, len(v.tv))
	if a.tv != nil && b.tv != nil && va == vb {
		t := make([]int64, len(v.tv))
		for i := range t {
			t[i] = a.tv[i] & b.tv[i]
		}
		r := c.fromTable(t, v, 0, false)
		c.ddAndMemo[k] = r
		return r
	}
	loc := map[pair32]*Expr{}
	for i := range ch {
		x, y := c.child(a, v, i), c.child(b, v, i)
		lk := pair32{x.id, y.id}
		r, ok := loc[lk]
		if !ok {
			r = c.ddAnd(x, y)
			loc[lk] = r
		}
		ch[i] = r
	}
	r := c.mkCase(v, ch, 0, false)
	if c.ddAndMemo == nil {
		c.ddAndMemo = map[pair32]*Expr{}
	}
	c.ddAndMemo[k] = r
	return r
}

type ddEnt struct {
	p   *Expr
	res *Expr
}

// ddApply evaluates the node p whose arguments are all diagrams.
func (c *Ctx) ddApply(p *Expr) *Expr {
	var v *Expr
	for _, a := range p.args {
		if a.op == OpConst {
			continue
		}
		if t := c.topVar(a); v == nil || t.id < v.id {
			v = t
		}
	}
	if v == nil {
		r := evalNode(p, func(a *Expr) int64 { return a.k })
		if p.w == 0 {
			return c.Bool(r != 0)
		}
		return c.Int(r, p.w, p.sg)
	}
	if p.op == OpIte {
		switch {
		case p.args[0] == c.True:
			return p.args[1]
		case p.args[0] == c.False:
			return p.args[2]
		case p.args[1] == p.args[2]:
			return p.args[1]
		}
	}
	h := p.hash()
	for _, en := range c.ddMemo[h] {
		if en.p.same(p) {
			return en.res
		}
	}
	c.ddTick()
	ch := make([]*Expr, len(v.tv))
	loc := map[string]*Expr{}
	key := make([]byte, 0, 4*len(p.args))
	for i := range ch {
		args := make([]*Expr, len(p.args))
		key = key[:0]
		for j, a := range p.args {
			args[j] = c.child(a, v, i)
			id := args[j].id
			key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		}
		r, ok := loc[string(key)]
		if !ok {
			q := *p
			q.args = args
			r = c.ddApply(&q)
			loc[string(key)] = r
		}
		ch[i] = r
	}
	r := c.mkCase(v, ch, p.w, p.sg)
	if c.ddMemo == nil {
		c.ddMemo = map[uint64][]ddEnt{}
	}
	c.ddMemo[h] = append(c.ddMemo[h], ddEnt{p, r})
	return r
}

func supLE(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
	}
	return true
}

// ddTry builds the node as a diagram if that is possible and reasonable.
func (c *Ctx) ddTry(e *Expr) *Expr {
	var big []int32
	for _, a := range e.args {
		if !isDD(a) {
			return nil
		}
		if len(a.sup) > len(big) {
			big = a.sup
		}
	}
	if len(big) == 0 {
		return nil
	}
	if e.op != OpIte && e.op != OpNot && e.op != OpAnd {
		for _, a := range e.args {
			if !supLE(a.sup, big) {
				return nil
			}
		}
	}
	return c.ddGuard(func() *Expr { return c.ddApply(e) })
}

// ddModel finds values making the diagram e true, keeping those of m if
// possible.
func (c *Ctx) ddModel(e *Expr, m *Model) map[int32]int64 {
	out := map[int32]int64{}
	for !e.isConst() {
		v := c.topVar(e)
		ch := func(i int) *Expr { return c.child(e, v, i) }
		pick := -1
		if old := m.Eval(v) - v.lo; old >= 0 && old < int64(len(v.tv)) && ch(int(old)) != c.False {
			pick = int(old)
		} else {
			for i := range v.tv {
				if ch(i) != c.False {
					pick = i
					break
				}
			}
		}
		out[v.id] = v.lo + int64(pick)
		e = ch(pick)
	}
	return out
}
