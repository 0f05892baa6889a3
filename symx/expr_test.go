package main

import (
	"math/rand"
	"testing"
)

// TestNormalForms compares the simplified expressions with direct evaluation.
func TestNormalForms(t *testing.T) {
	for seed := int64(0); seed < 400; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type node struct {
			e *Expr
			f func(m []int64) int64
		}
		var ints, bools []node
		var vars []*Expr
		for i := 0; i < 4; i++ {
			i := i
			lo, hi := int64(r.Intn(30)), int64(0)
			hi = lo + int64(1+r.Intn(40))
			w, sg := uint8(32), true
			if r.Intn(2) == 0 {
				w = 64
			}
			_ = sg
			v := c.Var(string(rune('a'+i)), w, true, lo, hi)
			vars = append(vars, v)
			ints = append(ints, node{c.Conv(v, 64, true), func(m []int64) int64 { return m[i] }})
		}
		b := c.Var("x", 0, false, 0, 0)
		vars = append(vars, b)
		bools = append(bools, node{b, func(m []int64) int64 { return m[4] }})
		for k := 0; k < 8; k++ {
			n := int64(r.Intn(60) - 10)
			ints = append(ints, node{c.Int(n, 64, true), func([]int64) int64 { return n }})
		}
		for s := 0; s < 120; s++ {
			a, d := ints[r.Intn(len(ints))], ints[r.Intn(len(ints))]
			p, q := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
			var n node
			switch r.Intn(12) {
			case 0:
				n = node{c.Add(a.e, d.e), func(m []int64) int64 { return a.f(m) + d.f(m) }}
			case 1:
				n = node{c.Sub(a.e, d.e), func(m []int64) int64 { return a.f(m) - d.f(m) }}
			case 2:
				n = node{c.Rem(a.e, c.Int(26, 64, true)), func(m []int64) int64 { return a.f(m) % 26 }}
			case 3:
				n = node{c.Quo(a.e, c.Int(5, 64, true)), func(m []int64) int64 { return a.f(m) / 5 }}
			case 4, 5:
				n = node{c.Ite(p.e, a.e, d.e), func(m []int64) int64 {
					if p.f(m) != 0 {
						return a.f(m)
					}
					return d.f(m)
				}}
			case 6:
				n = node{c.Conv(c.Conv(a.e, 8, false), 64, true), func(m []int64) int64 { return int64(uint8(a.f(m))) }}
			case 7:
				n = node{c.Lt(a.e, d.e), func(m []int64) int64 { return b2i(a.f(m) < d.f(m)) }}
			case 8:
				n = node{c.Eq(a.e, d.e), func(m []int64) int64 { return b2i(a.f(m) == d.f(m)) }}
			case 9:
				n = node{c.And(p.e, q.e), func(m []int64) int64 { return p.f(m) & q.f(m) }}
			case 10:
				n = node{c.Or(p.e, c.Not(q.e)), func(m []int64) int64 { return p.f(m) | (1 - q.f(m)) }}
			case 11:
				n = node{c.Eq(p.e, q.e), func(m []int64) int64 { return b2i(p.f(m) == q.f(m)) }}
			}
			if n.e.w == 0 {
				bools = append(bools, n)
			} else {
				ints = append(ints, n)
			}
			for k := 0; k < 12; k++ {
				m := c.NewModel()
				vals := make([]int64, 5)
				for i, v := range vars {
					vals[i] = v.lo + int64(r.Intn(int(v.hi-v.lo+1)))
					m.vals[v.id] = vals[i]
				}
				got, want := m.Eval(n.e), n.f(vals)
				if got != want {
					t.Fatalf("seed %d step %d: %s = %d, want %d (%v)", seed, s, n.e, got, want, vals)
				}
				if n.e.w != 0 && !n.e.top && (got < n.e.lo || got > n.e.hi) {
					t.Fatalf("seed %d step %d: %s = %d outside [%d,%d]", seed, s, n.e, got, n.e.lo, n.e.hi)
				}
			}
		}
	}
}

// TestWide compares every operation at every width with Go's arithmetic, and the
// solver's encoding with both.
func TestWide(t *testing.T) {
	type ty struct {
		w  uint8
		sg bool
	}
	types := []ty{{8, false}, {8, true}, {16, false}, {32, true}, {32, false}, {64, true}, {64, false}}
	for seed := int64(0); seed < 300; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type node struct {
			e *Expr
			v int64
		}
		var ints, bools []node
		m := c.NewModel()
		var fix []*Expr
		for i := 0; i < 4; i++ {
			k := types[r.Intn(len(types))]
			lo, hi, top := typeRange(k.w, k.sg)
			if !top && r.Intn(2) == 0 {
				lo = max(lo, -int64(r.Intn(200)))
				hi = min(hi, lo+int64(1+r.Intn(300)))
			}
			v := c.Var(string(rune('a'+i)), k.w, k.sg, lo, hi)
			x := lo
			switch {
			case top:
				x = int64(r.Uint64() & uint64(hi))
			case r.Intn(6) == 0:
				x = hi
			case r.Intn(6) > 0:
				if d := uint64(hi) - uint64(lo); d == 1<<64-1 {
					x = int64(r.Uint64())
				} else {
					x = lo + int64(r.Uint64()%(d+1))
				}
			}
			m.vals[v.id] = x
			fix = append(fix, c.Eq(v, c.Int(x, k.w, k.sg)))
			ints = append(ints, node{v, x})
		}
		bools = append(bools, node{c.True, 1})
		var bad []*Expr
		for s := 0; s < 25; s++ {
			a := ints[r.Intn(len(ints))]
			w, sg := a.e.w, a.e.sg
			d := ints[r.Intn(len(ints))]
			if d.e.w != w || d.e.sg != sg {
				d = node{c.Conv(d.e, w, sg), wrapConst(d.v, w, sg)}
			}
			if r.Intn(4) == 0 {
				k := wrapConst(int64(r.Intn(300)-20), w, sg)
				d = node{c.Int(k, w, sg), k}
			}
			wr := func(x int64) int64 { return wrapConst(x, w, sg) }
			var n node
			switch op := r.Intn(15); op {
			case 0:
				n = node{c.Add(a.e, d.e), wr(a.v + d.v)}
			case 1:
				n = node{c.Sub(a.e, d.e), wr(a.v - d.v)}
			case 2:
				n = node{c.Mul(a.e, d.e), wr(a.v * d.v)}
			case 3, 4:
				if d.v == 0 || d.v == -1 {
					continue
				}
				q, rem := int64(0), int64(0)
				if sg {
					q, rem = a.v/d.v, a.v%d.v
				} else {
					q, rem = int64(uint64(a.v)/uint64(d.v)), int64(uint64(a.v)%uint64(d.v))
				}
				if !d.e.isConst() {
					// the engine guards divisors that may be zero
					bools = append(bools, node{c.Eq(d.e, c.Int(0, w, sg)), 0})
				}
				if op == 3 {
					n = node{c.Quo(a.e, d.e), wr(q)}
				} else {
					n = node{c.Rem(a.e, d.e), wr(rem)}
				}
			case 5:
				n = node{c.AndB(a.e, d.e), wr(a.v & d.v)}
			case 6:
				n = node{c.OrB(a.e, d.e), wr(a.v | d.v)}
			case 7:
				n = node{c.XorB(a.e, d.e), wr(a.v ^ d.v)}
			case 8:
				k := int64(r.Intn(int(w) + 3))
				var x int64
				if k < 64 {
					x = wr(a.v << uint(k))
				}
				n = node{c.Shl(a.e, c.Int(k, w, sg)), x}
			case 9:
				k := int64(r.Intn(int(w) + 3))
				var x int64
				if sg {
					x = a.v >> uint(min(k, 63))
				} else if k < 64 {
					x = int64(uint64(a.v) >> uint(k))
				}
				n = node{c.Shr(a.e, c.Int(k, w, sg)), x}
			case 10:
				k := types[r.Intn(len(types))]
				n = node{c.Conv(a.e, k.w, k.sg), wrapConst(a.v, k.w, k.sg)}
			case 11:
				x := a.v < d.v
				if !sg {
					x = uint64(a.v) < uint64(d.v)
				}
				n = node{c.Lt(a.e, d.e), b2i(x)}
			case 12:
				n = node{c.Eq(a.e, d.e), b2i(a.v == d.v)}
			case 13:
				p := bools[r.Intn(len(bools))]
				x := d.v
				if p.v != 0 {
					x = a.v
				}
				n = node{c.Ite(p.e, a.e, d.e), x}
			case 14:
				x := a.v <= d.v
				if !sg {
					x = uint64(a.v) <= uint64(d.v)
				}
				n = node{c.Le(a.e, d.e), b2i(x)}
			}
			if got := m.Eval(n.e); got != n.v {
				t.Fatalf("seed %d step %d: %s = %d, want %d (%s=%d, %s=%d, %d %v)", seed, s, n.e, got, n.v, a.e, a.v, d.e, d.v, w, sg)
			}
			if n.e.w != 0 && !n.e.top && (n.v < n.e.lo || n.v > n.e.hi) {
				t.Fatalf("seed %d step %d: %s = %d outside [%d,%d]", seed, s, n.e, n.v, n.e.lo, n.e.hi)
			}
			if n.e.w == 0 {
				bools = append(bools, n)
				x := n.e
				if n.v != 0 {
					x = c.Not(x)
				}
				bad = append(bad, x)
			} else {
				ints = append(ints, n)
				bad = append(bad, c.Not(c.Eq(n.e, c.Int(n.v, n.e.w, n.e.sg))))
			}
		}
		any := c.False
		for _, b := range bad {
			any = c.Or(any, b)
		}
		if any == c.False {
			continue
		}
		sv := NewSolver(c)
		res, _ := sv.Check(append(fix, any), false, true)
		if res == rSat {
			for i, b := range bad {
				if r, _ := sv.Check(append(fix[:4:4], b), false, true); r == rSat {
					t.Errorf("seed %d: node %d differs under the solver: %s", seed, i, b)
					break
				}
			}
		}
		sv.Close()
		if res == rSat {
			return
		}
	}
}
