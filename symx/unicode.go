package main

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- unicode classification and case mapping as formulas

type seg struct {
	lo, hi int64
	alt    bool
	d0, d1 int64 // value at lo parity / other parity
}

var segMu sync.Mutex
var segCache = map[string][]seg{}

func segments(name string, g func(rune) int64) []seg {
	segMu.Lock()
	defer segMu.Unlock()
	if s, ok := segCache[name]; ok {
		return s
	}
	var out []seg
	const max = 0x110000
	vals := make([]int64, max)
	for r := range vals {
		vals[r] = g(rune(r))
	}
	i := 0
	for i < max {
		j := i
		for j+1 < max && vals[j+1] == vals[i] {
			j++
		}
		if j > i || i+1 >= max {
			out = append(out, seg{lo: int64(i), hi: int64(j), d0: vals[i], d1: vals[i]})
			i = j + 1
			continue
		}
		// try alternating
		j = i + 1
		for j+1 < max && vals[j+1] == vals[j-1] && vals[j+1] != vals[j] {
			j++
		}
		if j >= i+3 {
			// leave the last one if it begins a constant run
			if j+1 < max && vals[j+1] == vals[j] {
				j--
			}
			out = append(out, seg{lo: int64(i), hi: int64(j), alt: true, d0: vals[i], d1: vals[i+1]})
			i = j + 1
			continue
		}
		out = append(out, seg{lo: int64(i), hi: int64(i), d0: vals[i], d1: vals[i]})
		i++
	}
	out = append([]seg{{lo: math.MinInt32, hi: -1, d0: g(-1), d1: g(-1)}}, out...)
	out = append(out, seg{lo: max, hi: math.MaxInt32, d0: g(max), d1: g(max)})
	segCache[name] = out
	return out
}

// uniFns are the functions OpFn may apply; predicates give 0 or 1.
var uniFns = map[string]func(int64) int64{}

func pred(name string, f func(rune) bool) {
	uniFns[name] = func(v int64) int64 { return b2i(f(rune(v))) }
}

func init() {
	pred("IsUpper", unicode.IsUpper)
	pred("IsLower", unicode.IsLower)
	pred("IsSpace", unicode.IsSpace)
	pred("IsLetter", unicode.IsLetter)
	pred("IsDigit", unicode.IsDigit)
	pred("IsNumber", unicode.IsNumber)
	pred("IsPunct", unicode.IsPunct)
	pred("IsPrint", unicode.IsPrint)
	pred("IsControl", unicode.IsControl)
	pred("IsTitle", unicode.IsTitle)
	for n, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold} {
		uniFns[n] = func(v int64) int64 { return int64(f(rune(v))) }
	}
}

// fnSegs are the segments on which a function is constant (predicates) or a
// constant distance from its argument (maps).
func fnSegs(name string, isPred bool, lo, hi int64) []seg {
	f := uniFns[name]
	segs := segments(name, func(r rune) int64 {
		if isPred {
			return f(int64(r))
		}
		return f(int64(r)) - int64(r)
	})
	i := sort.Search(len(segs), func(i int) bool { return segs[i].hi >= lo })
	j := sort.Search(len(segs), func(i int) bool { return segs[i].lo > hi })
	return segs[i:j]
}

// Fn applies a Unicode function to a 32-bit rune.
func (c *Ctx) Fn(name string, isPred bool, e *Expr) *Expr {
	w, sg := e.w, e.sg
	if isPred {
		w, sg = 0, false
	}
	konst := func(v int64) *Expr {
		if isPred {
			return c.Bool(v != 0)
		}
		return c.Int(v, w, sg)
	}
	if e.isConst() {
		return konst(uniFns[name](e.k))
	}
	if e.op == OpIte {
		return c.Ite(e.args[0], c.Fn(name, isPred, e.args[1]), c.Fn(name, isPred, e.args[2]))
	}
	segs := fnSegs(name, isPred, e.lo, e.hi)
	if isPred {
		all := true
		for _, s := range segs {
			all = all && s.d0 == segs[0].d0 && s.d1 == s.d0
		}
		if all {
			return konst(segs[0].d0)
		}
		return c.mk(&Expr{op: OpFn, name: name, args: []*Expr{e}, lo: 0, hi: 1})
	}
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	zero := true
	for _, s := range segs {
		a, b := max(s.lo, e.lo), min(s.hi, e.hi)
		for _, d := range []int64{s.d0, s.d1} {
			zero = zero && d == 0
			lo, hi = min(lo, a+d), max(hi, b+d)
		}
	}
	if zero {
		return e
	}
	return c.mk(&Expr{op: OpFn, name: name, w: w, sg: sg, args: []*Expr{e}, lo: lo, hi: hi})
}

// uniFn renders an application as a balanced decision tree over the segments.
func (m *emitter) uniFn(e *Expr) string {
	in := e.args[0]
	segs := fnSegs(e.name, e.w == 0, in.lo, in.hi)
	t := m.at(in, 32)
	leaf := func(d int64) string {
		if e.w == 0 {
			return fmt.Sprint(d != 0)
		}
		if d == 0 {
			return t
		}
		return fmt.Sprintf("(bvadd %s %s)", t, bvConst(d, 32))
	}
	var rec func(s []seg) string
	rec = func(s []seg) string {
		same := true
		for _, g := range s {
			same = same && g.d0 == s[0].d0 && g.d1 == s[0].d0
		}
		if same {
			return leaf(s[0].d0)
		}
		if len(s) == 1 {
			return fmt.Sprintf("(ite (= ((_ extract 0 0) %s) %s) %s %s)", t, bvConst(s[0].lo&1, 1), leaf(s[0].d0), leaf(s[0].d1))
		}
		h := len(s) / 2
		return fmt.Sprintf("(ite (bvslt %s %s) %s %s)", t, bvConst(s[h].lo, 32), rec(s[:h]), rec(s[h:]))
	}
	return rec(segs)
}

func uniPred(name string) intrinsicFn {
	return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.c.Fn(name, true, expr(a[0]))
	}
}

func uniMap(name string) intrinsicFn {
	return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.c.Fn(name, false, expr(a[0]))
	}
}
