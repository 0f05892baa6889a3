package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(x *Exec, st *State, fn *ssa.Function, a []Value) Value

var intrinsics map[string]intrinsicFn

func (x *Exec) intrinsic(fn *ssa.Function) intrinsicFn {
	if fn.Synthetic == "package initializer" {
		return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return TupleV{} }
	}
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		if fn.Pkg != nil && x.p.skipInitFn(fn.Pkg.Pkg.Path()) {
			return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return TupleV{} }
		}
	}
	n := fn.String()
	if h, ok := intrinsics[n]; ok {
		x.fnSeen["stub "+n]++
		return h
	}
	if o := fn.Origin(); o != nil {
		if h, ok := intrinsics[o.String()]; ok {
			return h
		}
	}
	return nil
}

func (p *Program) skipInitFn(path string) bool {
	switch path {
	case "os", "time", "syscall", "internal/godebug", "log":
		return true
	}
	return false
}

func strArg(x *Exec, v Value) string {
	s, ok := v.(StrV)
	if !ok || s.b != nil {
		x.unsupported("symbolic string where a constant is needed")
	}
	return s.s
}

func expr(v Value) *Expr { return v.(*Expr) }

func asciiMap(up bool) intrinsicFn {
	return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		s := a[0].(StrV)
		if s.b == nil {
			if up {
				return StrV{s: strings.ToUpper(s.s)}
			}
			return StrV{s: strings.ToLower(s.s)}
		}
		for _, b := range s.b {
			if b.hi >= 0x80 {
				if x.decide(st, x.c.Lt(b, x.c.Int(0x80, 8, false))) {
					continue
				}
				// non-ASCII: decode, map, encode
				var out []*Expr
				bs := s.b
				for len(bs) > 0 {
					r, n := x.decodeRune(st, bs)
					if r.isConst() && r.k == 0xFFFD {
						x.unsupported("case mapping of invalid UTF-8")
					}
					var m Value
					if up {
						m = intrinsics["unicode.ToUpper"](x, st, nil, []Value{r})
					} else {
						m = intrinsics["unicode.ToLower"](x, st, nil, []Value{r})
					}
					out = x.encodeRune(st, m.(*Expr), out)
					bs = bs[n:]
				}
				return mkStr(out)
			}
		}
		r := make([]*Expr, len(s.b))
		c := x.c
		for i, b := range s.b {
			lo, hi, d := int64('a'), int64('z'), int64(-32)
			if !up {
				lo, hi, d = 'A', 'Z', 32
			}
			in := c.And(c.Le(c.Int(lo, 8, false), b), c.Le(b, c.Int(hi, 8, false)))
			if in == c.False {
				r[i] = b
				continue
			}
			var m *Expr
			if d < 0 {
				m = c.Sub(b, c.Int(32, 8, false))
			} else {
				m = c.Add(b, c.Int(32, 8, false))
			}
			r[i] = c.Ite(in, m, b)
		}
		return mkStr(r)
	}
}

func mathF(f func(float64) float64) intrinsicFn {
	return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return FloatV(f(float64(a[0].(FloatV))))
	}
}

func nop(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
	return x.zeroResult(fn)
}

func (x *Exec) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

func (x *Exec) observe(st *State, tag string, v *Expr) {
	n := 0
	if st.obs != nil {
		n = st.obs.n + 1
	}
	st.obs = &obsNode{st.obs, tag, v, n}
}

func init() { setupIntrinsics(); gobIntrinsics() }

func setupIntrinsics() {
	arg0 := func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return a[0] }
	intrinsics = map[string]intrinsicFn{
		"unicode.IsUpper":    uniPred("IsUpper"),
		"unicode.IsLower":    uniPred("IsLower"),
		"unicode.IsSpace":    uniPred("IsSpace"),
		"unicode.IsLetter":   uniPred("IsLetter"),
		"unicode.IsDigit":    uniPred("IsDigit"),
		"unicode.IsNumber":   uniPred("IsNumber"),
		"unicode.IsPunct":    uniPred("IsPunct"),
		"unicode.IsPrint":    uniPred("IsPrint"),
		"unicode.IsControl":  uniPred("IsControl"),
		"unicode.IsTitle":    uniPred("IsTitle"),
		"unicode.ToUpper":    uniMap("ToUpper"),
		"unicode.ToLower":    uniMap("ToLower"),
		"unicode.ToTitle":    uniMap("ToTitle"),
		"unicode.SimpleFold": uniMap("SimpleFold"),
		"strings.ToUpper":    asciiMap(true),
		"strings.ToLower":    asciiMap(false),

		"math.Ceil":  mathF(math.Ceil),
		"math.Floor": mathF(math.Floor),
		"math.Sqrt":  mathF(math.Sqrt),
		"math.Abs":   mathF(math.Abs),
		"math.Log":   mathF(math.Log),
		"math.Log2":  mathF(math.Log2),
		"math.Trunc": mathF(math.Trunc),
		"math.Round": mathF(math.Round),
		"math.Pow": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			return FloatV(math.Pow(float64(a[0].(FloatV)), float64(a[1].(FloatV))))
		},
		"math.Float64bits": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			return x.c.Int(int64(math.Float64bits(float64(a[0].(FloatV)))), 64, false)
		},
		"math.Float64frombits": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			return FloatV(math.Float64frombits(uint64(x.concretize(st, expr(a[0])))))
		},
		"internal/strconv.float64bits": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			return x.c.Int(int64(math.Float64bits(float64(a[0].(FloatV)))), 64, false)
		},
		"internal/strconv.float64frombits": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			return FloatV(math.Float64frombits(uint64(x.concretize(st, expr(a[0])))))
		},

		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*internal/sync.Mutex).Lock": nop, "(*internal/sync.Mutex).Unlock": nop,
		"(*internal/godebug.Setting).Value": nop, "(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/godebug.New": nop, "internal/godebug.setUpdate": nop, "internal/godebug.registerMetric": nop, "internal/godebug.setNewIncNonDefault": nop,
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop, "runtime.Gosched": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"internal/abi.NoEscape": arg0, "internal/abi.Escape": arg0,
		"internal/bytealg.MakeNoZero": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			n := int(x.concretize(st, expr(a[0])))
			f := make([]*Expr, n)
			for i := range f {
				f[i] = x.c.Int(0, 8, false)
			}
			return x.byteSlice(st, f)
		},
		"verif/harness/models.Unmodelled": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			x.unsupported("unmodelled: %s", strArg(x, a[0]))
			return nil
		},
		"log.SetFlags": nop, "log.SetOutput": nop,
		"os.runtime_args": nop, "syscall.runtime_envs": nop, "syscall.Getpagesize": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return x.c.Int(4096, 64, true) },
		"os.NewFile": func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
			// distinct dummy files for the standard streams
			z := x.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			return PtrV{obj: x.newObj(st, z)}
		},
	}
	fmtFloat := func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return StrV{s: strconv.FormatFloat(float64(a[0].(FloatV)), byte(x.concretize(st, expr(a[1]))), int(x.concretize(st, expr(a[2]))), int(x.concretize(st, expr(a[3]))))}
	}
	intrinsics["strconv.FormatFloat"] = fmtFloat
	intrinsics["internal/strconv.FormatFloat"] = fmtFloat
	intrinsics["verif/harness/models.parseFloat"] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		f, err := strconv.ParseFloat(strArg(x, a[0]), int(x.concretize(st, expr(a[1]))))
		return TupleV{FloatV(f), x.c.Bool(err == nil)}
	}
	symAPI()
	atomics()
}

func symAPI() {
	pre := "verif/sym."
	reg := func(name string, f intrinsicFn) { intrinsics[pre+name] = f }
	reg("Int", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 64, true, expr(a[1]).k, expr(a[2]).k)
	})
	reg("Int64", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 64, true, expr(a[1]).k, expr(a[2]).k)
	})
	reg("Uint64", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 64, false, 0, math.MaxInt64)
	})
	reg("Rune", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 32, true, expr(a[1]).k, expr(a[2]).k)
	})
	reg("Byte", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 8, false, expr(a[1]).k, expr(a[2]).k)
	})
	reg("Bool", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.input(st, strArg(x, a[0]), 0, false, 0, 1)
	})
	reg("Choice", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		// idempotent under re-execution: remember the input while deciding
		n := expr(a[1]).k
		save := st.ins
		e := x.input(st, strArg(x, a[0]), 64, true, 0, n-1)
		drawn := st.ins
		st.ins = save
		v := x.concretize(st, e)
		st.ins = drawn
		return x.c.Int(v, 64, true)
	})
	reg("Threads", threadsStart)
	reg("Yield", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.yield(st, PtrV{})
	})
	reg("Block", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.yield(st, a[0].(PtrV))
	})
	reg("Fork", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.c.Bool(x.decide(st, expr(a[0])))
	})
	reg("Assume", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		x.assume(st, expr(a[0]))
		return TupleV{}
	})
	reg("Assert", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		s, _ := a[1].(StrV)
		x.assertCond(st, expr(a[0]), "assert", s.s)
		return TupleV{}
	})
	reg("Reach", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		x.Reached[strArg(x, a[0])]++
		return TupleV{}
	})
	reg("Observe", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		x.observe(st, strArg(x, a[0]), expr(a[1]))
		return TupleV{}
	})
	reg("ObserveBool", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		x.observe(st, strArg(x, a[0]), expr(a[1]))
		return TupleV{}
	})
	reg("ObserveRunes", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		tag := strArg(x, a[0])
		s := a[1].(SliceV)
		x.observe(st, tag+".len", x.c.Int(int64(s.len), 64, true))
		for _, e := range x.sliceElems(st, s) {
			x.observe(st, tag, e.(*Expr))
		}
		return TupleV{}
	})
	reg("ObserveString", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		tag := strArg(x, a[0])
		s := a[1].(StrV)
		x.observe(st, tag+".len", x.c.Int(int64(s.Len()), 64, true))
		for _, e := range x.c.strBytes(s) {
			x.observe(st, tag, e)
		}
		return TupleV{}
	})
	bin := func(f func(c *Ctx, a, b *Expr) *Expr) intrinsicFn {
		return func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return f(x.c, expr(a[0]), expr(a[1])) }
	}
	reg("And", bin(func(c *Ctx, a, b *Expr) *Expr { return c.And(a, b) }))
	reg("Or", bin(func(c *Ctx, a, b *Expr) *Expr { return c.Or(a, b) }))
	reg("Implies", bin(func(c *Ctx, a, b *Expr) *Expr { return c.Or(c.Not(a), b) }))
	reg("Iff", bin(func(c *Ctx, a, b *Expr) *Expr { return c.Eq(a, b) }))
	reg("Not", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return x.c.Not(expr(a[0])) })
	ite := func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		return x.c.Ite(expr(a[0]), expr(a[1]), expr(a[2]))
	}
	reg("IteInt", ite)
	reg("IteRune", ite)
	reg("Symbolic", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return x.c.True })
	reg("Thorough", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return x.c.Bool(thorough) })
	reg("Bound", func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		x.bounds[strArg(x, a[0])] = strArg(x, a[1])
		return TupleV{}
	})
}

func (x *Exec) assume(st *State, e *Expr) {
	if e == x.c.True {
		return
	}
	res, m := x.feasible(st, e, false)
	if res == rUnsat {
		panic(endPath{"assume", ""})
	}
	if res == rUnknown {
		x.Incon["solver unknown on an assumption"]++
		panic(endPath{"assume", ""})
	}
	st.model = m
	x.Ends = append(x.Ends, append(x.pcList(st), x.c.Not(e)))
	x.addPC(st, e)
}

func atomics() {
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pk+"Load"+ty] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value { return x.load(st, a[0].(PtrV)) }
			intrinsics[pk+"Store"+ty] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
				x.store(st, a[0].(PtrV), a[1])
				return TupleV{}
			}
			intrinsics[pk+"Add"+ty] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
				v := x.c.Add(x.load(st, a[0].(PtrV)).(*Expr), expr(a[1]))
				x.store(st, a[0].(PtrV), v)
				return v
			}
			intrinsics[pk+"Swap"+ty] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
				v := x.load(st, a[0].(PtrV))
				x.store(st, a[0].(PtrV), a[1])
				return v
			}
			intrinsics[pk+"CompareAndSwap"+ty] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
				v := x.load(st, a[0].(PtrV))
				eq := x.decide(st, x.eqVal(st, v, a[1]))
				if eq {
					x.store(st, a[0].(PtrV), a[2])
				}
				return x.c.Bool(eq)
			}
		}
	}
}

var thorough bool
var _ = fmt.Sprint
