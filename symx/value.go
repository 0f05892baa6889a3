package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr (ints, bools), FloatV, StrV, PtrV, SliceV, *AggV
// (structs and arrays), IfaceV, FuncV, MapV, TupleV, OpaqueV.
type Value interface{}

type FloatV float64

type StrV struct {
	s string
	b []*Expr // non-nil: symbolic bytes
}

type PtrV struct {
	obj  int32
	path []int32 // -1: symbolic index given by sym
	sym  *Expr
	symN int32 // number of candidate elements (sym in [0,symN))
	symO int32 // offset added to sym
}

type SliceV struct {
	arr           PtrV // pointer to the backing array
	off, len, cap int
	null          bool
}

type AggV struct {
	own *token_t
	f   []Value
}

type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	builtin *ssa.Builtin
	binds   []Value
}

type MapV struct{ obj int32 }

type MapObj struct {
	own  *token_t
	keys []Value
	vals []Value
}

type TupleV []Value

// OpaqueV stands for a value the engine does not interpret (channels, unsafe...).
type OpaqueV struct{ what string }

// IterV is the state of a range over a map or string (immutable).
type IterV struct {
	isStr bool
	str   StrV
	keys  []Value
	m     int32
	obj   int32 // heap cell holding the position
}

type token_t struct{ _ byte }

func (s StrV) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (c *Ctx) strBytes(s StrV) []*Expr {
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := range r {
		r[i] = c.Int(int64(s.s[i]), 8, false)
	}
	return r
}

func mkStr(b []*Expr) StrV {
	for _, x := range b {
		if !x.isConst() {
			if b == nil {
				return StrV{}
			}
			return StrV{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.k)
	}
	return StrV{s: string(r)}
}

// ---- persistent heap: radix trie keyed by object id

const hBits = 5
const hLevels = 5 // 2^25 objects

type hnode struct {
	own  *token_t
	kids [1 << hBits]*hnode
	vals *[1 << hBits]Value
}

type Heap struct{ root *hnode }

func (h *Heap) get(id int32) Value {
	n := h.root
	for l := hLevels - 1; l > 0; l-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(uint(l)*hBits))&31]
	}
	if n == nil || n.vals == nil {
		return nil
	}
	return n.vals[id&31]
}

func (h *Heap) set(id int32, v Value, tk *token_t) {
	h.root = hset(h.root, hLevels-1, id, v, tk)
}

func hset(n *hnode, l int, id int32, v Value, tk *token_t) *hnode {
	if n == nil {
		n = &hnode{own: tk}
		if l == 0 {
			n.vals = new([1 << hBits]Value)
		}
	} else if n.own != tk {
		m := &hnode{own: tk, kids: n.kids}
		if n.vals != nil {
			vv := *n.vals
			m.vals = &vv
		}
		n = m
	}
	if l == 0 {
		n.vals[id&31] = v
		return n
	}
	i := (id >> (uint(l) * hBits)) & 31
	n.kids[i] = hset(n.kids[i], l-1, id, v, tk)
	return n
}

// diffIDs lists ids below limit whose content differs between a and b.
func diffIDs(a, b *hnode, l int, base int32, limit int32, out *[]int32) {
	if a == b || base >= limit {
		return
	}
	if l == 0 {
		for i := int32(0); i < 32; i++ {
			var x, y Value
			if a != nil {
				x = a.vals[i]
			}
			if b != nil {
				y = b.vals[i]
			}
			if base+i < limit && !sameIdent(x, y) {
				*out = append(*out, base+i)
			}
		}
		return
	}
	for i := int32(0); i < 32; i++ {
		var x, y *hnode
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x != y {
			diffIDs(x, y, l-1, base+i<<(uint(l)*hBits), limit, out)
		}
	}
}

// sameIdent: cheap identity (may answer false for equal values).
func sameIdent(x, y Value) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case *Expr:
		b, ok := y.(*Expr)
		return ok && a == b
	case *AggV:
		b, ok := y.(*AggV)
		return ok && a == b
	case *MapObj:
		b, ok := y.(*MapObj)
		return ok && a == b
	case StrV:
		b, ok := y.(StrV)
		return ok && a.b == nil && b.b == nil && a.s == b.s
	case PtrV:
		b, ok := y.(PtrV)
		return ok && ptrEq(a, b)
	case SliceV:
		b, ok := y.(SliceV)
		return ok && a.off == b.off && a.len == b.len && a.cap == b.cap && a.null == b.null && ptrEq(a.arr, b.arr)
	case FloatV:
		b, ok := y.(FloatV)
		return ok && a == b
	case MapV:
		b, ok := y.(MapV)
		return ok && a == b
	case FuncV:
		b, ok := y.(FuncV)
		return ok && a.fn == b.fn && len(a.binds) == 0 && len(b.binds) == 0 && a.builtin == b.builtin
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		return a.t == nil || (types.Identical(a.t, b.t) && sameIdent(a.v, b.v))
	}
	return false
}

func ptrEq(a, b PtrV) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) || a.sym != b.sym {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (p PtrV) child(i int) PtrV {
	np := make([]int32, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = int32(i)
	return PtrV{obj: p.obj, path: np, sym: p.sym, symN: p.symN, symO: p.symO}
}

// ---- zero values

func intType(t types.Type) (w uint8, sg bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, ok := intType(u); ok {
			return x.c.Int(0, w, sg)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.False
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		}
		return OpaqueV{"zero " + t.String()}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{null: true}
	case *types.Struct:
		a := &AggV{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = x.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			x.unsupported("huge array")
		}
		a := &AggV{f: make([]Value, n)}
		if n > 0 {
			z := x.zero(u.Elem())
			for i := range a.f {
				a.f[i] = z
			}
		}
		return a
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return OpaqueV{"nil chan"}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.zero(u.At(i).Type())
		}
		return tv
	}
	return OpaqueV{"zero " + t.String()}
}

func describe(v Value) string {
	switch a := v.(type) {
	case *Expr:
		return a.String()
	case StrV:
		if a.b == nil {
			return fmt.Sprintf("%q", a.s)
		}
		return fmt.Sprintf("str[%d]", len(a.b))
	case PtrV:
		return fmt.Sprintf("&%d%v", a.obj, a.path)
	case SliceV:
		return fmt.Sprintf("slice(&%d%v off %d len %d cap %d)", a.arr.obj, a.arr.path, a.off, a.len, a.cap)
	case *AggV:
		s := "{"
		for i, f := range a.f {
			if i > 0 {
				s += " "
			}
			if i > 8 {
				s += "..."
				break
			}
			s += describe(f)
		}
		return s + "}"
	case IfaceV:
		if a.t == nil {
			return "nil-iface"
		}
		return "iface(" + a.t.String() + " " + describe(a.v) + ")"
	case FuncV:
		if a.fn != nil {
			return a.fn.String()
		}
		return "func?"
	}
	return fmt.Sprintf("%T", v)
}
