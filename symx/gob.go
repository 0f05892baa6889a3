package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// The gob codec is taken as ideal: encoding captures the exported fields of a
// value as gob does, decoding assigns them the way gob does (zero fields are not
// transmitted, slices with enough capacity are reused).

func gobIntrinsics() {
	intrinsics["verif/harness/models.gobCopy"] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		v := a[0].(IfaceV)
		if v.t == nil {
			x.unsupported("gob of nil")
		}
		t, val := v.t, v.v
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			val = x.load(st, val.(PtrV))
			t = p.Elem()
		}
		c := x.gobCopy(st, t, val)
		return IfaceV{t: types.NewPointer(t), v: PtrV{obj: x.newObj(st, c)}}
	}
	intrinsics["verif/harness/models.gobInto"] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		dst, src := a[0].(IfaceV), a[1].(IfaceV)
		dp, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			x.unsupported("gob decode into %v", dst.t)
		}
		sp := src.t.(*types.Pointer)
		cur := x.load(st, dst.v.(PtrV))
		n := x.gobInto(st, dp.Elem(), cur, sp.Elem(), x.load(st, src.v.(PtrV)), false)
		x.store(st, dst.v.(PtrV), n)
		return TupleV{}
	}
	// the field of a struct with a survey tag, as a pointer, or nil
	intrinsics["verif/harness/sim/survey.field"] = func(x *Exec, st *State, fn *ssa.Function, a []Value) Value {
		to, name := a[0].(IfaceV), strArg(x, a[1])
		if p, ok := to.t.Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if reflect.StructTag(s.Tag(i)).Get("survey") == name {
						return IfaceV{t: types.NewPointer(s.Field(i).Type()), v: to.v.(PtrV).child(i)}
					}
				}
			}
		}
		return IfaceV{}
	}
}

func gobber(t types.Type) bool {
	for _, m := range []string{"GobEncode", "MarshalBinary"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func isTime(t types.Type) bool { return t.String() == "time.Time" }

func (x *Exec) gobCheck(t types.Type) {
	if gobber(t) && !isTime(t) {
		// a struct embedding time.Time promotes its methods; treat it as a field
		if s, ok := t.Underlying().(*types.Struct); !ok || !embedsTime(s) {
			x.unsupported("gob encoding method of %v", t)
		}
	}
}

func embedsTime(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && isTime(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (x *Exec) gobCopy(st *State, t types.Type, v Value) Value {
	x.gobCheck(t)
	if gobber(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Struct:
		a := v.(*AggV)
		n := &AggV{f: make([]Value, len(a.f))}
		for i := range a.f {
			ft := u.Field(i).Type()
			if !u.Field(i).Exported() {
				n.f[i] = x.zero(ft)
				continue
			}
			switch ft.Underlying().(type) {
			case *types.Chan, *types.Signature:
				n.f[i] = x.zero(ft)
			default:
				n.f[i] = x.gobCopy(st, ft, a.f[i])
			}
		}
		return n
	case *types.Slice:
		s := v.(SliceV)
		if s.len == 0 {
			return SliceV{null: true}
		}
		var out []Value
		for _, e := range x.sliceElems(st, s) {
			out = append(out, x.gobCopy(st, u.Elem(), e))
		}
		return x.mkSlice(st, out, len(out), nil)
	case *types.Array:
		a := v.(*AggV)
		n := &AggV{f: make([]Value, len(a.f))}
		for i := range a.f {
			n.f[i] = x.gobCopy(st, u.Elem(), a.f[i])
		}
		return n
	case *types.Pointer:
		p := v.(PtrV)
		if p.obj == 0 {
			return p
		}
		return PtrV{obj: x.newObj(st, x.gobCopy(st, u.Elem(), x.load(st, p)))}
	}
	x.unsupported("gob of %v", t)
	return nil
}

func allZero(v Value) bool {
	switch a := v.(type) {
	case *Expr:
		return a.isConst() && a.k == 0
	case *AggV:
		for _, e := range a.f {
			if !allZero(e) {
				return false
			}
		}
		return true
	case PtrV:
		return a.obj == 0
	case SliceV:
		return a.null
	case StrV:
		return a.Len() == 0
	case FloatV:
		return a == 0
	case IfaceV:
		return a.t == nil
	}
	return false
}

func (x *Exec) gobInto(st *State, t types.Type, cur Value, bt types.Type, b Value, elem bool) Value {
	if gobber(t) {
		if allZero(b) && !elem {
			return cur
		}
		return b
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if elem {
			return b
		}
		switch e := b.(type) {
		case *Expr:
			c, ok := cur.(*Expr)
			if !ok {
				x.unsupported("gob: mismatched types")
			}
			if e == c {
				return c
			}
			if u.Info()&types.IsBoolean != 0 {
				return x.c.Or(e, c)
			}
			w, sg, _ := intType(u)
			return x.c.Ite(x.c.Eq(e, x.c.Int(0, w, sg)), c, e)
		default:
			if allZero(b) {
				return cur
			}
			return b
		}
	case *types.Struct:
		c := cur.(*AggV)
		n := &AggV{f: append([]Value(nil), c.f...)}
		bs, ok := bt.Underlying().(*types.Struct)
		if !ok {
			x.unsupported("gob: %v into %v", bt, t)
		}
		ba := b.(*AggV)
		for i := range n.f {
			if !u.Field(i).Exported() {
				continue
			}
			for j := range ba.f {
				if bs.Field(j).Name() == u.Field(i).Name() {
					n.f[i] = x.gobInto(st, u.Field(i).Type(), c.f[i], bs.Field(j).Type(), ba.f[j], false)
				}
			}
		}
		return n
	case *types.Slice:
		s, c := b.(SliceV), cur.(SliceV)
		if s.len == 0 {
			if elem && c.len > 0 {
				c.len = 0
			}
			return c
		}
		el := bt.Underlying().(*types.Slice).Elem()
		var old []Value
		if c.cap >= s.len && !c.null {
			c.len = s.len
			old = x.sliceElems(st, c)
		} else {
			z := x.zero(u.Elem())
			for i := 0; i < int(s.len); i++ {
				old = append(old, z)
			}
			c = SliceV{null: true}
		}
		var out []Value
		for i, e := range x.sliceElems(st, s) {
			out = append(out, x.gobInto(st, u.Elem(), old[i], el, e, true))
		}
		if c.null {
			return x.mkSlice(st, out, len(out), nil)
		}
		arr := x.load(st, c.arr).(*AggV)
		na := &AggV{f: append([]Value(nil), arr.f...)}
		copy(na.f[c.off:], out)
		x.store(st, c.arr, na)
		return c
	case *types.Array:
		a, c := b.(*AggV), cur.(*AggV)
		n := &AggV{f: make([]Value, len(c.f))}
		for i := range n.f {
			n.f[i] = x.gobInto(st, u.Elem(), c.f[i], bt.Underlying().(*types.Array).Elem(), a.f[i], true)
		}
		return n
	case *types.Pointer:
		p, c := b.(PtrV), cur.(PtrV)
		if p.obj == 0 {
			return c
		}
		bp, ok := bt.Underlying().(*types.Pointer)
		if !ok {
			x.unsupported("gob: %v into %v", bt, t)
		}
		if c.obj == 0 {
			c = PtrV{obj: x.newObj(st, x.zero(u.Elem()))}
		}
		x.store(st, c, x.gobInto(st, u.Elem(), x.load(st, c), bp.Elem(), x.load(st, p), elem))
		return c
	}
	x.unsupported("gob into %v", t)
	return nil
}
