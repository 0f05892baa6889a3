package text

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

// call returns an arbitrary call-sign of one or two letters in any case.
func call(name string) []rune {
	n := 1 + sym.Choice(name+"len", 2)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, []rune("ABab1")[sym.Int(name, 0, 4)])
	}
	return out
}

func calls(name string, most int) [][]rune {
	var out [][]rune
	for n := sym.Choice(name+"s", most+1); n > 0; n-- {
		out = append(out, call(name))
	}
	return out
}

// list is a keeper or recipient list.
type list interface {
	add(...[]rune)
	remove(...[]rune)
	has(...[]rune) bool
	items() [][]rune
}

type keepers struct{ krypto431.Key }

func (k *keepers) add(r ...[]rune)      { k.AddKeeper(r...) }
func (k *keepers) remove(r ...[]rune)   { k.RemoveKeeper(r...) }
func (k *keepers) has(r ...[]rune) bool { return k.ContainsKeeper(r...) }
func (k *keepers) items() [][]rune      { return k.Keepers }

type recipients struct{ krypto431.Message }

func (m *recipients) add(r ...[]rune)      { m.AddRecipient(r...) }
func (m *recipients) remove(r ...[]rune)   { m.RemoveRecipient(r...) }
func (m *recipients) has(r ...[]rune) bool { return m.ContainsRecipient(r...) }
func (m *recipients) items() [][]rune      { return m.Recipients }

func onKeepers(l [][]rune) list    { return &keepers{krypto431.Key{Keepers: l}} }
func onRecipients(l [][]rune) list { return &recipients{krypto431.Message{Recipients: l}} }

func adds(f func([][]rune) list, most int) {
	was := calls("was", most)
	l := f(h.Cp2(was))
	x := calls("new", 2)
	l.add(h.Cp2(x)...)
	got := l.items()
	sym.Observe("n", len(got))
	sym.Assert(len(got) >= len(was), "no item is lost")
	for i := range was {
		sym.Assert(h.Same(got[i], was[i]), "the items already there stay")
	}
	for i := range x {
		n := h.Count(x[i], was)
		sym.Assert(h.Count(x[i], got) == sym.IteInt(n > 0, n, 1), "an added item is there exactly once")
	}
	for i := len(was); i < len(got); i++ {
		sym.Assert(h.Has(got[i], x), "nothing else is added")
	}
	if len(got) == len(was)+2 {
		sym.Reach("two added")
	}
}

func removes(f func([][]rune) list, most int) {
	was := calls("was", most)
	l := f(h.Cp2(was))
	x := calls("old", 2)
	l.remove(h.Cp2(x)...)
	got := l.items()
	sym.Observe("n", len(got))
	left := 0
	for i := range was {
		gone := h.In(was[i], x)
		left = sym.IteInt(gone, left, left+1)
		a, b := 0, 0
		for j := range was {
			a = sym.IteInt(h.Same(was[i], was[j]), a+1, a)
		}
		for j := range got {
			b = sym.IteInt(h.Same(was[i], got[j]), b+1, b)
		}
		sym.Assert(b == sym.IteInt(gone, 0, a), "a removed item is absent, the others stay")
	}
	sym.Assert(len(got) == left, "nothing is added")
	if len(got)+2 == len(was) {
		sym.Reach("two removed")
	}
}

func query(f func([][]rune) list) {
	set := calls("was", 2)
	l := f(h.Cp2(set))
	x := calls("asked", 2)
	got := l.has(h.Cp2(x)...)
	sym.ObserveBool("has", got)
	if len(x) == 0 {
		sym.Reach("nobody")
		sym.Assert(got == (len(set) == 0), "nobody is asked for: true for an empty list")
		return
	}
	all := true
	for i := range x {
		all = sym.And(all, h.In(x[i], set))
	}
	sym.Reach("somebody")
	sym.Assert(got == all, "all of them")
}

func C28_AddKeeper()       { adds(onKeepers, 2) }
func C28_AddRecipient()    { adds(onRecipients, 2) }
func C28_RemoveKeeper()    { removes(onKeepers, 3) }
func C28_RemoveRecipient() { removes(onRecipients, 3) }
func C28_HasKeeper()       { query(onKeepers) }
func C28_HasRecipient()    { query(onRecipients) }

func C28_Needles() {
	x, set := calls("needle", 2), calls("hay", 2)
	fold := krypto431.AllNeedlesInHaystack(&x, &set, true)
	all := krypto431.AllNeedlesInHaystack(&x, &set)
	not := krypto431.AllNeedlesInHaystack(&x, &set, false)
	any := krypto431.AnyNeedleInHaystack(&x, &set)
	sym.ObserveBool("fold", fold)
	sym.ObserveBool("all", all)
	sym.ObserveBool("any", any)
	sub, subFold, cap := len(x) > 0 && len(set) > 0, len(x) > 0 && len(set) > 0, false
	for i := range x {
		sub = sym.And(sub, h.Has(x[i], set))
		subFold = sym.And(subFold, h.In(x[i], set))
		cap = sym.Or(cap, h.Has(x[i], set))
	}
	sym.Assert(all == sub && not == sub, "all of, in the exact case")
	sym.Assert(fold == subFold, "all of, in any case")
	sym.Assert(any == cap, "any of")
	y := call("one")
	one := krypto431.AnyOfThem(&set, &y)
	sym.ObserveBool("one", one)
	sym.Assert(one == h.Has(y, set), "one of them")
	var none []rune
	sym.Assert(!krypto431.AnyOfThem(&set, &none), "an empty item is none of them")
	sym.Assert(!krypto431.AnyOfThem(nil, &y) && !krypto431.AnyOfThem(&set, nil), "nil is false")
	sym.Assert(!krypto431.AnyNeedleInHaystack(nil, &set) && !krypto431.AnyNeedleInHaystack(&x, nil), "nil is false")
	sym.Assert(!krypto431.AllNeedlesInHaystack(nil, &set) && !krypto431.AllNeedlesInHaystack(&x, nil), "nil is false")
	sym.Reach("done")
}

// EqualRunes and EqualRunesFold over arbitrary characters.
func C28_Equal() {
	x, y := anyText(sym.Choice("a", 3)), anyText(sym.Choice("b", 3))
	eq, fold := krypto431.EqualRunes(&x, &y), krypto431.EqualRunesFold(&x, &y)
	sym.ObserveBool("eq", eq)
	sym.ObserveBool("fold", fold)
	sym.Assert(eq == h.Same(x, y), "equal")
	sym.Assert(sym.Implies(eq, fold), "equal in any case")
	sym.Assert(fold == krypto431.EqualRunesFold(&y, &x), "symmetric")
	ascii := true
	for _, r := range append(h.Cp(x), y...) {
		ascii = sym.And(ascii, r < 0x80)
	}
	sym.Assert(sym.Implies(ascii, fold == h.Fold(x, y)), "equal but for case")
	sym.Reach("done")
}

// three are asked for: names of one letter.
func three(f func([][]rune) list) {
	some := func(name string, least, most int) (out [][]rune) {
		for n := least + sym.Choice(name+"s", most-least+1); n > 0; n-- {
			out = append(out, []rune{sym.Rune(name, 'A', 'D')})
		}
		return
	}
	set := some("was", 2, 4)
	x := some("asked", 3, 4)
	got := f(h.Cp2(set)).has(h.Cp2(x)...)
	sym.ObserveBool("has", got)
	all := true
	for i := range x {
		all = sym.And(all, h.In(x[i], set))
	}
	sym.Assert(got == all, "all of them")
	sym.Reach("done")
}

func C28_KeepersThree()    { three(onKeepers) }
func C28_RecipientsThree() { three(onRecipients) }
