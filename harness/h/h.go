// Package h holds helpers the harness packages share.
package h

import (
	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// Letters returns n arbitrary letters A-Z.
func Letters(name string, n int) []rune {
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, sym.Rune(name, 'A', 'Z'))
	}
	return out
}

// Of returns n arbitrary characters of al.
func Of(al []rune, name string, n int) []rune {
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, al[sym.Int(name, 0, len(al)-1)])
	}
	return out
}

// AnyRune returns any 32-bit value; those below 0x200 are enumerated in tables
// (which the engine reasons about far faster), the others stay symbolic words.
func AnyRune(name string) rune {
	switch sym.Choice(name+"-range", 3) {
	case 0:
		return sym.Rune(name, 0, 0x1ff)
	case 1:
		return sym.Rune(name, 0x200, 1<<31-1)
	}
	return sym.Rune(name, -1<<31, -1)
}

func Cp(r []rune) []rune { return append([]rune(nil), r...) }

func Cp2(r [][]rune) [][]rune {
	var out [][]rune
	for _, x := range r {
		out = append(out, Cp(x))
	}
	return out
}

// Same compares two rune slices without branching on their contents.
func Same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

func Same2(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, Same(a[i], b[i]))
	}
	return ok
}

// Up maps a letter a-z to A-Z without branching.
func Up(r rune) rune { return sym.IteRune(sym.And(r >= 'a', r <= 'z'), r-32, r) }

// Fold compares two slices of ASCII letters and digits ignoring case.
func Fold(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, Up(a[i]) == Up(b[i]))
	}
	return ok
}

// In is true if x is, in any letter case, an item of set.
func In(x []rune, set [][]rune) bool {
	ok := false
	for _, y := range set {
		ok = sym.Or(ok, Fold(x, y))
	}
	return ok
}

// Has is true if x is exactly an item of set.
func Has(x []rune, set [][]rune) bool {
	ok := false
	for _, y := range set {
		ok = sym.Or(ok, Same(x, y))
	}
	return ok
}

// Count tells how many items of set are x in any letter case.
func Count(x []rune, set [][]rune) int {
	n := 0
	for _, y := range set {
		n = sym.IteInt(Fold(x, y), n+1, n)
	}
	return n
}

// Snap is a deep copy of a key's contents.
func Snap(k *krypto431.Key) krypto431.Key {
	return krypto431.Key{Id: Cp(k.Id), Runes: Cp(k.Runes), Keepers: Cp2(k.Keepers), Created: k.Created, Expires: k.Expires, Used: k.Used, Compromised: k.Compromised, Comment: Cp(k.Comment)}
}

// SameKey compares all contents of two keys but keepers and times.
func SameKey(a, b *krypto431.Key) bool {
	ok := sym.And(Same(a.Id, b.Id), Same(a.Runes, b.Runes))
	ok = sym.And(ok, Same(a.Comment, b.Comment))
	ok = sym.And(ok, a.Used == b.Used)
	return sym.And(ok, a.Compromised == b.Compromised)
}

// Equal compares all contents of two keys.
func Equal(a, b *krypto431.Key) bool {
	ok := sym.And(SameKey(a, b), Same2(a.Keepers, b.Keepers))
	ok = sym.And(ok, a.Created.Time.Equal(b.Created.Time))
	return sym.And(ok, a.Expires.Time.Equal(b.Expires.Time))
}
