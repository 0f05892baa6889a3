// Package cipher holds the harnesses about enciphering and deciphering.
package cipher

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/rnd"
	"verif/sym"
)

// Alphabet is what the README documents as enciphersable: letters (both
// cases), digits, space, the listed punctuation and the Swedish letters.
const Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ" + "abcdefghijklmnopqrstuvwxyz" + "0123456789" + "?-., :+/" + "ÅÄÖåäö"

var (
	alphabet = []rune(Alphabet)
	// few has one or two characters of every kind the encoder treats
	// differently: both tables, both cases, the characters behind control
	// letters.
	few = []rune("AQZazöÅ 5-")
)

// letters returns n arbitrary letters A-Z.
func letters(name string, n int) []rune {
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, sym.Rune(name, 'A', 'Z'))
	}
	return out
}

// text returns n arbitrary characters of the coding alphabet.
func text(name string, n int) []rune { return textOf(alphabet, name, n) }

func textOf(al []rune, name string, n int) []rune {
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, al[sym.Int(name, 0, len(al)-1)])
	}
	return out
}

func cp(r []rune) []rune { return append([]rune(nil), r...) }

func cp2(r [][]rune) [][]rune {
	var out [][]rune
	for _, x := range r {
		out = append(out, cp(x))
	}
	return out
}

// id makes the i:th key ID of g letters (all distinct).
func id(i, g int) []rune {
	out := make([]rune, g)
	for j := range out {
		out[j] = 'K'
	}
	out[g-1] = rune('A' + i)
	return out
}

// idOf makes the i:th key ID of g letters, also for g = 0.
func idOf(i, g int) []rune {
	if g == 0 {
		return nil
	}
	return id(i, g)
}

func keyWith(id, runes []rune) krypto431.Key { return krypto431.Key{Id: id, Runes: runes} }

// store makes an instance with n keys of l arbitrary letters.
func store(n, l, g int) *krypto431.Krypto431 {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithKeyLength(l), krypto431.WithCallSign("SA6MWA"))
	for i := 0; i < n; i++ {
		k.Keys = append(k.Keys, krypto431.Key{Id: id(i, g), Runes: letters("key", l)})
	}
	return &k
}

// twin copies a store: the other station's.
func twin(k *krypto431.Krypto431) *krypto431.Krypto431 {
	o := krypto431.New(krypto431.WithGroupSize(k.GroupSize), krypto431.WithKeyLength(k.KeyLength), krypto431.WithCallSign("SM0AAA"))
	for i := range k.Keys {
		s := &k.Keys[i]
		o.Keys = append(o.Keys, krypto431.Key{Id: cp(s.Id), Runes: cp(s.Runes), Keepers: cp2(s.Keepers), Used: s.Used, Compromised: s.Compromised, Comment: cp(s.Comment)})
	}
	return &o
}

func message(k *krypto431.Krypto431, plain []rune) *krypto431.Message {
	m := &krypto431.Message{Id: []rune("id01"), PlainText: plain}
	m.SetInstance(k)
	return m
}

// same compares two rune slices without branching on their contents.
func same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

func same2(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, same(a[i], b[i]))
	}
	return ok
}

// sameKey compares everything but the used mark.
func sameKey(a, b *krypto431.Key) bool {
	ok := sym.And(same(a.Id, b.Id), same(a.Runes, b.Runes))
	ok = sym.And(ok, same2(a.Keepers, b.Keepers))
	ok = sym.And(ok, same(a.Comment, b.Comment))
	return sym.And(ok, a.Compromised == b.Compromised)
}

func keyOf(k *krypto431.Krypto431, id []rune) int {
	for i := range k.Keys {
		if string(k.Keys[i].Id) == string(id) {
			return i
		}
	}
	return -1
}

// anyRune returns any 32-bit value; those below 0x200 are enumerated in tables
// (which the engine reasons about far faster), the others stay symbolic words.
func anyRune(name string) rune {
	switch sym.Choice(name+"-range", 3) {
	case 0:
		return sym.Rune(name, 0, 0x1ff)
	case 1:
		return sym.Rune(name, 0x200, 1<<31-1)
	}
	return sym.Rune(name, -1<<31, -1)
}
