package cipher

import (
	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// sign returns an arbitrary call-sign out of three in arbitrary case.
func sign(name string) []rune {
	r := sym.Rune(name, 'A', 'C')
	return []rune{'S', 'M', '0', r}
}

func signs(name string, most int) [][]rune {
	n := sym.Choice(name+"s", most+1)
	var out [][]rune
	for i := 0; i < n; i++ {
		out = append(out, sign(name))
	}
	return out
}

// member and subset are written without branching.
func member(x []rune, set [][]rune) bool {
	ok := false
	for _, y := range set {
		ok = sym.Or(ok, same(x, y))
	}
	return ok
}

func suitable(k *krypto431.Krypto431, key *krypto431.Key, recipients [][]rune) bool {
	if len(key.Id) != k.GroupSize {
		return false
	}
	if len(recipients) == 0 {
		return len(key.Keepers) == 0
	}
	ok := true
	for _, r := range recipients {
		ok = sym.And(ok, member(r, key.Keepers))
	}
	return ok
}

func keepers(keys, most, recipients int, txt string, odd bool) {
	k := store(keys, 20, 5)
	for i := range k.Keys {
		k.Keys[i].Keepers = signs("keeper", most)
		k.Keys[i].Used = sym.Bool("used")
	}
	if odd {
		// a key whose ID does not have the group size
		k.Keys[0].Id = []rune("KKKK")
	}
	was := []bool{}
	for i := range k.Keys {
		was = append(was, k.Keys[i].Used)
	}
	m := message(k, []rune(txt))
	m.Recipients = signs("recipient", recipients)
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	any := false
	for i := range k.Keys {
		any = sym.Or(any, sym.And(sym.Not(was[i]), suitable(k, &k.Keys[i], m.Recipients)))
	}
	if err != nil {
		sym.Reach("refused")
		if len(txt) < 5 {
			sym.Assert(sym.Not(any), "it is refused only without a suitable key")
		}
		return
	}
	sym.Reach("enciphered")
	sym.Assert(any, "it is refused without a suitable key")
	used := usedBy(k, m)
	sym.Assert(len(used) > 0, "the cipher text names its keys")
	for _, i := range used {
		sym.Assert(suitable(k, &k.Keys[i], m.Recipients), "every key is kept by all recipients")
	}
	if len(used) > 1 {
		sym.Reach("opt:several keys")
	}
}

func C07_First()  { keepers(2, 2, 2, "AB", false) }
func C07_Change() { keepers(3, 1, 1, spans[1], false) }
func C07_Odd()    { keepers(2, 1, 1, "AB", true) }

// Two recipients and a text that takes three keys: each key is kept by two
// arbitrary stations.
func C07_Changes() {
	k := store(4, 20, 5)
	for i := range k.Keys {
		k.Keys[i].Keepers = [][]rune{sign("keeper"), sign("keeper")}
	}
	m := message(k, []rune(spans[2]))
	m.Recipients = [][]rune{[]rune("SM0A"), []rune("SM0B")}
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		sym.Reach("refused")
		return
	}
	used := usedBy(k, m)
	sym.Assert(len(used) >= 3, "the cipher text names its keys")
	for _, i := range used {
		sym.Assert(suitable(k, &k.Keys[i], m.Recipients), "every key is kept by all recipients")
	}
	sym.Reach("enciphered")
}

func C07_Three() { keepers(1, 3, 3, "AB", false) }

// Four recipients, one of whom may not keep one of the keys.
func C07_Four() {
	k := store(3, 20, 5)
	for i := range k.Keys {
		for j := 0; j < 4; j++ {
			k.Keys[i].Keepers = append(k.Keys[i].Keepers, []rune{'S', 'M', '0', 'A' + rune(j)})
		}
		if i < 2 {
			k.Keys[i].Keepers[sym.Choice("at", 4)] = []rune{'S', 'M', '0', sym.Rune("keeper", 'A', 'E')}
		}
	}
	m := message(k, []rune("AB"))
	m.Recipients = [][]rune{[]rune("SM0C"), []rune("SM0A"), []rune("SM0D"), []rune("SM0B")}
	err := m.Encipher()
	sym.Assert(err == nil, "there is a key all keep")
	used := usedBy(k, m)
	sym.Assert(len(used) > 0, "the cipher text names its keys")
	for _, i := range used {
		sym.Assert(suitable(k, &k.Keys[i], m.Recipients), "every key is kept by all recipients")
	}
	sym.Reach("enciphered")
}
