package cipher

import (
	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// mark gives the keys of a store arbitrary used and compromised marks.
func mark(k *krypto431.Krypto431) {
	for i := range k.Keys {
		k.Keys[i].Used = sym.Bool("used")
		k.Keys[i].Compromised = sym.Bool("compromised")
	}
}

// spans are concrete texts needing one, two and three keys of 20 letters with
// groups of 5.
var spans = []string{"AB", "ABCDEFGHIJKLMN", "abcdefghijklmnOPQRSTUV12345"}

// usedBy deciphers with an independent decoder and returns the indices of the
// keys the cipher text went through.
func usedBy(k *krypto431.Krypto431, m *krypto431.Message) []int {
	i := keyOf(k, m.KeyId)
	if i < 0 {
		return nil
	}
	out := []int{i}
	table, pos := 0, 0
	var id []rune
	change := false
	for _, c := range m.CipherText {
		if pos >= len(k.Keys[i].Runes) {
			return nil
		}
		p := (25 - (c - 'A') - (k.Keys[i].Runes[pos] - 'A') + 52) % 26
		pos++
		if change {
			id = append(id, p+'A')
			if len(id) == k.GroupSize {
				i = keyOf(k, id)
				if i < 0 {
					return nil
				}
				out = append(out, i)
				table, pos, id, change = 0, 0, nil, false
			}
			continue
		}
		switch {
		case p == 25:
			table = 1 - table
		case table == 1 && p == 24:
			change = true
		}
	}
	return out
}

func once(k *krypto431.Krypto431, spent []bool, txt string, named int) {
	m := message(k, []rune(txt))
	if named >= 0 {
		m.KeyId = cp(k.Keys[named].Id)
	}
	var was, comp []bool
	for i := range k.Keys {
		was = append(was, k.Keys[i].Used)
		comp = append(comp, k.Keys[i].Compromised)
	}
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		return
	}
	used := usedBy(k, m)
	sym.Assert(len(used) > 0, "the cipher text names its keys")
	seen := map[int]bool{}
	for _, i := range used {
		sym.Assert(!seen[i], "no key enciphers two parts of a message")
		seen[i] = true
		sym.Assert(!spent[i], "no key enciphers two messages")
		spent[i] = true
		sym.Assert(sym.Not(was[i]), "no key marked used is used")
		sym.Assert(sym.Not(comp[i]), "no compromised key is used")
		sym.Assert(k.Keys[i].Used, "the keys used are marked used")
	}
	sym.Reach("enciphered")
	if len(used) > 1 {
		sym.Reach("several keys")
	}
	if named >= 0 {
		sym.Reach("named key")
	}
}

func history(keys, messages int, names bool) {
	k := store(keys, 20, 5)
	mark(k)
	spent := make([]bool, keys)
	for i := 0; i < messages; i++ {
		named := -1
		if names {
			named = sym.Choice("named", keys+1) - 1
		}
		once(k, spent, spans[sym.Choice("text", len(spans))], named)
	}
}

func C06_History() { history(3, 2, true) }
func C06_Auto()    { history(4, 3, false) }
func C06_AnyText() {
	k := store(3, 14, 2)
	mark(k)
	m := message(k, textOf(few, "txt", 3))
	if sym.Fork(sym.Bool("names")) {
		m.KeyId = cp(k.Keys[1].Id)
	}
	was := []bool{}
	for i := range k.Keys {
		was = append(was, sym.Or(k.Keys[i].Used, k.Keys[i].Compromised))
	}
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		return
	}
	o := twin(k)
	for i := range o.Keys {
		o.Keys[i].Used = false
	}
	r := message(o, nil)
	r.KeyId, r.CipherText = m.KeyId, m.CipherText
	if r.Decipher() != nil {
		return
	}
	sym.Reach("enciphered")
	for i := range k.Keys {
		sym.Assert(sym.Implies(o.Keys[i].Used, k.Keys[i].Used), "every key the receiver needs is marked used")
		sym.Assert(sym.Implies(o.Keys[i].Used, sym.Not(was[i])), "no used or compromised key is needed")
	}
}
