package cipher

import (
	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// received deciphers m at k and checks what happened to the keys.
func received(k *krypto431.Krypto431, m *krypto431.Message) {
	o := twin(k)
	ct := cp(m.CipherText)
	err := m.Decipher() // must not panic
	sym.ObserveBool("err", err != nil)
	sym.Assert(len(k.Keys) == len(o.Keys), "no key is lost or added")
	for i := range o.Keys {
		sym.Assert(sameKey(&k.Keys[i], &o.Keys[i]), "keys keep their contents")
	}
	sym.Assert(same(m.CipherText, ct), "the cipher text is unchanged")
	if err != nil {
		sym.Reach("failed")
		for i := range o.Keys {
			sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "a failure marks no key")
		}
		return
	}
	sym.Reach("deciphered")
	used := usedBy(o, m)
	sym.Assert(len(used) > 0, "a success went through a key")
	if len(used) > 1 {
		sym.Reach("opt:key change")
	}
	for i := range o.Keys {
		in := false
		for _, u := range used {
			in = in || u == i
		}
		if in {
			sym.Assert(k.Keys[i].Used, "the keys gone through are marked used")
		} else {
			sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "no other key is marked")
		}
	}
}

func incoming(k *krypto431.Krypto431, id, ct []rune) *krypto431.Message {
	m := message(k, nil)
	m.KeyId = id
	m.CipherText = ct
	return m
}

// Arbitrary letters under keys with arbitrary letters: several key changes fit.
func C10_Letters() {
	k := store(3, 5, 1)
	mark(k)
	received(k, incoming(k, cp(k.Keys[0].Id), letters("cipher", 8)))
}

func C10_Group2() {
	k := store(2, 6, 2)
	mark(k)
	received(k, incoming(k, cp(k.Keys[1].Id), letters("cipher", 9)))
}

// Arbitrary runes as cipher text and as key letters.
func C10_AnyText() {
	k := store(2, 4, 1)
	k.Keys[0].Runes[1] = anyRune("odd")
	mark(k)
	received(k, incoming(k, cp(k.Keys[0].Id), []rune{'A', anyRune("a"), anyRune("b")}))
}

// Key IDs and cipher texts of any length, keys that are missing or too short.
func C10_Lengths() {
	g := 1 + sym.Choice("group", 3)
	k := store(2, 4, g)
	k.Keys[0].Runes = k.Keys[0].Runes[:sym.Choice("keylen", 5)]
	mark(k)
	id := letters("id", sym.Choice("idlen", 4))
	received(k, incoming(k, id, letters("cipher", sym.Choice("len", 6))))
}

// Arbitrary key IDs after a key change.
func C10_KeyIds() {
	k := store(3, 8, 2)
	for i := range k.Keys {
		k.Keys[i].Runes = []rune("ABCDEFGH")
	}
	mark(k)
	ct := []rune("AX") // decoded: Z Y
	for i, c := range "ZY" {
		ct[i] = (25-(c-'A')-(k.Keys[0].Runes[i]-'A')+52)%26 + 'A'
	}
	ct = append(ct, letters("cipher", 5)...)
	received(k, incoming(k, cp(k.Keys[0].Id), ct))
}

// encoded gives cipher text that decodes as p under key i.
func encoded(k *krypto431.Krypto431, i int, from int, p string) []rune {
	var out []rune
	for j, c := range p {
		out = append(out, (25-(c-'A')-(k.Keys[i].Runes[from+j]-'A')+52)%26+'A')
	}
	return out
}

// Key changes that succeed and arbitrary letters after the last one: n of
// them, more than the last key has.
func changes(last ...int) {
	k := store(4, 8, 1)
	for i := range k.Keys {
		k.Keys[i].Runes = []rune("QWERTYUI")
	}
	mark(k)
	ct := encoded(k, 0, 0, "EZY"+string(k.Keys[last[0]].Id))
	for i := 1; i < len(last); i++ {
		ct = append(ct, encoded(k, last[i-1], 0, "ZY"+string(k.Keys[last[i]].Id))...)
	}
	n := sym.Choice("n", 6)
	ct = append(ct, letters("cipher", 3)...)
	if n == 5 {
		ct = append(ct, []rune("ABCDEF")...)
	} else if n > 2 {
		ct = append(ct, anyRune("odd"))
	} else {
		ct = ct[:len(ct)-n]
	}
	received(k, incoming(k, cp(k.Keys[0].Id), ct))
}

func C10_TwoChanges()   { changes(1, 2) }
func C10_ThreeChanges() { changes(1, 2, 3) }
func C10_BackAndForth() { changes(1, sym.Choice("again", 4), 3) }
