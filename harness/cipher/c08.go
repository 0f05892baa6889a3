package cipher

import (
	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// unchanged compares every key of k with its copy in o.
func unchanged(k, o *krypto431.Krypto431) {
	sym.Assert(len(k.Keys) == len(o.Keys), "no key is lost or added")
	for i := range o.Keys {
		sym.Assert(same(k.Keys[i].Id, o.Keys[i].Id), "key IDs are as before")
		sym.Assert(same(k.Keys[i].Runes, o.Keys[i].Runes), "key letters are as before")
		sym.Assert(same2(k.Keys[i].Keepers, o.Keys[i].Keepers), "keepers are as before")
		sym.Assert(same(k.Keys[i].Comment, o.Keys[i].Comment), "comments are as before")
		sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "used marks are as before")
		sym.Assert(k.Keys[i].Compromised == o.Keys[i].Compromised, "compromised marks are as before")
	}
}

func failing(k *krypto431.Krypto431, plain []rune, id, cipher []rune, recipients [][]rune) {
	o := twin(k)
	m := message(k, cp(plain))
	m.KeyId = cp(id)
	m.CipherText = cp(cipher)
	m.Recipients = recipients
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err == nil {
		sym.Reach("opt:success")
		return
	}
	sym.Reach("failure")
	unchanged(k, o)
	sym.Assert(same(m.PlainText, plain), "the plain text is as before")
	sym.Assert(sym.Or(len(m.CipherText) == 0, same(m.CipherText, cipher)), "no part of a cipher text is left behind")
	// the message can be wiped without harm to the store
	m.Wipe()
	unchanged(k, o)
}

// endings are texts that fail to encipher at different points.
var endings = []string{"", "#", "AB#", "abcdefghijkl#", "abcdefghijklmnopqrstuvwxyz#", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"}

func C08_Failing() {
	k := store(3, 20, 5)
	mark(k)
	for i := range k.Keys {
		if sym.Fork(sym.Bool("kept")) {
			k.Keys[i].Keepers = [][]rune{[]rune("SM0AAA")}
		}
	}
	var id []rune
	switch sym.Choice("named", 4) {
	case 1:
		id = cp(k.Keys[0].Id)
	case 2:
		id = cp(k.Keys[2].Id)
	case 3:
		id = []rune("NOKEY")
	}
	var to [][]rune
	if sym.Fork(sym.Bool("to")) {
		to = [][]rune{[]rune("SM0AAA")}
	}
	failing(k, []rune(endings[sym.Choice("text", len(endings))]), id, nil, to)
}

// A key that is too short, or holds something else than letters, is found out
// only while the letters are combined.
func C08_BadKey() {
	k := store(2, 20, 5)
	switch sym.Choice("bad", 3) {
	case 0:
		k.Keys[1].Runes = k.Keys[1].Runes[:sym.Choice("short", 4)]
	case 1:
		k.Keys[1].Runes[3] = sym.Rune("odd", 0, 200)
	case 2:
		k.Keys[0].Runes[sym.Choice("at", 3)] = sym.Rune("odd", 0, 200)
	}
	var old []rune
	if sym.Fork(sym.Bool("old")) {
		old = []rune("OLDOL")
	}
	failing(k, []rune("abcdefghijklmnop"), nil, old, nil)
}

func C08_AnyText() {
	k := store(2, 14, 2)
	mark(k)
	plain := []rune{anyRune("a"), 'b', 'C', anyRune("d")}
	failing(k, plain, nil, nil, nil)
}

// Texts over four keys and more that fail at last, or run out of keys.
func C08_Many() {
	k := store(3+sym.Choice("keys", 9), 17, 3)
	k.Keys[0].Used = sym.Bool("used")
	k.Keys[2].Compromised = sym.Bool("compromised")
	plain := make([]rune, 20+2*sym.Choice("prefix", 8))
	for i := range plain {
		plain[i] = []rune("Ea")[i/3%2]
	}
	failing(k, append(plain, []rune("#Eé")[sym.Choice("last", 3)]), nil, nil, nil)
}
