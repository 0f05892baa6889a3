package cipher

import "verif/sym"

func groupsOfLetters(plain []rune, keys, l, g int) {
	k := store(keys, l, g)
	m := message(k, plain)
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		return
	}
	sym.Reach("enciphered")
	sym.Assert(len(m.CipherText) > 0, "the cipher text is not empty")
	sym.Assert(len(m.CipherText)%g == 0, "the cipher text is whole groups")
	ok := true
	for _, c := range m.CipherText {
		ok = sym.And(ok, sym.And(c >= 'A', c <= 'Z'))
	}
	sym.Assert(ok, "the cipher text is letters A-Z")
	sym.Assert(len(m.KeyId) == g, "the key ID has the group size")
	sym.Assert(keyOf(k, m.KeyId) >= 0, "the key ID names a key of the store")
}

func C04_Groups() {
	g := 1 + sym.Choice("group", 6)
	groupsOfLetters(text("txt", 2), 1, 24, g)
}

func C04_KeyChange() {
	g := 2 + sym.Choice("group", 3)
	groupsOfLetters(textOf(few, "txt", 4), 3, 12+g, g)
}

// The default settings, with a text that needs a second key.
func C04_Default() {
	n := 330 + sym.Choice("prefix", 16)
	plain := make([]rune, n)
	for i := range plain {
		plain[i] = 'E'
	}
	plain = append(plain, textOf(few, "txt", 1+sym.Choice("more", 2))...)
	groupsOfLetters(plain, 2, 350, 5)
}

// Texts over four keys and more.
func C04_Many() {
	n := 20 + sym.Choice("prefix", 30)
	plain := make([]rune, n)
	for i := range plain {
		plain[i] = []rune("Ea")[i/3%2]
	}
	g := 2 + sym.Choice("group", 2)
	groupsOfLetters(append(plain, textOf([]rune("Ea"), "txt", 1)...), 30, 14+g, g)
}
