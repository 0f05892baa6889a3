package cipher

import "verif/sym"

// roundTrip enciphers n arbitrary characters and deciphers them at the other
// station.
func roundTrip(plain []rune, keys, l, g int) {
	k := store(keys, l, g)
	o := twin(k)
	m := message(k, cp(plain))
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		return
	}
	sym.Reach("enciphered")
	sym.ObserveRunes("cipher", m.CipherText)
	r := message(o, nil)
	r.KeyId = cp(m.KeyId)
	r.CipherText = cp(m.CipherText)
	err = r.Decipher()
	sym.Assert(err == nil, "the other station can decipher it")
	sym.Assert(same(r.PlainText, plain), "deciphering gives back the text")
	sym.Assert(same(m.PlainText, plain), "enciphering leaves the plain text alone")
}

func C03_OneKey() { roundTrip(text("txt", 3), 1, 20, 5) }

// A run of plain letters up to the end of a key, then characters of every kind.
func nearEnd(run, n, keys, l, g int, lower bool) {
	fill := "EFGEFGEFGEFGEFGEFGEFGEFG"
	if lower {
		fill = "efgefgefgefgefgefgefgefg"
	}
	roundTrip(append([]rune(fill)[:run], textOf(few, "txt", n)...), keys, l, g)
}

func C03_KeyChange()      { nearEnd(5+sym.Choice("run", 4), 2, 3, 16, 3, false) }
func C03_KeyChangeLower() { nearEnd(3+sym.Choice("run", 4), 2, 3, 16, 3, true) }
func C03_KeyChanges()     { roundTrip(textOf(few, "txt", 4), 3, 15, 2) }

// Arbitrary runes: what is accepted comes back.
func C03_AnyText() {
	plain := []rune{anyRune("a"), 'b', anyRune("c")}
	roundTrip(plain, 2, 24, 5)
}

// The printed default settings: keys of 350 letters, groups of 5.
func C03_Default() {
	n := 332 + 2*sym.Choice("run", 5)
	plain := make([]rune, n)
	for i := range plain {
		plain[i] = rune('A' + i%16)
	}
	roundTrip(append(plain, textOf(few, "txt", 2)...), 2, 350, 5)
}

func C03_KeyChanges_Thorough() { roundTrip(textOf(few, "txt", 5), 3, 15, 2) }
func C03_OneKey_Thorough()     { roundTrip(text("txt", 4), 1, 24, 5) }
