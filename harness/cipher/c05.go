package cipher

import "verif/sym"

// inAlphabet is the documented repertoire.
func inAlphabet(r rune) bool {
	ok := sym.And(r >= 'A', r <= 'Z')
	ok = sym.Or(ok, sym.And(r >= 'a', r <= 'z'))
	ok = sym.Or(ok, sym.And(r >= '0', r <= '9'))
	for _, c := range "?-., :+/ÅÄÖåäö" {
		ok = sym.Or(ok, r == c)
	}
	return ok
}

func anyText(before, after string) {
	k := store(1, 24, 5)
	o := twin(k)
	c := anyRune("char")
	plain := append(append([]rune(before), c), []rune(after)...)
	m := message(k, cp(plain))
	err := m.Encipher() // must not panic
	sym.ObserveBool("err", err != nil)
	sym.Assert(sym.Implies(sym.Not(inAlphabet(c)), err != nil), "text with a character outside the tables is refused")
	sym.Assert(sym.Implies(inAlphabet(c), err == nil), "text of the tables is accepted")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	r := message(o, nil)
	r.KeyId = cp(m.KeyId)
	r.CipherText = cp(m.CipherText)
	if r.Decipher() == nil {
		sym.Assert(same(r.PlainText, plain), "what was accepted is not altered")
	}
}

func C05_Alone()  { anyText("", "") }
func C05_After()  { anyText("aB", "") }
func C05_Before() { anyText("", "x1") }
func C05_Twice() {
	k := store(1, 24, 5)
	a := anyRune("a")
	b := anyRune("b")
	m := message(k, []rune{a, b})
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	sym.Assert(sym.Iff(sym.And(inAlphabet(a), inAlphabet(b)), err == nil), "a text is accepted exactly if all characters are in the tables")
	sym.Reach("done")
}

// Texts of length zero, missing keys and odd settings: an error, no crash.
func C05_Degenerate() {
	g := 1 + sym.Choice("group", 3)
	l := sym.Choice("length", 10)
	n := sym.Choice("keys", 3)
	k := store(0, l, 5)
	k.GroupSize = g
	for i := 0; i < n; i++ {
		k.Keys = append(k.Keys, keyWith(idOf(i, g), letters("key", l)))
	}
	m := message(k, text("txt", sym.Choice("chars", 3)))
	if sym.Fork(sym.Bool("named")) {
		m.KeyId = letters("id", sym.Choice("idlen", 3))
	}
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	sym.Reach("done")
}
