package cipher

import "verif/sym"

// tried tries to decipher plain as received text.
func tried(txt []rune, keys, l, g int) {
	k := store(keys, l, g)
	mark(k)
	o := twin(k)
	m := message(k, cp(txt))
	old := []rune(nil)
	if sym.Fork(sym.Bool("old")) {
		old = []rune("OLD")
	}
	m.CipherText = cp(old)
	dry := sym.Fork(sym.Bool("dry"))
	var err error
	if dry {
		err = m.TryDecipherPlainText(true)
	} else if sym.Fork(sym.Bool("flag")) {
		err = m.TryDecipherPlainText(false)
	} else {
		err = m.TryDecipherPlainText()
	}
	sym.ObserveBool("err", err != nil)
	for i := range o.Keys {
		sym.Assert(sameKey(&k.Keys[i], &o.Keys[i]), "keys keep their contents")
		if err != nil || dry {
			sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "no key is marked used")
		}
	}
	if err != nil || dry {
		if dry {
			sym.Reach("dry run")
		} else {
			sym.Reach("failed")
		}
		sym.Assert(same(m.PlainText, txt), "the text is as before")
		sym.Assert(same(m.CipherText, old), "the cipher text is as before")
		sym.Assert(len(m.KeyId) == 0, "the key ID is still empty")
		if err == nil {
			sym.Reach("opt:dry run finds cipher text")
		}
		return
	}
	sym.Reach("deciphered")
	// what an operator finds in the text: letters, without spaces and = signs
	var found []rune
	for _, c := range txt {
		if c != ' ' && c != '\n' && c != '=' {
			if c >= 'a' && c <= 'z' {
				c -= 32
			}
			found = append(found, c)
		}
	}
	sym.Assert(len(found) >= 2*g, "there is a key ID and a group")
	if len(found) < 2*g {
		return
	}
	sym.Assert(same(m.KeyId, found[:g]), "the key ID is the first group")
	sym.Assert(same(m.CipherText, found[g:]), "the cipher text is the rest")
	r := message(o, nil)
	r.KeyId = cp(found[:g])
	r.CipherText = cp(found[g:])
	err = r.Decipher()
	sym.Assert(err == nil, "deciphering directly succeeds as well")
	sym.Assert(same(m.PlainText, r.PlainText), "the text is the same as deciphered directly")
	for i := range o.Keys {
		sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "the same keys are marked as when deciphered directly")
	}
}

func C11_Letters() {
	k := []rune("KA")
	tried(append(k, letters("txt", 4)...), 2, 5, 2)
}

func C11_AnyId() { tried(letters("txt", 5), 2, 4, 1) }

// some has letters of both cases and everything that may stand between.
var some = []rune("AKYZkabz =\n.1Åé")

func C11_Mixed() {
	tried(append([]rune("kA"), textOf(some, "txt", 3)...), 2, 3, 2)
}

func C11_Short() { tried(textOf(some, "txt", sym.Choice("len", 4)), 1, 4, 1) }

// Any runes whatsoever: no crash, and all or nothing.
func C11_AnyText() {
	k := store(1, 4, 1)
	mark(k)
	was := k.Keys[0].Used
	txt := []rune{'A', anyRune("a"), 'B', anyRune("b")}
	m := message(k, cp(txt))
	err := m.TryDecipherPlainText()
	sym.ObserveBool("err", err != nil)
	if err != nil {
		sym.Reach("failed")
		sym.Assert(same(m.PlainText, txt), "the text is as before")
		sym.Assert(len(m.CipherText) == 0 && len(m.KeyId) == 0, "no cipher text and key ID")
		sym.Assert(k.Keys[0].Used == was, "no key is marked used")
		return
	}
	sym.Reach("deciphered")
	sym.Assert(k.Keys[0].Used, "the key is marked used")
}

// A message that already has a key ID is left alone.
func C11_HasKey() {
	k := store(2, 5, 2)
	mark(k)
	o := twin(k)
	txt := append([]rune("KA"), letters("txt", 3)...)
	m := message(k, cp(txt))
	m.KeyId = []rune("KB")
	m.CipherText = []rune("OLD")
	err := m.TryDecipherPlainText()
	sym.Assert(err != nil, "refused")
	sym.Assert(same(m.PlainText, txt) && string(m.KeyId) == "KB" && string(m.CipherText) == "OLD", "nothing changes")
	for i := range o.Keys {
		sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "no key is marked used")
	}
	sym.Reach("done")
}
