package cipher

import "verif/sym"

func enough(plain []rune, l, g int) {
	k := store(len(plain), l, g)
	m := message(k, cp(plain))
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	sym.Assert(err == nil, "enciphering succeeds")
	sym.Reach("done")
}

// Keys just long enough: every character may need its own key.
func C09_Short() { enough(textOf(few, "txt", 4), 14, 2) }

func C09_Groups() {
	g := 1 + sym.Choice("group", 6)
	enough(text("txt", 2), g+12, g)
}

// The end of a key: a run of plain letters, then characters that need one to
// four letters.
func C09_Boundary() {
	plain := []rune("EEEEEEEEEEEEEEEEEEEE")[:sym.Choice("run", 14)]
	enough(append(plain, textOf(few, "txt", 3)...), 20, 5)
}

func C09_Default() {
	n := 332 + sym.Choice("run", 14)
	k := store(2, 350, 5)
	plain := make([]rune, n)
	for i := range plain {
		plain[i] = 'E'
	}
	plain = append(plain, textOf(few, "txt", 2)...)
	m := message(k, plain)
	err := m.Encipher()
	sym.ObserveBool("err", err != nil)
	sym.Assert(err == nil, "enciphering succeeds")
	sym.Reach("done")
}
