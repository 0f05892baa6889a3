package text

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

// item separators and item characters, with white space that is trimmed.
var listChars = []rune("Aaz0/,  ,\t\n")

// items splits in the way the property says: between commas and spaces,
// without surrounding white space.
func items(in []rune, upper bool) [][]rune {
	var out [][]rune
	var cur []rune
	flush := func() {
		a, b := 0, len(cur)
		for a < b && (cur[a] == '\t' || cur[a] == '\n') {
			a++
		}
		for b > a && (cur[b-1] == '\t' || cur[b-1] == '\n') {
			b--
		}
		if b > a {
			out = append(out, h.Cp(cur[a:b]))
		}
		cur = nil
	}
	for _, c := range in {
		if c == ',' || c == ' ' {
			flush()
			continue
		}
		if upper {
			c = h.Up(c)
		}
		cur = append(cur, c)
	}
	flush()
	return out
}

func lists(n int, al string) (in []string, want, wantCase [][]rune) {
	k := 1 + sym.Choice("args", 2)
	for i := 0; i < k; i++ {
		t := h.Of([]rune(al), "char", sym.Choice("len", n+1))
		in = append(in, string(t))
		want = append(want, items(t, true)...)
		wantCase = append(wantCase, items(t, false)...)
	}
	return
}

func equal(got, want [][]rune) {
	sym.Observe("n", len(got))
	sym.Assert(len(got) == len(want), "one item for each")
	for i := range want {
		sym.ObserveRunes("item", got[i])
		sym.Assert(h.Same(got[i], want[i]), "the item")
	}
}

func C27_Keepers() {
	in, want, _ := lists(3, "Aa, \t")
	equal(krypto431.VettedKeepers(in...), want)
	if len(want) > 1 {
		sym.Reach("several items")
	}
}

func C27_MessageIds() {
	in, _, want := lists(3, "Aa, \t")
	equal(krypto431.VettedMessageIds(in...), want)
	if len(want) > 1 {
		sym.Reach("several items")
	}
}

func C27_Aliases() {
	in, want, _ := lists(2, "Az, ")
	equal(krypto431.VettedRecipients(in...), want)
	equal(krypto431.VettedCallSigns(in...), want)
	equal(krypto431.VettedKeys(in...), want)
	sym.Reach("done")
}

// One longer list with a letter outside ASCII.
func C27_Long() {
	t := h.Of([]rune("aå, \t"), "char", 5)
	equal(krypto431.VettedKeepers(string(t)), upped(items(t, true)))
	equal(krypto431.VettedMessageIds(string(t)), items(t, false))
	sym.Reach("done")
}

func upped(l [][]rune) [][]rune {
	for i := range l {
		for j := range l[i] {
			l[i][j] = sym.IteRune(l[i][j] == 'å', 'Å', l[i][j])
		}
	}
	return l
}
