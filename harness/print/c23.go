package print

import (
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/diana"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

// at tells, without branching, whether line has part anywhere from column c on.
func at(line, part []rune, c int) bool {
	ok := false
	for ; c+len(part) <= len(line); c++ {
		ok = sym.Or(ok, h.Same(line[c:c+len(part)], part))
	}
	return ok
}

func split(s string) [][]rune {
	var out [][]rune
	for _, l := range strings.Split(s, krypto431.LineBreak) {
		out = append(out, []rune(l))
	}
	return out
}

// inOrder checks that lines hold each of parts, in order, on lines of their own.
func inOrder(lines, parts [][]rune, what string) {
	y := 0
	for _, p := range parts {
		for y < len(lines) && !sym.Fork(at(lines[y], p, 0)) {
			y++
		}
		sym.Assert(y < len(lines), what)
		y++
	}
}

func trimmed(s string) [][]rune {
	var out [][]rune
	for _, l := range split(s) {
		r := strings.TrimRight(string(l), " \r")
		if r != "" {
			out = append(out, []rune(r))
		}
	}
	return out
}

func sheet(g, length, columns, keyColumns, keepers, keeperLen int) {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithColumns(columns), krypto431.WithKeyColumns(keyColumns), krypto431.WithCallSign("SA6MWA"))
	key := krypto431.Key{Id: h.Letters("id", g), Runes: h.Letters("key", length), Used: sym.Fork(sym.Bool("used")), Compromised: sym.Bool("compromised")}
	for i := 0; i < keepers; i++ {
		key.Keepers = append(key.Keepers, h.Letters("keeper", keeperLen))
	}
	key.Created.Time = time.Unix(1000, 0).UTC()
	key.Expires.Time = time.Unix(2000, 0).UTC()
	key.SetInstance(&k)
	was := h.Snap(&key)
	out := key.String()
	sym.ObserveString("out", out)
	sym.Assert(h.Equal(&key, &was), "printing changes nothing")
	lines := split(out)

	inOrder(lines, [][]rune{key.Id}, "the ID")
	// letters: groups of g, in order of reading
	var groups [][]rune
	block, err := key.GroupsBlock()
	sym.Assert(err == nil, "the key can be grouped")
	groups = split(string(*block))
	if length > 0 {
		inOrder(lines, groups, "all letters of the key in groups")
	}
	names := "NIL"
	if keepers > 0 {
		names = key.JoinKeepers(",")
	}
	inOrder(lines, [][]rune{[]rune("KEEPERS: " + names + " ")}, "the keepers")
	mark := "USED: [ ]"
	if key.Used {
		mark = "USED: [X]"
	}
	inOrder(lines, [][]rune{[]rune(mark)}, "the used mark")
	inOrder(lines, trimmed(diana.ReciprocalTable), "the reciprocal table")
	inOrder(lines, trimmed(krypto431.KeyFooter), "the coding legend")
	sym.Reach("done")
}

func C23_Default() { sheet(5, 350, 110, 30, sym.Choice("keepers", 3), 6) }

func C23_Lengths() {
	sheet(5, []int{0, 1, 5, 20, 25, 100, 355, 600}[sym.Choice("length", 8)], 85, 30, 1, 4)
}

func C23_Widths() {
	p := [][2]int{{85, 5}, {85, 11}, {86, 29}, {110, 6}, {110, 35}, {160, 60}, {160, 100}, {40, 30}}[sym.Choice("columns and key columns", 8)]
	sheet(5, 50, p[0], p[1], 1, 5)
}

func C23_Groups() {
	g := []int{3, 4, 6, 8}[sym.Choice("group", 4)]
	sheet(g, 12*g, 85, 30, 1, 5)
}

// Many keepers.
func C23_Keepers() { sheet(5, 50, 85+25*sym.Choice("columns", 2), 30, sym.Choice("keepers", 13), 6) }
