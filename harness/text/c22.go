// Package text: grouping, lists of call-signs, set operations.
package text

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

func anyText(n int) []rune {
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, sym.Rune("char", 0, 0x1ff))
	}
	return out
}

// grouped checks a rendering of in with groups of g and a line limit (0: none).
func grouped(out *[]rune, err error, in []rune, g, limit int) {
	sym.Assert(err == nil && out != nil, "rendering succeeds")
	o := *out
	sym.ObserveRunes("out", o)
	seps := 0
	if len(in) > 0 {
		seps = (len(in) - 1) / g
	}
	sym.Assert(len(o) == len(in)+seps, "one separator between groups, nothing else")
	pos, line := 0, 0
	for i := range in {
		if i > 0 && i%g == 0 {
			sp, nl := o[pos] == ' ', o[pos] == '\n'
			if limit <= 0 {
				sym.Assert(sp, "groups are separated by a space without a limit")
			} else {
				sym.Assert(sym.Or(sp, nl), "groups are separated by a space or a line break")
				line = sym.IteInt(nl, 0, line+1)
			}
			pos++
		}
		sym.Assert(o[pos] == in[i], "the characters of the text in order")
		pos++
		line++
		if limit >= g {
			sym.Assert(line <= limit, "no line is longer than the limit")
		}
	}
	sym.Reach("done")
}

func group() int { return 1 + sym.Choice("group", 6) }

func C22_Key() {
	n := sym.Choice("len", 21)
	k := krypto431.New(krypto431.WithGroupSize(group()), krypto431.WithKeyColumns(sym.Int("limit", -3, 40)))
	in := anyText(n)
	key := krypto431.Key{Runes: h.Cp(in)}
	key.SetInstance(&k)
	out, err := key.GroupsBlock()
	grouped(out, err, in, k.GroupSize, k.KeyColumns)
	sym.Assert(h.Same(key.Runes, in), "the key is unchanged")
}

func C22_KeyLine() {
	n := sym.Choice("len", 21)
	k := krypto431.New(krypto431.WithGroupSize(group()), krypto431.WithKeyColumns(5))
	in := anyText(n)
	key := krypto431.Key{Runes: h.Cp(in)}
	key.SetInstance(&k)
	out, err := key.Groups()
	grouped(out, err, in, k.GroupSize, 0)
}

func C22_Message() {
	n := sym.Choice("len", 21)
	k := krypto431.New(krypto431.WithGroupSize(group()), krypto431.WithColumns(sym.Int("limit", -3, 40)))
	in := anyText(n)
	m := krypto431.Message{CipherText: h.Cp(in)}
	m.SetInstance(&k)
	out, err := m.GroupsBlock()
	grouped(out, err, in, k.GroupSize, k.Columns)
	line, err := m.Groups()
	grouped(line, err, in, k.GroupSize, 0)
}

// Whole keys of the default length with wide and narrow limits.
func C22_Long() {
	k := krypto431.New(krypto431.WithKeyColumns(sym.Int("limit", 0, 130)))
	in := anyText(350)
	key := krypto431.Key{Runes: h.Cp(in)}
	key.SetInstance(&k)
	out, err := key.GroupsBlock()
	grouped(out, err, in, k.GroupSize, k.KeyColumns)
}

// Group sizes that are no sizes are refused.
func C22_BadSize() {
	k := krypto431.New(krypto431.WithGroupSize(sym.Int("group", -1<<40, 0)))
	key := krypto431.Key{Runes: anyText(3)}
	key.SetInstance(&k)
	_, err := key.GroupsBlock()
	sym.Assert(err != nil, "refused")
	_, err = key.Groups()
	sym.Assert(err != nil, "refused")
	sym.Reach("refused")
}
