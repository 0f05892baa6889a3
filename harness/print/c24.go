// Package print: key sheets and the coding legend.
package print

import (
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

// legend is the coding legend as printed: the cells of both tables and what
// its symbols are said to mean, with the letter given in parentheses.
type legend struct {
	idx, ct [2][26]rune
	mean    map[string]rune // description → symbol
	letter  map[string]rune // description → letter
}

func parse(text string) *legend {
	l := &legend{mean: map[string]rune{}, letter: map[string]rune{}}
	for _, line := range strings.Split(text, krypto431.LineBreak) {
		r := []rune(line)
		if len(r) < 59 {
			continue
		}
		head := string(r[:4])
		for i := 0; i < 26; i++ {
			switch head {
			case "IDX ":
				l.idx[0][i] = r[4+2*i]
			case "CT1 ":
				l.ct[0][i] = r[4+2*i]
			case "CT2 ":
				l.ct[1][i] = r[4+2*i]
			}
		}
		if len(r) > 59 {
			note := string(r[61:])
			desc, rest, ok := strings.Cut(note, " (")
			sym.Assert(ok && len(rest) == 2 && rest[1] == ')', "a legend note gives a letter")
			l.mean[desc] = r[59]
			l.letter[desc] = rune(rest[0])
		}
	}
	return l
}

const (
	toSwitch = "Switch table"
	toBinary = "Toggle binary mode"
	toCase   = "Toggle case"
	toKey    = "Change key"
)

// deciphered gives what the program makes of code letters p under a key with
// arbitrary letters.
func deciphered(p string) (string, error) {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(1), krypto431.WithCallSign("SA6MWA"))
	k.Keys = append(k.Keys, krypto431.Key{Id: []rune("A"), Runes: h.Letters("key", 8)})
	k.Keys = append(k.Keys, krypto431.Key{Id: []rune("B"), Runes: h.Letters("key", 8)})
	m := &krypto431.Message{Id: []rune("id01"), KeyId: []rune("A")}
	m.SetInstance(&k)
	i, pos, change := 0, 0, false
	for j, c := range p {
		kr := k.Keys[i].Runes[pos] - 'A'
		ct := 25 - (c - 'A') - kr
		m.CipherText = append(m.CipherText, sym.IteRune(ct < 0, ct+26, ct)+'A')
		pos++
		if change {
			i, pos, change = 1, 0, false
		} else if c == 'Y' && j > 0 && p[0] == 'Z' {
			change = true
		}
	}
	err := m.Decipher()
	sym.ObserveBool("err", err != nil)
	sym.ObserveRunes("plain", m.PlainText)
	return string(m.PlainText), err
}

func C24_Legend() {
	l := parse(krypto431.KeyFooter)
	sym.Assert(len(l.mean) == 4, "four control characters")
	i := sym.Choice("letter", 26)
	table := sym.Choice("table", 2)
	c := rune('A' + i)
	sym.Assert(l.idx[0][i] == c, "the index row is the alphabet")
	pre := ""
	if table == 1 {
		pre = "Z"
	}
	cell := l.ct[table][i]
	for d, s := range l.mean {
		if s == cell {
			sym.Assert(l.letter[d] == c, "the letter of a control character")
		}
	}
	switch cell {
	case l.mean[toSwitch]:
		got, err := deciphered(pre + string(c) + "B")
		sym.Assert(err == nil && got == string(l.ct[1-table][1]), "switches table")
		sym.Reach("switch")
	case l.mean[toCase]:
		got, err := deciphered(pre + string(c) + "MZA" + "Z" + string(c))
		sym.Assert(err == nil && got == strings.ToLower(string(l.ct[1][12]))+strings.ToLower(string(l.ct[0][0])), "toggles case")
		got, err = deciphered(pre + string(c) + string(c) + "M")
		sym.Assert(err == nil && got == string(l.ct[1][12]), "toggles case back")
		sym.Reach("case")
	case l.mean[toKey]:
		got, err := deciphered(pre + string(c) + "BDE")
		sym.Assert(err == nil && got == string(l.ct[0][3])+string(l.ct[0][4]), "changes key")
		sym.Reach("key")
	case l.mean[toBinary]:
		// not implemented: what follows is refused, not taken for text
		_, err := deciphered(pre + string(c) + "B")
		sym.Assert(err != nil, "binary mode is no text")
		got, err := deciphered("B" + pre + string(c))
		sym.Assert(err == nil && got == string(l.ct[0][1]), "the control character is no text")
		sym.Reach("binary")
	default:
		got, err := deciphered(pre + string(c))
		sym.Assert(err == nil && got == string(cell), "the character shown")
		sym.Reach("character")
	}
}
