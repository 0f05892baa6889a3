// Package c02: the printed reciprocal table against the cipher.
package c02

import (
	"strings"

	"github.com/sa6mwa/krypto431/diana"
	"verif/sym"
)

// C02_Table reads the table as an operator does: find the column of the
// message letter in the heading, go down to the cell with the key letter, take
// the small letter beside it.
func C02_Table() {
	lines := strings.Split(strings.TrimRight(diana.ReciprocalTable, "\n"), "\n")
	sym.Assert(len(lines) == 27, "a heading and 26 rows")
	var cell [26][26]rune
	var found [26][26]bool
	seen := [26]bool{}
	for at, h := range lines[0] {
		if h < 'A' || h > 'Z' {
			sym.Assert(h == ' ', "only letters and spaces in the heading")
			continue
		}
		sym.Assert(!seen[h-'A'], "each letter heads one column")
		seen[h-'A'] = true
		for _, l := range lines[1:] {
			sym.Assert(at+1 < len(l), "every row reaches under the heading")
			key, third := rune(l[at]), rune(l[at+1])
			sym.Assert(key >= 'A' && key <= 'Z' && third >= 'a' && third <= 'z', "a cell is a key letter and its trigraph letter")
			sym.Assert(!found[h-'A'][key-'A'], "each key letter is once in a column")
			found[h-'A'][key-'A'] = true
			cell[h-'A'][key-'A'] = third - 'a' + 'A'
		}
	}
	col := sym.Rune("letter", 'A', 'Z')
	key := sym.Rune("key", 'A', 'Z')
	sym.Assert(found[col-'A'][key-'A'], "every letter and key letter are in the table")
	var out rune
	err := diana.TrigraphRune(&out, &col, &key)
	sym.Observe("out", int(out))
	sym.Assert(err == nil, "the cipher accepts the letters")
	sym.Assert(out == cell[col-'A'][key-'A'], "the table agrees with the cipher")
	var b byte
	cb, kb := byte(col), byte(key)
	sym.Assert(diana.TrigraphByte(&b, &cb, &kb) == nil && rune(b) == cell[col-'A'][key-'A'], "the table agrees with the byte form of the cipher")
	sym.Reach("compared")
}
