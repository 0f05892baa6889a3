// Package radio decides how radiograms are read and stored.
package radio

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/sym"
)

func begin() {
	faultos.Reset()
	rnd.UseFixed()
}

// word returns n arbitrary characters of al.
func word(al, name string, n int) string { return string(h.Of([]rune(al), name, n)) }

// upper is s in upper case, without branching.
func upper(s string) []rune {
	out := []rune(s)
	for i := range out {
		out[i] = h.Up(out[i])
	}
	return out
}

var dtgs = []struct {
	s              string
	day, hour, min int
	month, year    int // 0: the current ones
}{
	{"", 0, 0, 0, 0, 0},
	{"012345", 1, 23, 45, 0, 0},
	{"280001ZDEC22", 28, 0, 1, 12, 2022},
	{"150000zoct30", 15, 0, 0, 10, 2030},
}

const (
	az  = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	any = az + "/0123456789"
)

// part is a radiogram and what is to be read from it.
type part struct {
	to   []string
	from string
	dtg  int
	text string
}

func (w *part) read(rg string) {
	k := krypto431.New(krypto431.WithCallSign("OWN"))
	m, err := k.ParseRadiogram(rg)
	sym.ObserveBool("err", err != nil)
	sym.Assert(err == nil, "a documented radiogram is read")
	if err != nil {
		return
	}
	sym.Assert(len(m.Recipients) == len(w.to), "as many recipients")
	for i := range w.to {
		sym.Assert(h.Same(m.Recipients[i], upper(w.to[i])), "the recipients")
	}
	sym.Assert(h.Same(m.From, upper(w.from)), "the sender")
	sym.Assert(h.Same(m.PlainText, []rune(w.text)), "the text")
	if d := dtgs[w.dtg]; d.s != "" {
		t := m.DTG.Time
		sym.Assert(t.Day() == d.day && t.Hour() == d.hour && t.Minute() == d.min, "the time")
		sym.Assert(d.year == 0 || t.Year() == d.year && int(t.Month()) == d.month, "the date")
	}
	sym.Assert(len(m.Id) == 4 && len(m.KeyId) == 0 && len(m.CipherText) == 0, "a new message")
	sym.Reach("read")
}

// C30_Stations: recipients and sender.
func C30_Stations() {
	begin()
	w := part{text: "Text, of two words."}
	n := sym.Choice("recipients", 4)
	rg := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			rg += []string{" ", ", "}[sym.Choice("separator", 2)]
		}
		if i == 0 {
			w.to = append(w.to, word(any, "to", 2))
		} else {
			w.to = append(w.to, word(az, "to", 1)+"9B/p"[i:])
		}
		rg += w.to[i]
	}
	if n > 0 {
		rg += []string{" ", "\n"}[sym.Choice("gap", 2)]
	}
	w.from = word(any, "from", 2)
	notDE(w.from)
	w.read(rg + []string{"DE ", "de "}[sym.Choice("de", 2)] + w.from + []string{" ", " = "}[sym.Choice("header", 2)] + w.text)
}

// notDE leaves out the one word that is no call-sign.
func notDE(s string) { sym.Assume(sym.Not(h.Same(upper(s), []rune("DE")))) }

// C30_Header: the date-time group and what follows it.
func C30_Header() {
	begin()
	w := part{from: word(az, "from", 2), dtg: sym.Choice("dtg", len(dtgs)), text: "Text, of\ntwo words."}
	notDE(w.from)
	rg := []string{"", " ", "\r\n"}[sym.Choice("leading", 3)]
	if sym.Choice("to", 2) == 1 {
		w.to = []string{word("ABC", "to", 1) + "x"}
		rg += w.to[0] + " "
	}
	rg += "DE " + w.from + " "
	if w.dtg > 0 {
		rg += dtgs[w.dtg].s + []string{" ", "\n"}[sym.Choice("gap", 2)]
	}
	rg += []string{"", "= ", "COL 3 = ", "== AB == COL 2 = ", "== AB, CD 3 = "}[sym.Choice("header", 5)]
	rg += w.text
	w.text = "Text, of two words."
	w.read(rg)
}

// C30_Body: the parts that follow the header, which are left out, and the text.
func C30_Body() {
	begin()
	w := part{from: "AB", dtg: 1}
	rg := "DE AB 012345"
	head := sym.Choice("header", 16)
	rg += []string{" ", " = ", " COL = ", " 4 = ", " COL 3 = ", " c = ",
		" == BA, CC == COL 3 = ", " == XY ZZ/P == 3 = ", " == BA == = ", "==BA==COL2=",
		" == VJ QJ 3 = ", " == VJ QJ = ", " == VJ=",
		" 120 = ", " COL 1234 = ", " == VJ 12345 = "}[head]
	switch sym.Choice("shape", 3) {
	case 0:
		w.text = word(az, "text", 3) + "ab"
	case 1:
		w.text = word(az, "text", 2) + "é 12" + word(az, "text", 2) + "."
	case 2:
		sym.Assume(head > 0) // would be read as message instructions
		w.text = word(az, "text", 2) + " = " + word(az, "text", 3)
	}
	w.read(rg + w.text + []string{"", " = K", "=k", " K", " +", " = +", " = AR", " [AR]", " ="}[sym.Choice("trail", 9)])
}

// C30_Last: whatever a text ends with belongs to it.
func C30_Last() {
	begin()
	w := part{from: "AB", dtg: 1}
	w.text = "TEXT" + word("AZ", "text", 1) + word(".,-?:/!09é", "last", 1+sym.Choice("more", 2))
	w.read("DE AB 012345" + []string{" ", " = ", " COL 3 = "}[sym.Choice("header", 3)] + w.text + []string{"", " = K", "=k", " K", " +", " ="}[sym.Choice("trail", 6)])
}

// C30_Refused: words without a DE part.
func C30_Refused() {
	begin()
	k := krypto431.New(krypto431.WithCallSign("OWN"))
	var de [3]bool
	var words [3]string
	for i := range words {
		words[i] = word(az, "word", 2)
		de[i] = h.Same(upper(words[i]), []rune("DE"))
	}
	m, err := k.ParseRadiogram(words[0] + " " + words[1] + " " + words[2])
	sym.ObserveBool("err", err != nil)
	sym.Assert(sym.Iff(err == nil, sym.Or(de[0], de[1])), "read if and only if there is a DE part")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("read")
	if de[1] {
		sym.Assert(h.Same(m.From, upper(words[2])) && len(m.Recipients) == 1 && h.Same(m.Recipients[0], upper(words[0])), "from and to")
	} else {
		sym.Assert(h.Same(m.From, upper(words[1])) && len(m.Recipients) == 0 && h.Same(m.PlainText, []rune(words[2])), "from and text")
	}
}

// C30_NoDate: six digits that are no date-time group are refused.
func C30_NoDate() {
	begin()
	k := krypto431.New(krypto431.WithCallSign("OWN"))
	_, err := k.ParseRadiogram("DE AB " + []string{"322345", "012545", "012360", "310000ZFEB22", "000000"}[sym.Choice("dtg", 5)] + " = " + word(az, "text", 2))
	sym.Assert(err != nil, "refused")
	sym.Reach("refused")
}

// C30_AnyText: reading never crashes.
func C30_AnyText() {
	begin()
	k := krypto431.New(krypto431.WithCallSign("OWN"))
	rg := []string{"", "DE A ", "DE A =", "A DE B ==", "DE A == B ==", "DE A 0123"}[sym.Choice("prefix", 6)]
	for i, n := 0, sym.Choice("length", 3); i < n; i++ {
		rg += word("DEek=+[]AR0/.\n\té ", "text", 1)
	}
	m, err := k.ParseRadiogram(rg)
	sym.Assert((m == nil) == (err != nil), "a message or an error")
	sym.Reach("done")
}
