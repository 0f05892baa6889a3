package print

import (
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

func cpMsg(m *krypto431.Message) krypto431.Message {
	return krypto431.Message{Id: h.Cp(m.Id), Recipients: h.Cp2(m.Recipients), From: h.Cp(m.From), DTG: m.DTG, PlainText: h.Cp(m.PlainText),
		KeyId: h.Cp(m.KeyId), CipherText: h.Cp(m.CipherText), Radiogram: h.Cp(m.Radiogram)}
}

func sameMsg(a, b *krypto431.Message) bool {
	ok := sym.And(h.Same(a.Id, b.Id), h.Same(a.PlainText, b.PlainText))
	ok = sym.And(ok, sym.And(h.Same(a.From, b.From), h.Same2(a.Recipients, b.Recipients)))
	ok = sym.And(ok, sym.And(h.Same(a.KeyId, b.KeyId), h.Same(a.CipherText, b.CipherText)))
	return sym.And(ok, sym.And(h.Same(a.Radiogram, b.Radiogram), a.DTG.Time.Equal(b.DTG.Time)))
}

// section gives the lines after the line head up to the next one starting with
// an equals sign, and whether there is such a section.
func section(lines [][]rune, head string) (out [][]rune, ok bool) {
	for _, l := range lines {
		heading := string(l)
		if heading == "=TEXT=" || heading == "=CIPHER=" || heading == "=TRAFFIC=EXAMPLE=" {
			if ok {
				return out, true
			}
			ok = heading == head
			continue
		}
		if ok {
			out = append(out, l)
		}
	}
	return
}

// words splits lines at white space.
func words(lines [][]rune) (out [][]rune) {
	for _, l := range lines {
		var w []rune
		for _, c := range l {
			if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
				if w != nil {
					out = append(out, w)
				}
				w = nil
				continue
			}
			w = append(w, c)
		}
		if w != nil {
			out = append(out, w)
		}
	}
	return
}

func solid(lines [][]rune) (out []rune) {
	for _, w := range words(lines) {
		out = append(out, w...)
	}
	return
}

func message(to, toLen, from, cipher, g int, plain []rune) *krypto431.Message {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithCallSign("SA6MWA"))
	m := &krypto431.Message{Id: h.Letters("id", 4), From: h.Letters("from", from), PlainText: plain}
	for i := 0; i < to; i++ {
		m.Recipients = append(m.Recipients, h.Letters("to", toLen))
	}
	if cipher > 0 {
		m.KeyId, m.CipherText = h.Letters("keyid", g), h.Letters("cipher", cipher)
	}
	m.DTG.Time = time.Date(2030, 1, 2, 3, 4, 0, 0, time.UTC)
	m.SetInstance(&k)
	return m
}

func join(names [][]rune, sep rune) (out []rune) {
	for i, n := range names {
		if i > 0 {
			out = append(out, sep)
		}
		out = append(out, n...)
	}
	return
}

func printed(m *krypto431.Message, width ...int) {
	g := m.GetInstance().GroupSize
	was := cpMsg(m)
	out := m.String(width...)
	sym.ObserveString("out", out)
	sym.Assert(sameMsg(m, &was), "printing changes nothing")
	lines := split(out)
	var head [][]rune
	for _, l := range lines {
		if len(l) > 0 && l[0] == '=' {
			break
		}
		head = append(head, l)
	}
	to := join(m.Recipients, ',')
	if len(to) == 0 {
		to = []rune("NIL")
	}
	has := func(part []rune, what string) {
		ok := false
		for _, l := range head {
			ok = sym.Or(ok, at(append(h.Cp(l), ' '), append(part, ' '), 0))
		}
		sym.Assert(ok, what)
	}
	has([]rune(m.DTG.String()), "the date-time group")
	has(append([]rune("ID: "), m.Id...), "the message ID")
	has(append([]rune("TO: "), to...), "all recipients")
	has(append([]rune("FROM (DE): "), m.From...), "the sender")

	text, ok := section(lines, "=TEXT=")
	sym.Assert(h.Same(solid(text), solid([][]rune{m.PlainText})), "the whole text")
	sym.Assert(ok || len(solid([][]rune{m.PlainText})) == 0, "the text has its heading")

	var groups [][]rune
	for i := 0; i < len(m.CipherText); i += g {
		e := i + g
		if e > len(m.CipherText) {
			e = len(m.CipherText)
		}
		groups = append(groups, m.CipherText[i:e])
	}
	cipher, ok := section(lines, "=CIPHER=")
	traffic, ok2 := section(lines, "=TRAFFIC=EXAMPLE=")
	if len(groups) > 0 {
		groups = append([][]rune{m.KeyId}, groups...)
		sym.Assert(ok && ok2, "the cipher text and the traffic have their headings")
		sym.Assert(h.Same2(words(cipher), groups), "the key ID and all groups of cipher text in order")
		want := append(h.Cp2(m.Recipients), []rune("DE"), m.From, []rune(m.DTG.String()), []rune(itoa(len(groups))), []rune("="))
		want = append(append(want, groups...), []rune("="), []rune("K"))
		sym.Assert(h.Same2(words(traffic), want), "the traffic is the whole message")
		sym.Reach("opt:cipher text")
	} else {
		sym.Assert(!ok && !ok2, "no cipher text, no traffic")
		sym.Reach("opt:no cipher text")
	}
	for _, l := range lines {
		sym.Assert(strings.TrimSpace(string(l)) == "" || len(l) > 0, "lines")
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func width() []int {
	return [][]int{nil, {80}, {95}, {0}}[sym.Choice("width", 4)]
}

func C39_Header() {
	printed(message(sym.Choice("recipients", 14), 6, []int{2, 6, 53, 70}[sym.Choice("from", 4)], 10*sym.Choice("cipher", 2), 5, h.Letters("text", 3)), width()...)
}

func C39_Cipher() {
	g := 1 + sym.Choice("group", 6)
	printed(message(1, 4, 4, g*[]int{1, 2, 10, 20, 40}[sym.Choice("groups", 5)], g, h.Letters("text", 3)), width()...)
}

// C39_Text: words around the width.
func C39_Text() {
	t := h.Letters("text", 60+sym.Choice("first", 2)*20)
	sep := func(name string) {
		t = append(t, [][]rune{[]rune(" "), []rune("   "), []rune("\r\n"), []rune("\n\n ")}[sym.Choice(name, 4)]...)
	}
	sep("between")
	t = append(t, h.Letters("text", []int{0, 18, 19, 20, 100}[sym.Choice("second", 5)])...)
	sep("between")
	t = append(t, h.Letters("text", 3)...)
	printed(message(1, 4, 4, 10, 5, t), [][]int{nil, {95}}[sym.Choice("width", 2)]...)
}

// C39_Fit: recipients, senders and key IDs just fitting the width.
func C39_Fit() {
	n := 40 + sym.Choice("len", 8)
	to, from, g := 4, 4, 5
	switch sym.Choice("which", 3) {
	case 0:
		to = n
	case 1:
		from = n
	case 2:
		g = n
	}
	printed(message(1, to, from, g, g, nil), []int{69, 80, 95}[sym.Choice("width", 3)])
}

// C39_Any: texts of arbitrary characters.
func C39_Any() {
	var t []rune
	most := 2
	if sym.Thorough() {
		most = 3
	}
	for n := 1 + sym.Choice("length", most); len(t) < n; {
		t = append(t, h.AnyRune("text"))
	}
	m := message(1, 4, 4, 0, 5, t)
	was := cpMsg(m)
	m.String()
	sym.Assert(sameMsg(m, &was), "printing changes nothing")
}
