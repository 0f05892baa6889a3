package store

import (
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

// columns tells where each heading starts.
func columns(header []rune, names ...string) (at []int) {
	from := 0
	for _, n := range names {
		found := -1
		for i := from; i+len(n) <= len(header) && found < 0; i++ {
			if string(header[i:i+len(n)]) == n && (i == 0 || header[i-1] == ' ') && (i+len(n) == len(header) || header[i+len(n)] == ' ') {
				found = i
			}
		}
		sym.Assert(found >= 0, "every column has its heading")
		at = append(at, found)
		from = found + len(n)
	}
	return
}

// field decides that the column i of line shows exactly want.
func field(line []rune, at []int, i int, want []rune, what string) {
	end := len(line)
	if i+1 < len(at) {
		end = at[i+1]
	}
	if end > len(line) {
		end = len(line)
	}
	sym.Assert(at[i]+len(want) <= end, what)
	if at[i]+len(want) > end {
		return
	}
	ok := h.Same(line[at[i]:at[i]+len(want)], want)
	for _, c := range line[at[i]+len(want) : end] {
		ok = sym.And(ok, c == ' ')
	}
	sym.Assert(ok, what)
	if i+1 < len(at) {
		sym.Assert(at[i]+len(want) < end, "columns are apart")
	}
}

func joined(names [][]rune, none string) (out []rune) {
	if len(names) == 0 {
		return []rune(none)
	}
	for i, n := range names {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, n...)
	}
	return
}

func moment(name string) (time.Time, string) {
	switch sym.Choice(name, 4) {
	case 0:
		return time.Date(2030, 1, 2, 3, 4, 0, 0, time.UTC), "020304ZJAN30"
	case 1:
		return time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC), "312359ZDEC99"
	case 2:
		return time.Date(2024, 2, 29, 0, 0, 0, 0, time.FixedZone("", 3600)), "290000AFEB24"
	}
	return time.Date(2024, 7, 14, 12, 30, 0, 0, time.FixedZone("", -3*3600)), "141230PJUL24"
}

func names(name string, n int) (out [][]rune) {
	l := []int{2, 5, 9}
	for i := 0; i < n; i++ {
		out = append(out, h.Of([]rune("ABC1"), name, l[(i+n)%3]))
	}
	return
}

func yes(b bool, line []rune, at []int, i int, what string) {
	if sym.Fork(b) {
		field(line, at, i, []rune("Yes"), what)
	} else {
		field(line, at, i, []rune("No"), what)
	}
}

// C43_Keys lists keys.
func C43_Keys() {
	rnd.UseFixed()
	g := []int{2, 5}[sym.Choice("g", 2)]
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithCallSign("SA6MWA"))
	n := 1 + sym.Choice("n", 2)
	var created, expires []string
	for i := 0; i < n; i++ {
		key := krypto431.Key{Id: h.Letters("id", g), Runes: h.Letters("key", 2), Used: sym.Bool("used"), Compromised: sym.Bool("compromised"), Comment: h.Of([]rune("a b"), "comment", []int{0, 5}[i])}
		if i == 0 {
			key.Comment = h.Of([]rune("xyz"), "comment", []int{0, 12}[sym.Choice("comment", 2)])
		}
		key.Keepers = names("keeper", sym.Choice("keepers", 4))
		c, e := "020304ZJAN30", "312359ZDEC99"
		key.Created.Time, key.Expires.Time = time.Date(2030, 1, 2, 3, 4, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)
		if n == 1 {
			key.Created.Time, c = moment("created")
			key.Expires.Time, e = moment("expires")
		}
		created, expires = append(created, c), append(expires, e)
		key.SetInstance(&k)
		k.Keys = append(k.Keys, key)
	}
	was := snaps(&k)
	header, lines := k.SummaryOfKeys(func(*krypto431.Key) bool { return true })
	sym.Assert(len(lines) == n, "a line for each key")
	at := columns(header, "ID", "KEEPERS", "CREATED", "EXPIRES", "USED", "COMPROMISED", "COMMENT")
	for i := range was {
		x := &was[i]
		l := lines[i]
		{
			field(l, at, 0, x.Id, "the ID of the key")
			field(l, at, 1, joined(x.Keepers, "Anonymous"), "all keepers of the key")
			field(l, at, 2, []rune(created[i]), "when it was made")
			field(l, at, 3, []rune(expires[i]), "when it expires")
			yes(x.Used, l, at, 4, "whether it is used")
			yes(x.Compromised, l, at, 5, "whether it is compromised")
			field(l, at, 6, x.Comment, "its comment")
		}
		sym.Assert(h.Equal(&k.Keys[i], x), "listing changes nothing")
	}
	sym.Reach("done")
}

// C43_Messages lists messages.
func C43_Messages() {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("SA6MWA"))
	n := 1 + sym.Choice("n", 2)
	var dates []string
	for i := 0; i < n; i++ {
		m := krypto431.Message{Id: h.Of([]rune("Aa1"), "id", 4), From: names("from", 1)[0], Recipients: names("to", sym.Choice("to", 4))}
		m.PlainText = h.Of([]rune("ABC"), "text", []int{1, 34, 35, 36, 50}[sym.Choice("len", 5)])
		if sym.Choice("from", 3) == 0 {
			m.From = names("from", 2)[0]
		}
		date := "020304ZJAN30"
		m.DTG.Time = time.Date(2030, 1, 2, 3, 4, 0, 0, time.UTC)
		if n == 1 {
			m.DTG.Time, date = moment("dtg")
		}
		dates = append(dates, date)
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	var was []krypto431.Message
	for i := range k.Messages {
		was = append(was, snapMessage(&k.Messages[i]))
	}
	header, lines := k.SummaryOfMessages(func(*krypto431.Message) bool { return true })
	sym.Assert(len(lines) == n, "a line for each message")
	at := columns(header, "ID", "DTG", "TO", "DE", "DIGEST")
	for i := range was {
		m, l := &was[i], lines[i]
		field(l, at, 0, m.Id, "the ID of the message")
		field(l, at, 1, []rune(dates[i]), "its date-time group")
		field(l, at, 2, joined(m.Recipients, "NIL"), "all its recipients")
		field(l, at, 3, m.From, "its sender")
		digest := m.PlainText
		if len(digest) > 35 {
			digest = append(h.Cp(digest[:34]), '…')
		}
		field(l, at, 4, digest, "the beginning of its text")
		sym.Assert(sameMessage(&k.Messages[i], m), "listing changes nothing")
	}
	sym.Reach("done")
}

// C43_Sent: of a message that was sent or deciphered the text is shown first;
// of one that can't be read, the cipher text.
func C43_Sent() {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("SA6MWA"))
	m := krypto431.Message{Id: []rune("abcd"), From: []rune("SM0A"), KeyId: []rune("KK")}
	m.DTG.Time = time.Date(2030, 1, 2, 3, 4, 0, 0, time.UTC)
	m.PlainText = h.Of([]rune("ABC"), "text", []int{0, 1, 10, 34, 35, 36}[sym.Choice("len", 6)])
	m.CipherText = h.Of([]rune("XYZ"), "cipher", []int{2, 20, 36, 40}[sym.Choice("cipherlen", 4)])
	m.SetInstance(&k)
	k.Messages = append(k.Messages, m)
	was := snapMessage(&k.Messages[0])
	header, lines := k.SummaryOfMessages(func(*krypto431.Message) bool { return true })
	sym.Assert(len(lines) == 1, "a line for each message")
	at := columns(header, "ID", "DTG", "TO", "DE", "DIGEST")
	line := lines[0]
	want := was.PlainText
	if len(want) == 0 {
		want = was.CipherText
	}
	if len(want) > 34 {
		want = want[:34]
	}
	sym.Assert(at[4]+len(want) <= len(line) && h.Same(line[at[4]:at[4]+len(want)], want), "the beginning of its text")
	sym.Assert(sameMessage(&k.Messages[0], &was), "listing changes nothing")
	sym.Reach("done")
}
