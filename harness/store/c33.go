package store

import (
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

// begins tells whether line starts with id and a space.
func begins(line, id []rune) bool {
	if len(line) <= len(id) {
		return false
	}
	return sym.And(h.Same(line[:len(id)], id), line[len(id)] == ' ')
}

// text is arbitrary printable text of up to most characters.
func some(name string, most int) []rune {
	return h.Of([]rune("A,b 9å"), name, sym.Choice(name+"len", most+1))
}

func listedKeys(g, n, keepers int) {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithCallSign("SA6MWA"))
	var ids [][]rune
	for i := 0; i < n; i++ {
		ids = append(ids, h.Of([]rune("ABC"), "id", g))
	}
	distinct(ids)
	var pick []bool
	for i := 0; i < n; i++ {
		key := krypto431.Key{Id: ids[i], Runes: h.Letters("key", 2), Used: sym.Bool("used"), Compromised: sym.Bool("compromised"), Comment: some("comment", 2)}
		for j := sym.Choice("keepers", keepers+1); j > 0; j-- {
			key.Keepers = append(key.Keepers, some("keeper", 3))
		}
		key.Created.Time = time.Unix(int64(1000+i), 0).UTC()
		key.Expires.Time = time.Unix(int64(200000+i), 0).UTC()
		key.SetInstance(&k)
		k.Keys = append(k.Keys, key)
		pick = append(pick, sym.Fork(sym.Bool("selected")))
	}
	was := snaps(&k)
	_, lines := k.SummaryOfKeys(func(key *krypto431.Key) bool {
		for i := range k.Keys {
			if key == &k.Keys[i] {
				return pick[i]
			}
		}
		return false
	})
	y := 0
	var shown [][]rune
	for i := range was {
		if !pick[i] {
			continue
		}
		sym.Assert(y < len(lines) && begins(lines[y], was[i].Id), "a line for each selected key, in order, with the complete ID first")
		shown = append(shown, was[i].Id)
		y++
	}
	sym.Assert(len(lines) == y, "a line for nothing else")
	for i := range was {
		sym.Assert(h.Equal(&k.Keys[i], &was[i]), "listing changes nothing")
	}
	var picked []string
	gone := make([]bool, len(was))
	for i := range lines {
		if sym.Fork(sym.Bool("delete")) {
			picked = append(picked, string(lines[i]))
			for j := range was {
				gone[j] = sym.Or(gone[j], h.Same(was[j].Id, shown[i]))
			}
		}
	}
	d, err := k.DeleteKeysBySummaryString(picked...)
	sym.Assert(err == nil, "no error")
	kept(&k, was, gone, d)
	if d == 2 {
		sym.Reach("two deleted")
	}
}

func C33_Keys()      { listedKeys(2, 2, 1) }
func C33_ThreeKeys() { listedKeys(1+sym.Choice("g", 5), 3, 0) }

func listedMessages(n, idlen int, rich bool, plain func() []rune) {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("SA6MWA"))
	var ids [][]rune
	for i := 0; i < n; i++ {
		ids = append(ids, h.Of([]rune("Aa1"), "id", idlen))
	}
	distinct(ids)
	k.Keys = append(k.Keys, krypto431.Key{Id: []rune("AB"), Runes: []rune("QWERTYUI")})
	var pick []bool
	for i := 0; i < n; i++ {
		m := krypto431.Message{Id: ids[i], From: []rune("SM0A"), PlainText: plain()}
		if rich {
			m.From = some("from", 2)
			if sym.Choice("to", 2) == 1 {
				m.Recipients = append(m.Recipients, h.Of([]rune("A/1"), "to", 3))
			}
		}
		m.DTG.Time = time.Unix(int64(1000+i), 0).UTC()
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
		pick = append(pick, sym.Fork(sym.Bool("selected")))
	}
	_, lines := k.SummaryOfMessages(func(m *krypto431.Message) bool {
		for i := range k.Messages {
			if m == &k.Messages[i] {
				return pick[i]
			}
		}
		return false
	})
	y := 0
	var shown [][]rune
	for i := range ids {
		if !pick[i] {
			continue
		}
		sym.Assert(y < len(lines) && begins(lines[y], ids[i]), "a line for each selected message, in order, with the complete ID first")
		shown = append(shown, ids[i])
		y++
	}
	sym.Assert(len(lines) == y, "a line for nothing else")
	// whatever listing deciphered stays with its message
	var was []krypto431.Message
	sym.Assert(len(k.Messages) == n, "no message is lost")
	for i := range k.Messages {
		sym.Assert(h.Same(k.Messages[i].Id, ids[i]), "listing keeps the IDs")
		was = append(was, snapMessage(&k.Messages[i]))
	}
	var picked []string
	gone := make([]bool, n)
	for i := range lines {
		if sym.Fork(sym.Bool("delete")) {
			picked = append(picked, string(lines[i]))
			for j := range was {
				gone[j] = sym.Or(gone[j], h.Same(was[j].Id, shown[i]))
			}
		}
	}
	d, err := k.DeleteMessagesBySummaryString(picked...)
	sym.Assert(err == nil, "no error")
	missing := 0
	for i := range was {
		missing += b2i(gone[i])
		there := 0
		for j := range k.Messages {
			there += b2i(sameMessage(&k.Messages[j], &was[i]))
		}
		sym.Assert(there == b2i(sym.Not(gone[i])), "exactly the messages shown are gone, the others keep their contents")
	}
	sym.Assert(len(k.Messages)+missing == n && d == missing, "nothing is added, the number is returned")
	if d == 2 {
		sym.Reach("two deleted")
	}
}

func C33_Messages() { listedMessages(2, 4, true, func() []rune { return []rune("HELLO") }) }
func C33_Received() {
	listedMessages(2, 4, false, func() []rune {
		return []rune([]string{"AB CD", "AB CDEF", "AB CDEFGHIJKLMN", "hej"}[sym.Choice("plain", 4)])
	})
}
