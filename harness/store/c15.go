package store

import (
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

// id3 is an arbitrary key ID of two letters out of a small alphabet.
func id2(name string) []rune {
	return []rune{[]rune("AB")[sym.Int(name, 0, 1)], []rune("XYZ")[sym.Int(name, 0, 2)]}
}

// asked is an ID to ask for: any length, any case.
func asked(name, al string, most int) []rune {
	return h.Of([]rune(al), name, sym.Choice(name+"len", most+1))
}

// distinct assumes that no two IDs are equal.
func distinct(ids [][]rune) {
	for i := range ids {
		for j := 0; j < i; j++ {
			sym.Assume(sym.Not(h.Same(ids[i], ids[j])))
		}
	}
}

// keyStore has n keys with distinct arbitrary IDs and arbitrary contents.
func keyStore(n int) *krypto431.Krypto431 {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("SA6MWA"))
	var ids [][]rune
	for i := 0; i < n; i++ {
		ids = append(ids, id2("id"))
	}
	distinct(ids)
	for i := 0; i < n; i++ {
		key := krypto431.Key{Id: ids[i], Runes: h.Letters("key", 2), Keepers: [][]rune{h.Letters("keeper", 2)}, Used: sym.Bool("used"), Compromised: sym.Bool("compromised"), Comment: h.Letters("comment", 1)}
		key.Created.Time = time.Unix(int64(1000+i), 0)
		key.Expires.Time = time.Unix(int64(2000+i), 0)
		key.SetInstance(&k)
		k.Keys = append(k.Keys, key)
	}
	return &k
}

func snaps(k *krypto431.Krypto431) []krypto431.Key {
	var out []krypto431.Key
	for i := range k.Keys {
		out = append(out, h.Snap(&k.Keys[i]))
	}
	return out
}

// b2i is 1 for true.
func b2i(b bool) int { return sym.IteInt(b, 1, 0) }

// kept checks that the keys of k are exactly those of was for which gone is
// false, n of them missing.
func kept(k *krypto431.Krypto431, was []krypto431.Key, gone []bool, n int) {
	missing := 0
	for i := range was {
		missing += b2i(gone[i])
		there := 0
		for j := range k.Keys {
			there += b2i(h.Equal(&k.Keys[j], &was[i]))
		}
		sym.Assert(there == b2i(sym.Not(gone[i])), "exactly the keys asked for are gone, the others keep their contents")
	}
	sym.Assert(len(k.Keys)+missing == len(was), "no key is added")
	sym.Assert(n == missing, "the number removed is returned")
}

func deleted(keys, ids int, byString bool) {
	k := keyStore(keys)
	was := snaps(k)
	var x [][]rune
	for n := sym.Choice("ids", ids+1); n > 0; n-- {
		x = append(x, asked("asked", "AaxXy1", 2))
	}
	var n int
	var err error
	if byString {
		var s []string
		for i := range x {
			s = append(s, string(x[i]))
		}
		n, err = k.DeleteKeyByString(s...)
	} else {
		n, err = k.DeleteKey(h.Cp2(x)...)
	}
	sym.Assert(err == nil, "no error")
	sym.Observe("n", n)
	gone := make([]bool, len(was))
	for i := range was {
		for j := range x {
			gone[i] = sym.Or(gone[i], h.Fold(was[i].Id, x[j]))
		}
	}
	kept(k, was, gone, n)
	if len(k.Keys)+2 == len(was) {
		sym.Reach("two deleted")
	}
}

func C15_Keys()         { deleted(3, 2, false) }
func C15_KeysByString() { deleted(3, 2, true) }

func sameMessage(a, b *krypto431.Message) bool {
	ok := sym.And(h.Same(a.Id, b.Id), h.Same2(a.Recipients, b.Recipients))
	ok = sym.And(ok, h.Same(a.From, b.From))
	ok = sym.And(ok, h.Same(a.KeyId, b.KeyId))
	ok = sym.And(ok, h.Same(a.PlainText, b.PlainText))
	ok = sym.And(ok, h.Same(a.CipherText, b.CipherText))
	ok = sym.And(ok, h.Same(a.Radiogram, b.Radiogram))
	ok = sym.And(ok, string(a.Binary) == string(b.Binary))
	return sym.And(ok, a.DTG.Time.Equal(b.DTG.Time))
}

func snapMessage(m *krypto431.Message) krypto431.Message {
	return krypto431.Message{Id: h.Cp(m.Id), Recipients: h.Cp2(m.Recipients), From: h.Cp(m.From), DTG: m.DTG, KeyId: h.Cp(m.KeyId), PlainText: h.Cp(m.PlainText), Binary: append([]byte(nil), m.Binary...), CipherText: h.Cp(m.CipherText), Radiogram: h.Cp(m.Radiogram)}
}

func messageStore(n int) *krypto431.Krypto431 {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("SA6MWA"))
	var ids [][]rune
	for i := 0; i < n; i++ {
		ids = append(ids, h.Of([]rune("Aa1"), "id", 2))
	}
	distinct(ids)
	for i := 0; i < n; i++ {
		m := krypto431.Message{Id: ids[i], Recipients: [][]rune{h.Letters("to", 1)}, From: h.Letters("from", 1), KeyId: h.Letters("key", 2), PlainText: h.Letters("plain", 2), CipherText: h.Letters("cipher", 2), Radiogram: h.Letters("radiogram", 2)}
		m.DTG.Time = time.Unix(int64(1000+i), 0)
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	return &k
}

func deletedMessages(messages, ids int, byString bool) {
	k := messageStore(messages)
	var was []krypto431.Message
	for i := range k.Messages {
		was = append(was, snapMessage(&k.Messages[i]))
	}
	var x [][]rune
	for n := sym.Choice("ids", ids+1); n > 0; n-- {
		x = append(x, asked("asked", "Aa1B", 2))
	}
	var n int
	var err error
	if byString {
		var s []string
		for i := range x {
			s = append(s, string(x[i]))
		}
		n, err = k.DeleteMessageByString(s...)
	} else {
		n, err = k.DeleteMessage(h.Cp2(x)...)
	}
	sym.Assert(err == nil, "no error")
	sym.Observe("n", n)
	missing := 0
	for i := range was {
		gone := false
		for j := range x {
			gone = sym.Or(gone, h.Same(was[i].Id, x[j]))
		}
		missing += b2i(gone)
		there := 0
		for j := range k.Messages {
			there += b2i(sameMessage(&k.Messages[j], &was[i]))
		}
		sym.Assert(there == b2i(sym.Not(gone)), "exactly the messages asked for are gone, the others keep their contents")
	}
	sym.Assert(len(k.Messages)+missing == len(was), "no message is added")
	sym.Assert(n == missing, "the number removed is returned")
	if len(k.Messages)+2 == len(was) {
		sym.Reach("two deleted")
	}
}

func C15_Messages()         { deletedMessages(3, 2, false) }
func C15_MessagesByString() { deletedMessages(3, 2, true) }
