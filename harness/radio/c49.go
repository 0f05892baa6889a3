package radio

import (
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

func alnum(r rune) bool {
	return sym.Or(sym.And(r >= 'A', r <= 'Z'), sym.Or(sym.And(r >= 'a', r <= 'z'), sym.And(r >= '0', r <= '9')))
}

// fit: four characters that need no quoting, and no other message's.
func fit(id []rune, others [][]rune) {
	sym.ObserveRunes("id", id)
	sym.Assert(len(id) == 4, "four characters")
	for _, r := range id {
		sym.Assert(alnum(r), "letters and digits only")
	}
	for _, o := range others {
		sym.Assert(sym.Not(h.Same(id, o)), "no other message has it")
	}
}

// among is an instance with n messages of arbitrary IDs of letters.
func among(n int) (*krypto431.Krypto431, [][]rune) {
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithKeyLength(8), krypto431.WithCallSign("OWN"))
	var ids [][]rune
	for i := 0; i < n; i++ {
		m := krypto431.Message{Id: h.Letters("old", 4), PlainText: []rune("TEXT")}
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
		ids = append(ids, h.Cp(m.Id))
	}
	return &k, ids
}

func kept(k *krypto431.Krypto431, ids [][]rune) {
	sym.Assert(len(k.Messages) >= len(ids), "no message is lost")
	for i := range ids {
		sym.Assert(h.Same(k.Messages[i].Id, ids[i]), "messages keep their IDs")
	}
}

// An ID as drawn, and drawn again while another message has it.
func C49_Fresh() {
	rnd.UseSome(4 * (1 + sym.Choice("collisions", 2)))
	k, ids := among(sym.Choice("old", 4))
	id := k.NewUniqueMessageId()
	fit(id, ids)
	kept(k, ids)
	again := k.NewUniqueMessageId()
	fit(again, ids)
	sym.Reach("done")
}

// An ID is told from others exactly, in case too.
func C49_Contains() {
	rnd.UseFixed()
	k := krypto431.New()
	var ids [][]rune
	for i := sym.Choice("old", 4); i > 0; i-- {
		m := krypto431.Message{Id: h.Of([]rune("aAbB1"), "old", 4)}
		k.Messages = append(k.Messages, m)
		ids = append(ids, m.Id)
	}
	x := h.Of([]rune("aAbB1"), "id", 3+sym.Choice("longer", 3))
	was := h.Cp(x)
	sym.Assert(sym.Iff(k.ContainsMessageId(&x), h.Has(x, ids)), "contained exactly if a message has it")
	sym.Assert(h.Same(x, was), "the ID asked for is left alone")
	sym.Assert(!k.ContainsMessageId(nil), "none is no ID")
	sym.Reach("done")
}

// Whatever is done with a message, it keeps its ID, or gets a fresh one if it
// had none - whether or not that works.
func C49_Kept() {
	begin()
	k, ids := among(2)
	rnd.UseSome(4)
	for i := 0; i < 2; i++ {
		x := krypto431.Key{Id: []rune{'K', 'A' + rune(i)}, Runes: keyRunes("key", 8), Used: i == 0 && sym.Choice("used", 2) == 1}
		x.SetInstance(k)
		k.Keys = append(k.Keys, x)
	}
	m := krypto431.Message{PlainText: []rune([]string{"", "AB", "KAKBAA", "ABÅ"}[sym.Choice("text", 4)]),
		DTG: dtg.DTG{Time: time.Unix(1700000000, 0).UTC()}}
	if sym.Choice("has", 2) == 1 {
		m.Id = []rune{'x', sym.Rune("second", 'A', 'z'), '3', '4'}
	}
	if sym.Choice("key", 2) == 1 {
		m.KeyId = []rune{'K', 'A'}
	}
	if sym.Choice("cipher", 2) == 1 {
		m.CipherText = []rune("AABBCC")
	}
	m.SetInstance(k)
	had := h.Cp(m.Id)
	var err error
	switch sym.Choice("what", 4) {
	case 0:
		err = m.Encipher()
	case 1:
		err = m.Decipher()
	case 2:
		err = m.TryDecipherPlainText()
	case 3:
		err = m.EnrichWithKey()
	}
	sym.ObserveBool("failed", err != nil)
	if err != nil {
		sym.Reach("failed")
	} else {
		sym.Reach("done")
	}
	if len(had) > 0 {
		sym.Reach("had")
		sym.Assert(h.Same(m.Id, had), "it keeps its ID")
	} else {
		sym.Reach("hadnot")
		fit(m.Id, ids)
	}
	kept(k, ids)
}

// A message entered gets an ID of its own; its copy keeps it.
func C49_Entered() {
	begin()
	k := store(1, 8, false)
	rnd.UseSome(2)
	var ids [][]rune
	for i := range k.Messages {
		k.Messages[i].Id = h.Letters("old", 4)
		ids = append(ids, h.Cp(k.Messages[i].Id))
	}
	_, err := k.NewTextMessage([]string{"RR DE OWN 010203Z 2 = AB =", "OWN DE SM0AB 010203Z 3 = KA AB CD ="}[sym.Choice("text", 2)])
	sym.ObserveBool("failed", err != nil)
	if err == nil {
		sym.Reach("stored")
		sym.Assert(len(k.Messages) == 3, "one message")
		fit(k.Messages[2].Id, ids)
	}
	kept(k, ids)
}
