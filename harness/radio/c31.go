package radio

import (
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

func keyRunes(name string, n int) []rune { return h.Letters(name, n) }

// store makes an instance with keys of arbitrary letters and marks and two
// stored messages.
func store(keys, length int, keepers bool) *krypto431.Krypto431 {
	begin()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithKeyLength(length), krypto431.WithCallSign("OWN"))
	for i := 0; i < keys; i++ {
		x := krypto431.Key{Id: []rune{'K', 'A' + rune(i)}, Runes: keyRunes("key", length),
			Used: sym.Fork(sym.Bool("used")), Compromised: keepers && sym.Fork(sym.Bool("compromised"))}
		if keepers && i == 1 && sym.Choice("keeper", 2) == 1 {
			x.Keepers = [][]rune{[]rune("QQ")}
		}
		x.SetInstance(&k)
		k.Keys = append(k.Keys, x)
	}
	for i := 0; i < 2; i++ {
		m := krypto431.Message{Id: []rune{'m', 's', 'g', '1' + rune(i)}, From: h.Letters("from", 2), PlainText: h.Letters("stored", 2),
			DTG: dtg.DTG{Time: time.Unix(1700000000, 0).UTC()}}
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	return &k
}

// shot remembers a store.
type shot struct {
	keys     []krypto431.Key
	messages []krypto431.Message
}

func cpMsg(m *krypto431.Message) krypto431.Message {
	return krypto431.Message{Id: h.Cp(m.Id), Recipients: h.Cp2(m.Recipients), From: h.Cp(m.From), DTG: m.DTG, PlainText: h.Cp(m.PlainText),
		KeyId: h.Cp(m.KeyId), CipherText: h.Cp(m.CipherText), Radiogram: h.Cp(m.Radiogram)}
}

func sameMsg(a, b *krypto431.Message) bool {
	ok := sym.And(h.Same(a.Id, b.Id), h.Same(a.PlainText, b.PlainText))
	ok = sym.And(ok, sym.And(h.Same(a.From, b.From), h.Same2(a.Recipients, b.Recipients)))
	ok = sym.And(ok, sym.And(h.Same(a.KeyId, b.KeyId), h.Same(a.CipherText, b.CipherText)))
	return sym.And(ok, sym.And(h.Same(a.Radiogram, b.Radiogram), a.DTG.Time.Equal(b.DTG.Time)))
}

func take(k *krypto431.Krypto431) *shot {
	var s shot
	for i := range k.Keys {
		s.keys = append(s.keys, h.Snap(&k.Keys[i]))
	}
	for i := range k.Messages {
		s.messages = append(s.messages, cpMsg(&k.Messages[i]))
	}
	return &s
}

// kept: the messages that were there, and all keys but for their used marks.
func (s *shot) kept(k *krypto431.Krypto431) {
	sym.Assert(len(k.Keys) == len(s.keys), "as many keys")
	for i := range s.keys {
		x := h.Snap(&s.keys[i])
		x.Used = k.Keys[i].Used
		sym.Assert(h.Equal(&x, &k.Keys[i]), "the keys keep their contents")
		sym.Assert(k.Keys[i].Used || !s.keys[i].Used, "used keys stay used")
	}
	for i := range s.messages {
		sym.Assert(i < len(k.Messages) && sameMsg(&s.messages[i], &k.Messages[i]), "the messages that were there")
	}
}

func (s *shot) unchanged(k *krypto431.Krypto431) {
	s.kept(k)
	sym.Assert(len(k.Messages) == len(s.messages), "no message is added")
	for i := range s.keys {
		sym.Assert(k.Keys[i].Used == s.keys[i].Used, "no key is marked")
	}
}

// added is the one new message.
func (s *shot) added(k *krypto431.Krypto431, m *krypto431.Message) *krypto431.Message {
	s.kept(k)
	sym.Assert(len(k.Messages) == len(s.messages)+1, "exactly one message is added")
	n := &k.Messages[len(k.Messages)-1]
	sym.Assert(m != nil && sameMsg(n, m), "the stored message is the one returned")
	sym.Assert(n.GetInstance() == k, "it belongs to the instance")
	sym.Assert(len(n.Id) == 4, "it has an ID")
	for i := range s.messages {
		sym.Assert(sym.Not(h.Same(n.Id, s.messages[i].Id)), "an ID no other message has")
	}
	return n
}

// other is another station with the same keys.
func (s *shot) other() *krypto431.Krypto431 {
	o := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithKeyLength(len(s.keys[0].Runes)), krypto431.WithCallSign("OTHER"))
	for i := range s.keys {
		o.Keys = append(o.Keys, h.Snap(&s.keys[i]))
	}
	return &o
}

// C31_Outgoing: a message sent by the own call-sign.
func C31_Outgoing() {
	k := store(2, 14, true)
	to := [][]rune{nil, []rune("QQ")}[sym.Choice("to", 2)]
	text := word(az, "text", 2) + []string{"", " é"}[sym.Choice("unencodable", 2)]
	rg := "DE " + []string{"OWN", "own"}[sym.Choice("from", 2)] + " = " + text + " = K"
	if to != nil {
		rg = "qq " + rg
	}
	s := take(k)
	var m *krypto431.Message
	var err error
	named := sym.Choice("key", 5)
	if named == 0 {
		m, err = k.NewTextMessage(rg)
	} else {
		m, err = k.NewTextMessage(rg, []string{"", "KA", " kb", "KZ", "K"}[named])
	}
	sym.ObserveBool("err", err != nil)
	free := func(x *krypto431.Key) bool { return !x.Used && !x.Compromised }
	if err != nil {
		s.unchanged(k)
		for i := range s.keys {
			x := &s.keys[i]
			suits := free(x) && (named == i+1 || named == 0 && (to == nil && len(x.Keepers) == 0 || to != nil && len(x.Keepers) == 1))
			sym.Assert(len(text) > 2 || !suits, "succeeds with a suitable key")
		}
		sym.Reach("failed")
		return
	}
	n := s.added(k, m)
	sym.Assert(string(n.From) == "OWN" && h.Same2(n.Recipients, cp2(to)), "from and to")
	sym.Assert(h.Same(n.PlainText, []rune(text)), "the text")
	at := -1
	for i := range s.keys {
		if h.Same(n.KeyId, s.keys[i].Id) {
			at = i
		}
	}
	sym.Assert(at >= 0 && (named == 0 || at == named-1), "enciphered with the key named, or one of the store")
	sym.Assert(free(&s.keys[at]), "which was free")
	for i := range s.keys {
		sym.Assert(k.Keys[i].Used == (s.keys[i].Used || i == at), "exactly that key is marked")
	}
	o := s.other()
	r := krypto431.Message{Id: []rune("rcvd"), KeyId: h.Cp(n.KeyId), CipherText: h.Cp(n.CipherText)}
	r.SetInstance(o)
	sym.Assert(len(n.CipherText) > 0 && r.Decipher() == nil, "another station can decipher it")
	sym.Assert(h.Same(r.PlainText, []rune(text)), "to the text")
	sym.Reach("sent")
}

func cp2(r []rune) [][]rune {
	if r == nil {
		return nil
	}
	return [][]rune{r}
}

// C31_Incoming: a message sent by another station.
func C31_Incoming() {
	k := store(2, 14, false)
	to := sym.Choice("to", 2)
	if to == 1 && sym.Choice("one", 2) == 1 {
		to = 2
	}
	text := []string{"KA ", "kb ", "KZ ", ""}[sym.Choice("group", 4)] + word(az, "text", []int{0, 2, 3, 4}[sym.Choice("length", 4)])
	rg := "DE QQ = " + text
	if to == 1 {
		rg = "XX, YY " + rg
	}
	if to == 2 {
		rg = "XX " + rg
	}
	for len(text) > 0 && text[len(text)-1] == ' ' {
		text = text[:len(text)-1]
	}
	s := take(k)
	var m *krypto431.Message
	var err error
	if sym.Choice("key", 2) == 0 {
		m, err = k.NewTextMessage(rg)
	} else {
		m, err = k.NewTextMessage(rg, "KA") // has no meaning
	}
	sym.Assert(err == nil, "an incoming message is always stored")
	n := s.added(k, m)
	sym.Assert(string(n.From) == "QQ", "the sender")
	if to == 1 {
		sym.Assert(len(n.Recipients) == 2 && string(n.Recipients[0]) == "XX" && string(n.Recipients[1]) == "YY", "the recipients")
	} else if to == 2 {
		sym.Assert(len(n.Recipients) == 1 && string(n.Recipients[0]) == "XX", "the recipient")
	} else {
		sym.Assert(len(n.Recipients) == 1 && string(n.Recipients[0]) == "OWN", "to the own station")
	}
	// what another station with the same keys makes of the text
	o := s.other()
	var found []rune
	for _, c := range upper(text) {
		if c != ' ' {
			found = append(found, c)
		}
	}
	r := krypto431.Message{Id: []rune("rcvd")}
	r.SetInstance(o)
	if len(found) >= 4 {
		r.KeyId, r.CipherText = found[:2], found[2:]
	}
	if len(found) >= 4 && r.Decipher() == nil {
		sym.Assert(len(n.KeyId) == 2 && h.Same(n.KeyId, upper(text[:2])), "the key named by the first group")
		sym.Assert(h.Same(n.PlainText, r.PlainText) && h.Same(n.CipherText, r.CipherText), "deciphered")
		for i := range s.keys {
			sym.Assert(k.Keys[i].Used == o.Keys[i].Used, "the same keys marked")
		}
		sym.Reach("deciphered")
		return
	}
	sym.Assert(h.Same(n.PlainText, []rune(text)) && len(n.KeyId) == 0 && len(n.CipherText) == 0, "kept as received")
	for i := range s.keys {
		sym.Assert(k.Keys[i].Used == s.keys[i].Used, "no key is marked")
	}
	sym.Reach("as received")
}

// C31_Refused: what is no radiogram changes nothing.
func C31_Refused() {
	k := store(1, 5, false)
	s := take(k)
	var m *krypto431.Message
	var err error
	if sym.Choice("none", 2) == 0 {
		m, err = k.NewTextMessage([]string{"", "QQ", "DE", "= K", "QQ DE = TEXT", "DE QQ 322345 = TEXT"}[sym.Choice("text", 6)])
	} else {
		m, err = k.NewTextMessage()
	}
	sym.Assert(m == nil && err != nil, "refused")
	s.unchanged(k)
	sym.Reach("refused")
}

// C31_Id: no two messages get the same ID, whatever the random source returns.
func C31_Id() {
	k := store(0, 20, false)
	for i := range k.Messages {
		k.Messages[i].Id = h.Of([]rune("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"), "id", 4)
	}
	s := take(k)
	for i := 0; i < 2; i++ {
		m, err := k.NewTextMessage("DE QQ = TEXT")
		sym.Assert(err == nil, "stored")
		n := s.added(k, m)
		s = take(k)
		_ = n
	}
	sym.Reach("stored")
}
