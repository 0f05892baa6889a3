package radio

import (
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

// station makes an instance with keys of the given letters.
func station(call string, g int, keys []krypto431.Key) *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithKeyLength(len(keys[0].Runes)), krypto431.WithCallSign(call))
	for i := range keys {
		x := krypto431.Key{Id: h.Cp(keys[i].Id), Runes: h.Cp(keys[i].Runes), Keepers: h.Cp2(keys[i].Keepers)}
		x.SetInstance(&k)
		k.Keys = append(k.Keys, x)
	}
	return &k
}

// traffic is what a printed message gives as traffic.
func traffic(out string) string {
	i := strings.Index(out, "=TRAFFIC=EXAMPLE=\n")
	if i < 0 {
		i = strings.Index(out, "=TRAFFIC=EXAMPLE=\r\n")
	}
	sym.Assert(i >= 0, "the message is printed with its traffic")
	return out[strings.Index(out[i:], "\n")+i+1:]
}

// exchange sends a message from one station to another the way it is printed.
func exchange(g int, keys []krypto431.Key, to []string, from, dtg, text string, width ...int) {
	a, b := station("Own/1", g, keys), station("OTHER", g, keys)
	rg := from
	for i := len(to) - 1; i >= 0; i-- {
		rg = to[i] + " " + rg
	}
	if dtg != "" {
		rg += " " + dtg
	}
	m, err := a.NewTextMessage(rg + " = " + text + " = K")
	sym.Assert(err == nil && len(a.Messages) == 1, "the message is enciphered")
	if err != nil {
		return
	}
	sent := cpMsg(&a.Messages[0])
	out := m.String(width...)
	sym.ObserveString("cipher", string(sent.CipherText))
	r, err := b.NewTextMessage(traffic(out))
	sym.Assert(err == nil && r != nil && len(b.Messages) == 1, "the traffic is received")
	if r == nil {
		return
	}
	got := &b.Messages[0]
	if len(sent.Recipients) == 0 {
		sent.Recipients = [][]rune{[]rune("OTHER")} // to whom it may concern
	}
	sym.Assert(h.Same2(got.Recipients, sent.Recipients), "the recipients")
	sym.Assert(h.Same(got.From, sent.From), "the sender")
	sym.Assert(got.DTG.Time.Unix()/60 == sent.DTG.Time.Unix()/60, "the date-time group")
	sym.Assert(h.Same(got.KeyId, sent.KeyId), "the key")
	sym.Assert(h.Same(got.CipherText, sent.CipherText), "the cipher text")
	sym.Assert(h.Same(got.PlainText, sent.PlainText), "the plain text is that of the sender")
	sym.Assert(h.Same(got.PlainText, []rune(text)), "the plain text is what was written")
	for i := range a.Keys {
		sym.Assert(a.Keys[i].Used == b.Keys[i].Used, "both stations have used the same keys")
	}
	sym.Reach("exchanged")
}

// plain is arbitrary text of the first character table.
func plain(n int) string { return string(h.Of([]rune("ABCDEFGHIJKLMNOP"), "text", n)) }

// key gives n letters, arbitrary ones from at on.
func key(n, at, free int) (out []rune) {
	for len(out) < n {
		out = append(out, []rune("QDEKWERTYUIOPASDFGHJKLZXCVBNM")...)
	}
	copy(out[at:], h.Letters("key", free))
	return out[:n]
}

func ids(g int) (out [][]rune) {
	for _, s := range []string{"DEKXY", "KEDAB", "ZDEFG"} {
		out = append(out, []rune(s)[:g])
	}
	return
}

// C40_Header: any recipients, sender and date-time group.
func C40_Header() {
	begin()
	g := []int{2, 3, 5}[sym.Choice("group size", 3)]
	keys := []krypto431.Key{{Id: ids(g)[0], Runes: key(20, g, 2)}}
	var to []string
	for i, n := 0, []int{0, 1, 3}[sym.Choice("recipients", 3)]; i < n; i++ {
		to = append(to, word("RSTUVWXY", "to", 1)+"B/7p"[i:])
		keys[0].Keepers = append(keys[0].Keepers, upper(to[i]))
	}
	exchange(g, keys, to, "de own/1", dtgs[sym.Choice("dtg", len(dtgs))].s, plain(1)+"qT")
}

// C40_Wrapped: traffic of several lines.
func C40_Wrapped() {
	begin()
	g := []int{2, 4, 5, 6}[sym.Choice("group size", 4)]
	n := []int{10, 60, 90}[sym.Choice("length", 3)]
	at := []int{0, 1, n / 2, n}[sym.Choice("arbitrary letters", 4)]
	keys := []krypto431.Key{{Id: []rune("DEKXYZ")[:g], Runes: key(110, at/g*g, 2)}}
	w := [][]int{nil, {80}, {100}}[sym.Choice("width", 3)]
	exchange(g, keys, nil, "DE OWN/1", dtgs[2].s, plain(1)+strings.Repeat("HELLOWORLD", 9)[:n-2]+plain(1), w...)
}

// C40_Changed: messages longer than one key.
func C40_Changed() {
	begin()
	g := []int{3, 5}[sym.Choice("group size", 2)]
	var keys []krypto431.Key
	for _, id := range ids(g) {
		keys = append(keys, krypto431.Key{Id: id, Runes: key(24, 2*g, 1)})
	}
	exchange(g, keys, nil, "DE OWN/1", dtgs[2].s, plain(1)+strings.Repeat("HELLOWORLD", 9)[:[]int{16, 24, 28}[sym.Choice("length", 3)]]+plain(1))
}

// C40_Text: texts with all that can be enciphered in a word.
func C40_Text() {
	begin()
	keys := []krypto431.Key{{Id: []rune("ABCDE"), Runes: key(40, 5, 2)}}
	t := plain(1)
	for i := 0; i < 2; i++ {
		t += []string{"Q", word("abcdefghijklmnop", "text", 1), word("0123456789", "text", 1), "Å", "ö", " ", "?", ",", "/", ":", "+", "-", "."}[sym.Choice("kind", 13)]
	}
	exchange(5, keys, nil, "DE OWN/1", dtgs[2].s, t+plain(1))
}
