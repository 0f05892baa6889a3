package store

import (
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/sym"
)

func letter(r rune) bool { return sym.And(r >= 'A', r <= 'Z') }

func letters(rs []rune) bool {
	ok := true
	for _, r := range rs {
		ok = sym.And(ok, letter(r))
	}
	return ok
}

// fresh checks the keys of k from index n on.
func fresh(k *krypto431.Krypto431, n int, want [][]rune, from, to time.Time) {
	length := (k.KeyLength + k.GroupSize - 1) / k.GroupSize * k.GroupSize
	for i := n; i < len(k.Keys); i++ {
		key := &k.Keys[i]
		sym.Assert(!key.Used && !key.Compromised, "unused and uncompromised")
		sym.Assert(len(key.Id) == k.GroupSize && letters(key.Id), "an ID of group-size letters A-Z")
		for j := 0; j < i; j++ {
			sym.Assert(sym.Not(h.Same(key.Id, k.Keys[j].Id)), "an ID different from every other")
		}
		sym.Assert(len(key.Runes) == length, "as many letters as the key length rounded up to whole groups")
		sym.Assert(letters(key.Runes), "letters A-Z only")
		sym.Assert(!key.Expires.Time.Before(from) && !key.Expires.Time.After(to), "the given expiry")
		sym.Assert(key.GetInstance() == k, "the key belongs to the instance")
		sym.Assert(sym.Not(h.In(k.CallSign, key.Keepers)), "the own call-sign is no keeper")
		for _, w := range want {
			sym.Assert(sym.Or(h.Has(w, key.Keepers), h.Same(w, k.CallSign)), "the given keepers in upper case")
		}
		for _, x := range key.Keepers {
			sym.Assert(h.Has(x, want), "no other keeper")
		}
	}
}

func olds(k *krypto431.Krypto431, n int) {
	var ids [][]rune
	for i := 0; i < n; i++ {
		ids = append(ids, h.Letters("oldid", k.GroupSize))
	}
	distinct(ids)
	for i := range ids {
		key := krypto431.Key{Id: ids[i], Runes: h.Letters("old", 3), Keepers: [][]rune{h.Letters("oldkeeper", 2)}, Used: sym.Bool("used"), Compromised: sym.Bool("compromised")}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
}

func generates(g, length, old, n, draws int, keepers []string, want [][]rune) {
	rnd.UseSome(draws)
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithKeyLength(length), krypto431.WithCallSign("AB"))
	olds(&k, old)
	was := snaps(&k)
	a := time.Now().Add(365 * 24 * time.Hour)
	err := k.GenerateKeys(n, nil, keepers...)
	b := time.Now().Add(365 * 24 * time.Hour)
	sym.Assert(err == nil, "no error")
	sym.Assert(len(k.Keys) == old+n, "exactly n keys are added")
	for i := range was {
		sym.Assert(h.Equal(&k.Keys[i], &was[i]), "existing keys are unchanged")
	}
	for i := old; i < len(k.Keys); i++ {
		sym.ObserveRunes("id", k.Keys[i].Id)
		sym.ObserveRunes("key", k.Keys[i].Runes)
	}
	fresh(&k, old, want, a, b)
	sym.Reach("done")
}

// IDs that collide: up to two of the arbitrary draws.
func C12_Collide() { generates(1, 2, 1+sym.Choice("old", 2), 2, 4, nil, nil) }

// Arbitrary letters throughout, other group sizes and key lengths.
func C12_Letters() {
	g := 1 + sym.Choice("group", 6)
	l := 1 + sym.Choice("length", 9)
	generates(g, l, 1, 1, g+l+g, nil, nil)
}

func C12_Several() { generates(2, 5, 1, sym.Choice("n", 4), 7, nil, nil) }

func C12_Keepers() {
	var in []string
	var want [][]rune
	for i := sym.Choice("keepers", 3); i > 0; i-- {
		x := h.Of([]rune("abB"), "keeper", 2)
		y := h.Of([]rune("abB"), "keeper", 2)
		in = append(in, string(x)+[]string{",", " ", ", "}[sym.Choice("sep", 3)]+string(y))
		want = append(want, []rune{h.Up(x[0]), h.Up(x[1])}, []rune{h.Up(y[0]), h.Up(y[1])})
	}
	generates(2, 2, 0, 1, 0, in, want)
}

// Keepers one by one: a single one may be the own call-sign.
func C12_Keeper() {
	var in []string
	var want [][]rune
	for i := 1 + sym.Choice("keepers", 3); i > 0; i-- {
		x := h.Of([]rune("abB"), "keeper", 2)
		in = append(in, []string{"", " "}[sym.Choice("before", 2)]+string(x))
		want = append(want, []rune{h.Up(x[0]), h.Up(x[1])})
	}
	generates(2, 2, 0, 1, 0, in, want)
}

// The expiry given as a date-time group or as a time.
func C12_Expiry() {
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithKeyLength(4), krypto431.WithCallSign("AB"))
	s := []string{"010203ZJAN30", "311259ADEC24", "x", "", "991259ZDEC24", "290000ZFEB24"}[sym.Choice("expiry", 6)]
	d, perr := dtg.Parse(s)
	err := k.GenerateKeys(2, &s)
	sym.ObserveBool("err", err != nil)
	if perr != nil {
		sym.Reach("refused")
		sym.Assert(err != nil && len(k.Keys) == 0, "no key is made with an expiry that is none")
	} else {
		sym.Reach("generated")
		sym.Assert(err == nil && len(k.Keys) == 2, "keys are made")
		fresh(&k, 0, nil, d.Time, d.Time)
	}
	n := len(k.Keys)
	t := time.Unix(int64(sym.Int("t", 0, 1<<40)), 0)
	key := k.NewKey(t, "SM0A")
	sym.Assert(len(k.Keys) == n+1, "one key is added")
	sym.Assert(h.Equal(key, &k.Keys[n]), "the new key is returned")
	fresh(&k, n, [][]rune{[]rune("SM0A")}, t, t)
}

// Message IDs are fresh alphanumerics of four characters.
func C12_Default() {
	rnd.UseSome(3)
	k := krypto431.New(krypto431.WithCallSign("SA6MWA"))
	key := k.NewKey(time.Now())
	sym.Assert(len(key.Runes) == 350 && len(key.Id) == 5, "the default key")
	fresh(&k, 0, nil, key.Expires.Time, key.Expires.Time)
	sym.Reach("done")
}
