package store

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

const any32 = 1 << 40

func C34_Settings() {
	g, l, c, kc := sym.Int("group", -any32, any32), sym.Int("length", -any32, any32), sym.Int("columns", -any32, any32), sym.Int("key-columns", -any32, any32)
	name := []string{"", "x", "~/.krypto431.gob"}[sym.Choice("name", 3)]
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithKeyLength(l), krypto431.WithColumns(c), krypto431.WithKeyColumns(kc), krypto431.WithPersistence(name))
	got := k.Assert() == nil
	sym.ObserveBool("ok", got)
	want := sym.And(sym.And(g >= 1, l >= 20), sym.And(c >= 85, kc >= g))
	sym.Assert(got == sym.And(name != "", want), "accepted exactly when usable")
	sym.Assert(k.GroupSize == g && k.KeyLength == l && k.Columns == c && k.KeyColumns == kc && k.GetPersistence() == name, "settings are kept as given")
	if got {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

func C34_Default() {
	k := krypto431.New(krypto431.WithCallSign("SA6MWA"))
	sym.Assert(k.Assert() == nil, "the defaults are usable")
	sym.Assert(k.CallSignString() == "SA6MWA", "the call-sign is set")
	sym.Reach("done")
}

func callSign(al string, n int) {
	k := krypto431.New(krypto431.WithCallSign("SA6MWA"))
	in := h.Of([]rune(al), "char", sym.Choice("len", n+1))
	err := k.SetCallSign(string(in))
	sym.ObserveBool("err", err != nil)
	// trim, by position
	a, b := 0, len(in)
	for a < b && (in[a] == ' ' || in[a] == '\t' || in[a] == '\n') {
		a++
	}
	for b > a && (in[b-1] == ' ' || in[b-1] == '\t' || in[b-1] == '\n') {
		b--
	}
	want := in[a:b]
	if len(want) < 2 {
		sym.Reach("refused")
		sym.Assert(err != nil, "a call-sign of less than two characters is refused")
		sym.Assert(k.CallSignString() == "SA6MWA", "the previous call-sign stays")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil, "accepted")
	sym.Assert(len(k.CallSign) == len(want), "the call-sign, trimmed")
	for i := range want {
		up := sym.IteRune(want[i] == 'å', 'Å', h.Up(want[i]))
		sym.Assert(k.CallSign[i] == up, "in upper case")
	}
	sym.Assert(h.Same(k.GetCallSign(), k.CallSign), "the call-sign is reported")
}

func C34_CallSign() { callSign("aZ1/ \t", 4) }
func C34_Swedish()  { callSign("aå ", 3) }
