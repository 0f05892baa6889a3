package cmd

import (
	"strings"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/sym"
)

// enter runs the command that enters a message under a plan and returns what
// was printed.
func enter(text string, prompt bool, p faultos.Plan, more ...string) (code int, died bool, out, failed string) {
	if prompt {
		faultos.Terminal(true)
		survey.Answer = func(p lib.Prompt, response any) error {
			*response.(*string) = text
			return nil
		}
	} else {
		faultos.Type(text)
	}
	faultos.Stdout.Clear()
	faultos.Arm(p)
	code, died = start(append([]string{"messages", "-n"}, more...)...)
	out, failed = faultos.Printed(), faultos.Failed()
	faultos.Disarm()
	return
}

// shown tells which keys' cipher text is in a print-out.
func shown(out string, ciphers []string) (n int) {
	out = strings.Join(strings.Fields(out), " ")
	for i, c := range ciphers {
		if strings.Contains(out, c) {
			n |= 1 << i
		}
	}
	return
}

// C42_Shown: cipher text that was shown has its keys marked in the store,
// wherever the command fails or dies, and the next message uses other keys.
func C42_Shown() { shownMarked(false) }

// C42_Two: the same for a message over two keys.
func C42_Two() { shownMarked(true) }

func shownMarked(two bool) {
	begin()
	k := open()
	k.KeyLength = 20
	letters := []string{"ABCDEFGHIJKLMNOPQRST", "QWERTYUIOPASDFGHJKLZ", "MNBVCXZLKJHGFDSAPOIU", "EDCRFVTGBYHNUJMIKOLP"}
	for i, id := range []string{"KA", "KB", "KC", "KD"} {
		marked := i < 2 && !two && sym.Fork(sym.Bool("marked"))
		addKey(k, id, marked && i == 0, marked && i == 1, 3, []rune("QQ"))
		k.Keys[i].Runes = []rune(letters[i])
	}
	sym.Assert(k.Save() == nil, "saves")
	text := "HELLO"
	if two {
		text = "HELLO HELLO HELLO HELLO"
	}
	// the cipher text that each key gives for the beginning of the text
	var ciphers []string
	for i := range k.Keys {
		ref := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("OP"))
		ref.Keys = []krypto431.Key{h.Snap(&k.Keys[i])}
		ref.Keys[0].Used, ref.Keys[0].Compromised = false, false
		ref.Keys[0].SetInstance(&ref)
		m := krypto431.Message{PlainText: []rune("HELLO"), KeyId: h.Cp(k.Keys[i].Id)}
		m.SetInstance(&ref)
		sym.Assert(m.Encipher() == nil, "enciphers")
		g := krypto431.Message{CipherText: m.CipherText[:4]}
		g.SetInstance(&ref)
		b, err := g.Groups()
		sym.Assert(err == nil, "groups")
		ciphers = append(ciphers, string(k.Keys[i].Id)+" "+string(*b))
	}
	p := faultos.Plan{Fail: -1, Crash: -1}
	switch sym.Choice("kind", 4) {
	case 0:
		p.Fail = sym.Int("fail", -1, 40)
	case 1:
		p.Fail, p.Sticky = sym.Int("fail", 0, 40), true
	case 2:
		p.Fail, p.NoSpace, p.Short = sym.Int("write", 0, 10), true, true
	case 3:
		p.Crash, p.Half = sym.Int("crash", 0, 40), sym.Bool("half")
	}
	_, died, out, failed := enter("QQ DE OP = "+text+" = K", two && sym.Choice("prompt", 2) == 1, p)
	first := shown(out, ciphers)
	got, err := load(path)
	sym.Assert(err == nil && len(got.Keys) == 4, "the store can be loaded")
	for i := range got.Keys {
		sym.Assert(sym.Implies(first>>i&1 == 1, got.Keys[i].Used), "a key whose cipher text was shown is marked used in the store")
	}
	sym.Assert(failed != "" || died || first != 0, "a message that is entered is shown")
	if first == 0 {
		sym.Reach("not shown")
	} else {
		sym.Reach("shown")
	}
	if died {
		sym.Reach("died")
	}
	code, _, out, _ := enter("QQ DE OP = HELLO HELLO = K", false, faultos.Plan{Fail: -1, Crash: -1})
	sym.Assert(code == 0, "the next message is entered")
	second := shown(out, ciphers)
	sym.Assert(second != 0, "and shown")
	sym.Assert(first&second == 0, "no key is used for two messages that were shown")
}
