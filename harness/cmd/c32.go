package cmd

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/term"
	"verif/sym"
)

// filled has two keys and two messages.
func filled() *krypto431.Krypto431 {
	begin()
	k := open()
	k.KeyLength = 20
	addKey(k, "AB", sym.Bool("used"), false, 3, []rune("QQ"))
	addKey(k, "CD", true, sym.Bool("compromised"), 3, []rune("QQ"))
	addMessage(k, []rune("AaAa"), []rune("FR"), []rune("OP"))
	addMessage(k, []rune("BbBb"), []rune("GR"), []rune("OP"))
	sym.Assert(k.Save() == nil, "saves")
	return k
}

// fault picks the operation that fails, if any, and how.
func fault() faultos.Plan {
	p := faultos.Plan{Fail: sym.Int("fail", -1, 40), Crash: -1}
	switch sym.Choice("kind", 3) {
	case 1:
		p.Sticky = true
	case 2:
		p.NoSpace, p.Short = true, true
	}
	return p
}

func bytes(file string) string {
	b, _ := faultos.Get(file)
	return string(b)
}

// paths other than those given
func others(known ...string) (n int) {
	for _, p := range faultos.Paths() {
		ok := false
		for _, q := range known {
			ok = ok || p == q
		}
		if !ok {
			n++
		}
	}
	return
}

// C32_Reads: listing, printing and exporting leave the store alone, whatever fails.
func C32_Reads() {
	k := filled()
	// received before its key was there
	x := krypto431.Key{Id: []rune("EF"), Runes: []rune("ABCDEFGHIJKLMNOPQRST")}
	x.SetInstance(k)
	k.Keys = append(k.Keys, x)
	m := krypto431.Message{PlainText: []rune("HI"), KeyId: []rune("EF")}
	m.SetInstance(k)
	sym.Assert(m.Encipher() == nil, "enciphers")
	k.Messages[1].KeyId, k.Messages[1].PlainText = nil, append([]rune("EF"), m.CipherText...)
	k.Keys[2].Used = false
	sym.Assert(rm(path) && k.Save() == nil, "saves")
	was, mode := bytes(path), faultos.Mode(path)
	out := "/home/op/sheet.txt"
	var args []string
	switch sym.Choice("command", 7) {
	case 0:
		args = []string{"keys", "-l"}
	case 1:
		args = []string{"messages", "-l"}
	case 2:
		args = []string{"keys", "-o", out}
	case 3:
		args = []string{"messages", "-o", out}
	case 4:
		args = []string{"keys", "-E", outPath, "-l"}
	case 5:
		args = []string{"keys", "-l", "-o", "/home/op/sheet", "-t", "txt"}
	case 6:
		args = []string{"keys", "-E", path}
	}
	faultos.Arm(fault())
	code, _ := run(args...)
	failed := faultos.Failed()
	faultos.Disarm()
	sym.Assert(bytes(path) == was && faultos.Mode(path) == mode, "the store is not rewritten")
	sym.Assert(others(path, out, outPath, "/home/op/sheet") == 0 || failed != "", "no other file appears")
	if failed == "" {
		sym.Assert((code == 0) == (args[len(args)-1] != path), "succeeds, except that the store itself can not be exported to")
		sym.Reach("succeeds")
	} else if code != 0 {
		sym.Reach("fails")
	}
	if code == 0 && args[1] == "-E" {
		got, err := load(outPath)
		sym.Assert(err == nil && len(got.Keys) == len(k.Keys), "an export that succeeds is complete")
	}
}

// C32_Changes: a command that changes the store succeeds with the change saved
// or fails with the store as it was.
func C32_Changes() {
	filled()
	was := bytes(path)
	p := fault()
	var args []string
	cmd := sym.Choice("command", 7)
	bad := false
	switch cmd {
	case 0:
		args = []string{"keys", "-n", "2", "-k", "XX"}
		rnd.UseSome(2)
	case 1:
		args = []string{"keys", "-d", "-y", "-i", "AB"}
	case 2:
		args = []string{"messages", "-d", "-y", "-i", "BbBb"}
	case 3, 4:
		from := krypto431.New(krypto431.WithPersistence(outPath), krypto431.WithGroupSize(2), krypto431.WithCallSign("FR"))
		sym.Assert(from.SetPFKFromPassword("pass") == nil, "sets")
		addKey(&from, "EF", false, false, 3)
		sym.Assert(from.Save() == nil, "saves")
		faultos.Terminal(true)
		term.Typed = []string{"pass"}
		args = []string{"keys", "-I", outPath}
		if cmd == 4 {
			term.Typed, bad = []string{"word"}, true
		}
	case 5:
		args, bad = []string{"keys", "-n", "1", "-x", "NONSENSE"}, true
	case 6:
		args, bad = []string{"messages", "-n"}, true
		faultos.Type("no radiogram")
	}
	faultos.Arm(p)
	code, _ := run(args...)
	failed := faultos.Failed()
	faultos.Disarm()
	sym.Assert(failed != "" || (code == 0) == !bad, "succeeds when nothing fails")
	if code != 0 {
		sym.Assert(bytes(path) == was, "a command that fails leaves the store as it was")
		sym.Reach("fails")
		return
	}
	got, err := load(path)
	sym.Assert(err == nil, "the store can be loaded")
	keys, messages := "", ""
	for i := range got.Keys {
		if i < 2 || cmd != 0 {
			keys += string(got.Keys[i].Id)
		}
	}
	for i := range got.Messages {
		messages += string(got.Messages[i].Id)
	}
	switch cmd {
	case 0:
		sym.Assert(len(got.Keys) == 4 && keys == "ABCD" && messages == "AaAaBbBb", "the new keys are saved")
		for _, x := range got.Keys[2:] {
			sym.Assert(len(x.Runes) == 20 && h.Same2(x.Keepers, [][]rune{[]rune("XX")}), "as asked for")
		}
	case 1:
		sym.Assert(keys == "CD" && messages == "AaAaBbBb", "the deletion is saved")
	case 2:
		sym.Assert(keys == "ABCD" && messages == "AaAa", "the deletion is saved")
	case 3:
		sym.Assert(keys == "ABCDEF" && messages == "AaAaBbBb", "the imported key is saved")
	}
	sym.Reach("succeeds")
}

// C32_Message: a message entered is printed and saved.
func C32_Message() {
	k := filled()
	for i := range k.Keys {
		k.Keys[i].Runes = []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		k.Keys[i].Used, k.Keys[i].Compromised = i > 0, false
	}
	sym.Assert(rm(path) && k.Save() == nil, "saves")
	was := bytes(path)
	p := fault()
	incoming := sym.Choice("incoming", 2) == 1
	if incoming {
		faultos.Type("OP DE QQ = HELLO THERE = K")
	} else {
		faultos.Type("QQ DE OP = HELLO THERE = K")
	}
	rnd.UseSome(2)
	faultos.Arm(p)
	code, out := run("messages", "-n")
	failed := faultos.Failed()
	faultos.Disarm()
	sym.Assert(failed != "" || code == 0, "succeeds when nothing fails")
	if code != 0 {
		sym.Assert(bytes(path) == was, "a command that fails leaves the store as it was")
		sym.Reach("fails")
		return
	}
	got, err := load(path)
	sym.Assert(err == nil && len(got.Messages) == 3, "the message is saved")
	m := &got.Messages[2]
	sym.Assert(string(m.PlainText) == "HELLO THERE" && (len(m.CipherText) > 0) == !incoming, "as entered")
	sym.Assert(got.Keys[0].Used == !incoming, "together with the mark of the key")
	m.SetInstance(got)
	sym.Assert(out == m.String()+"\n", "and printed")
	sym.Reach("succeeds")
}
