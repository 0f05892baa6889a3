package cmd

import (
	"encoding/hex"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/harness/sim/term"
	"verif/sym"
)

// hidden is what only the store and its owner know.
type hidden struct {
	letters  [3][]rune // of two keys of the store and one to import
	pfk, new string    // hex encoded
	password string
	weak     string // password refused
	from     string // password of a store to import from
}

func anyHidden() (s hidden) {
	for i := range s.letters {
		s.letters[i] = h.Letters("letter", 6)
	}
	s.pfk, _ = arbitrary(hex.EncodeToString(*pfk(1)), "0aF", "key")
	s.new, _ = arbitrary(hex.EncodeToString(*pfk(2)), "1bE", "new key")
	s.password, _ = arbitrary("tR5+wq8-Zk;m(", "ab", "password")
	s.weak, _ = arbitrary("we", "ae", "weak password")
	s.from, _ = arbitrary("pas", "st", "password")
	return
}

// seen is everything a command puts on the terminal: output, messages, and
// what the prompts say.
func seen(s hidden, args []string, stdin string, asked, yes bool, plan faultos.Plan) string {
	begin()
	krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithGroupSize(3), krypto431.WithCallSign("OPR"), krypto431.WithKeyLength(20))
	sym.Assert(k.SetPFKFromString(s.pfk) == nil, "a key")
	addKey(&k, "ABC", true, false, -2, []rune("QQQ"))
	addKey(&k, "DEF", false, true, 3, []rune("QQQ"))
	addMessage(&k, []rune("AaAaAa"), []rune("QQQ"), []rune("OPR"))
	k.Messages[0].KeyId = []rune("ABC")
	in := krypto431.New(krypto431.WithPersistence(inPath), krypto431.WithGroupSize(3), krypto431.WithCallSign("FRM"))
	sym.Assert(in.SetPFKFromPassword(s.from) == nil, "a key")
	addKey(&in, "DEF", false, false, 3, []rune("OPR"))
	addKey(&in, "GHI", false, false, 3, []rune("OPR"))
	k.Keys[0].Runes, k.Keys[1].Runes = h.Cp(s.letters[0]), h.Cp(s.letters[1])
	in.Keys[0].Runes, in.Keys[1].Runes = h.Cp(s.letters[2]), h.Cp(s.letters[0])
	sym.Assert(k.Save() == nil && in.Save() == nil, "saves")

	prompts := ""
	survey.Answer = func(p lib.Prompt, response any) error {
		switch p := p.(type) {
		case *lib.MultiSelect:
			prompts += p.Message + p.Help
			for _, o := range p.Options {
				prompts += o
			}
			*response.(*[]string) = p.Options[:1]
		case *lib.Confirm:
			prompts += p.Message + p.Help
			*response.(*bool) = yes
		}
		return nil
	}
	faultos.Terminal(asked)
	faultos.Type(stdin)
	var cmd []string
	for _, a := range args {
		switch a {
		case "PFK":
			a = s.pfk
		case "NEW":
			a = s.new
		case "PASSWORD":
			a = s.password
		case "WEAK":
			a = s.weak
		}
		cmd = append(cmd, a)
	}
	term.Typed = []string{s.weak, s.password, s.weak, s.password, s.password}
	if len(args) > 0 && args[len(args)-1] == inPath {
		term.Typed = []string{s.from}
	}
	faultos.Stdout.Clear()
	faultos.Stderr.Clear()
	faultos.Hear()
	faultos.Arm(plan)
	if len(args) > 0 {
		bare(cmd...)
	} else {
		asksNobody(&s)
	}
	faultos.Disarm()
	faultos.Terminal(false)
	return faultos.Printed() + "\x00" + faultos.Told() + "\x00" + prompts
}

// asksNobody imports and exports keys with the library alone.
func asksNobody(s *hidden) {
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFKString(s.pfk))
	sym.Assert(k.Load() == nil, "loads")
	in := krypto431.New(krypto431.WithPersistence(inPath))
	sym.Assert(in.SetPFKFromPassword(s.from) == nil, "a key")
	all := func(*krypto431.Key) bool { return true }
	_, err := k.ImportKeys(all, krypto431.WithPersistence(inPath), krypto431.WithPFK(in.GetPFK()))
	sym.Assert(err == nil && len(k.Keys) == 3, "imports the key that is new")
	to := k.ExportKeys(all, krypto431.WithPersistence(outPath), krypto431.WithPFKString(s.new))
	sym.Assert(to.Save() == nil, "saves")
	k.Wipe()
}

// silent: what is seen is the same for any two worlds that differ in secrets.
func silent(args []string, stdin string, asked, yes bool, plan faultos.Plan) {
	steady()
	a := seen(anyHidden(), args, stdin, asked, yes, plan)
	b := seen(anyHidden(), args, stdin, asked, yes, plan)
	if len(a) > 2 {
		sym.Reach("something is shown")
	}
	sym.Assert(a == b, "what is shown says nothing about keys, persistence keys and passwords")
	sym.Reach("compared")
}

var none = faultos.Plan{Fail: -1, Crash: -1}

// C48_Keys, C48_Messages, C48_Settings: commands that succeed or are refused.
func C48_Keys() {
	c := [][]string{
		{"-l"}, {"-d", "-y", "-i", "ABC"}, {"-d", "-l"}, {"-n", "1", "-x", "never"}, {"-n", "1", "-k", "QQQ", "-l"},
		{"-E", outPath}, {"-E", path}, {"-o", textPath}, {"-o", "/home/op/sheet.pdf"}, {"-o", "/home/op/none/sheet.txt"}, {"-I", "/home/op/none"}, {"-I", inPath},
	}[sym.Choice("command", 12)]
	silent(append([]string{"-f", path, "-K", "PFK", "keys"}, c...), "", true, sym.Choice("answer", 2) == 1, none)
}

func C48_Messages() {
	c := sym.Choice("command", 6)
	args := [][]string{{"-l"}, {"-d", "-y", "-i", "AaAaAa"}, {"-d"}, {"-o", textPath}, {"-n"}, {"-n"}}[c]
	stdin := []string{"", "", "", "", "OPR DE QQQ = HELLO = K", "QQQ DE OPR = HELLO = K"}[c]
	silent(append([]string{"-f", path, "-K", "PFK", "messages"}, args...), stdin, stdin == "", true, none)
}

func C48_Settings() {
	yes := sym.Choice("answer", 2) == 1
	c := [][]string{
		{"-f", path, "-K", "PFK", "init", "-c", "NEWC"},
		{"-f", path, "init", "-c", "NEWC"},
		{"-f", path, "-P", "PASSWORD", "init", "-c", "NEWC", "-y"},
		{"-K", "PFK", "pfk", "-c", path, "-k", "NEW"},
		{"-K", "PFK", "pfk", "-c", path},
		{"-K", "PFK", "pfk", "-c", path, "-N", "PASSWORD"},
		{"-K", "NEW", "pfk", "-c", path, "-k", "PFK"},
		{"-K", "NEW", "-P", "PASSWORD", "pfk", "-c", path},
		{"-K", "PFK", "pfk", "-c", path, "-k", "NEW", "-N", "PASSWORD"},
		{"-f", path, "-K", "NEW", "keys", "-l"},
		{"-f", path, "-P", "PASSWORD", "keys", "-l"},
		{"-f", path, "messages", "-l"},
		{"-P", "WEAK", "pfk", "-g"},
		nil,
	}[sym.Choice("command", 14)]
	silent(c, "", true, yes, none)
}

// C48_ThoroughFailing: any operation of more commands fails in any way.
func C48_ThoroughFailing() {
	c := [][]string{{"-d", "-y", "-i", "ABC"}, {"-d", "-l"}, {"-n", "1", "-k", "QQQ", "-l"}, {"-E", path}, {"-o", "/home/op/sheet.pdf"}, {"-I", inPath}}[sym.Choice("command", 6)]
	silent(append([]string{"-f", path, "-K", "PFK", "keys"}, c...), "", true, true, fault())
}

// C48_Failing: any file operation fails.
func C48_Failing() {
	plan := faultos.Plan{Fail: sym.Int("fail", 0, 40), Crash: -1, Sticky: true}
	c := [][]string{
		{"-f", path, "-K", "PFK", "keys", "-n", "1"},
		{"-f", path, "-K", "PFK", "keys", "-E", outPath},
		{"-f", path, "-K", "PFK", "keys", "-o", textPath},
		{"-f", path, "-K", "PFK", "init", "-c", "NEWC", "-y"},
		{"-K", "PFK", "pfk", "-c", path, "-k", "NEW", "-y"},
		{"-f", path, "-K", "PFK", "keys", "-I", inPath},
	}[sym.Choice("command", 6)]
	silent(c, "", true, true, plan)
}
