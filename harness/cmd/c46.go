package cmd

import (
	"os"
	"strconv"
	"strings"

	"github.com/sa6mwa/krypto431"
	validator "github.com/wagslane/go-password-validator"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/term"
	"verif/sym"
)

// dialogue is what is typed at the password prompts: at most n entries.
func dialogue(n int, stems []string, of string) []string {
	var typed []string
	for i := sym.Choice("entries", n+1); i > 0; i-- {
		s := stems[sym.Choice("stem", len(stems))]
		typed = append(typed, s+string(h.Of([]rune(of), "last", 1)))
	}
	return typed
}

// near is a minimum just below, at or just above the strength of a password.
func near(pw string) float64 {
	return validator.GetEntropy(pw) + []float64{-0.25, 0, 0.25}[sym.Choice("near", 3)]
}

// accepted is the password the dialogue ends with, and the number of prompts it
// takes: the first that is strong enough and is repeated exactly.
func accepted(typed []string, bits float64) (string, int, bool) {
	for i := 0; i < len(typed); i++ {
		if validator.GetEntropy(typed[i]) < bits {
			continue
		}
		i++
		if i == len(typed) {
			break
		}
		if sym.Fork(typed[i-1] == typed[i]) {
			return typed[i], i + 1, true
		}
	}
	return "", len(typed), false
}

// forgotten: the bytes typed are overwritten.
func forgotten(b []byte, was string) {
	gone := true
	for i := range b {
		gone = sym.And(gone, b[i] != was[i])
	}
	sym.Assert(gone, "a password no longer needed is wiped")
}

// C46_Dialogue asks for a new password.
func C46_Dialogue() {
	begin()
	faultos.Terminal(true)
	bits := near("tR5+wa")
	typed := dialogue(4, []string{"t5zw", "tR5+w"}, "aA")
	term.Typed, term.Given = typed, nil
	pw, err := krypto431.AskAndConfirmPassword("? ", bits)
	want, n, ok := accepted(typed, bits)
	sym.Assert((err == nil) == ok, "a password is taken once it is strong enough and repeated")
	sym.Assert(len(typed)-len(term.Typed) == n, "after that nothing more is asked")
	keep := -1
	if ok {
		sym.Assert(pw != nil && string(*pw) == want, "it is the one that was typed")
		keep = n - 2
		sym.Reach("taken")
	} else {
		sym.Assert(pw == nil, "nothing is taken otherwise")
		sym.Reach("refused")
	}
	for i := range term.Given {
		if i != keep {
			forgotten(term.Given[i], typed[i])
		}
	}
}

// C46_Program: a command that asks for a new password uses exactly that one.
func C46_Program() {
	begin()
	krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	bits := krypto431.DefaultMinimumPasswordEntropyBits
	var args []string
	switch sym.Choice("minimum", 4) {
	case 1:
		bits = near("t5zw+a")
		args = []string{"-M", strconv.FormatFloat(bits, 'f', -1, 64)}
	case 2:
		bits = 140
		args = []string{"--minimum-entropy", "140"}
	case 3:
		bits = 30
		os.Setenv("KRYPTO_MINIMUM_ENTROPY", "30")
		defer os.Unsetenv("KRYPTO_MINIMUM_ENTROPY")
	}
	typed := dialogue(2, []string{"t5zw+", "correct horse battery stapl"}, "ad")
	if sym.Choice("more", 2) == 1 {
		typed = append(typed, long, long)
	}
	command := sym.Choice("command", 3)
	var k *krypto431.Krypto431
	if command == 1 {
		s := secret{pfk: strings.Repeat("5a", 32)}
		k = s.open()
		addKey(k, "AB", false, false, 3)
		sym.Assert(k.Save() == nil, "saves")
		args = append(args, "-K", s.pfk, "pfk", "-c", path)
	} else if command == 0 {
		args = append(args, "-f", path, "init", "-c", "OP", "-y")
	} else {
		args = append(args, "pfk", "-g")
	}
	was := bytes(path)
	faultos.Terminal(true)
	term.Typed, term.Given = typed, nil
	code, out := bare(args...)
	faultos.Terminal(false)
	pw, n, ok := accepted(typed, bits)
	sym.Assert((code == 0) == ok, "succeeds exactly with a password strong enough and repeated")
	sym.Assert(len(typed)-len(term.Typed) == n, "after that nothing more is asked")
	for i := range term.Given {
		forgotten(term.Given[i], typed[i])
	}
	if !ok {
		sym.Assert(bytes(path) == was && out == "", "nothing is written or shown otherwise")
		sym.Reach("refused")
		return
	}
	x := krypto431.New(krypto431.WithPersistence(path))
	sym.Assert(x.SetPFKFromPassword(pw) == nil, "a key")
	if command == 2 {
		sym.Assert(out == x.GetPFKString()+"\n", "the key of the password is shown")
		sym.Reach("shown")
		return
	}
	sym.Assert(x.Load() == nil, "the store opens with the password")
	if k != nil {
		sym.Assert(len(x.Keys) == 1 && h.SameKey(&x.Keys[0], &k.Keys[0]), "it is complete")
	}
	sym.Reach("stored")
}

// C46_Given: a key is shown for a password in an option only if it is strong enough.
func C46_Given() {
	begin()
	krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	bits := krypto431.DefaultMinimumPasswordEntropyBits
	var args []string
	switch sym.Choice("minimum", 4) {
	case 1:
		bits = near("t5zw+a")
		args = []string{"-M", strconv.FormatFloat(bits, 'f', -1, 64)}
	case 2:
		bits = near("tR5+wz7")
		args = []string{"-M", strconv.FormatFloat(bits, 'f', -1, 64)}
	case 3:
		bits = 0
		args = []string{"-M", "0"}
	}
	pw := []string{"t5zw+", "correct horse battery stapl", "tR5+wz"}[sym.Choice("stem", 3)] + string(h.Of([]rune("aB7 "), "last", 1))
	code, out := bare(append(args, "-P", pw, "pfk", "-g")...)
	ok := validator.GetEntropy(pw) >= bits
	sym.Assert((code == 0) == ok, "exactly for a password strong enough")
	if !ok {
		sym.Assert(out == "", "nothing is shown otherwise")
		sym.Reach("refused")
		return
	}
	x := krypto431.New()
	sym.Assert(x.SetPFKFromPassword(pw) == nil && out == x.GetPFKString()+"\n", "the key of the password is shown")
	sym.Reach("shown")
}

// C46_Unlock: the password that opens a store is asked for once and wiped.
func C46_Unlock() {
	begin()
	krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	set := "weak" + string(h.Of([]rune("ad"), "last", 1))
	s := secret{password: set}
	k := s.open()
	addKey(k, "AB", false, false, 3)
	sym.Assert(k.Save() == nil, "saves")
	was := bytes(path)
	typed := append(dialogue(1, []string{"weak", ""}, "ad"), "other")
	args := [][]string{{"keys", "-l"}, {"messages", "-l"}, {"keys", "-n", "1"}, {"pfk", "-c", path, "-r", "-y"}}[sym.Choice("command", 4)]
	if args[0] != "pfk" {
		args = append([]string{"-f", path}, args...)
	}
	faultos.Terminal(true)
	term.Typed, term.Given = typed, nil
	code, out := bare(args...)
	faultos.Terminal(false)
	ok := sym.Fork(typed[0] == set)
	sym.Assert((code == 0) == ok, "succeeds exactly with the password of the store")
	sym.Assert(len(term.Given) == 1, "which is asked for once")
	forgotten(term.Given[0], typed[0])
	if !ok {
		sym.Assert(out == "" && bytes(path) == was, "nothing is shown or written otherwise")
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
}
