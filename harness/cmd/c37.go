package cmd

import (
	"encoding/hex"
	"errors"
	"os"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/cmd431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/harness/sim/term"
	"verif/sym"
)

const (
	saltA = "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff"
	saltB = "ff112233445566778899aabbccddeeff00112233445566778899aabbccddeeff"
	long  = "correct horse battery staple" // a password with enough entropy
)

// bare runs the program without the options that name store and key.
func bare(args ...string) (int, string) {
	faultos.Stdout.Clear()
	faultos.Args = append([]string{"krypto431"}, args...)
	code, _ := faultos.Process(cmd431.Main)
	return code, faultos.Printed()
}

// secret is a way to open a file.
type secret struct{ pfk, password, salt string }

func (s secret) open() *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithGroupSize(2), krypto431.WithCallSign("OP"))
	if s.salt != "" {
		sym.Assert(k.SetSaltFromString(s.salt) == nil, "salt")
	}
	if s.pfk != "" {
		sym.Assert(k.SetPFKFromString(s.pfk) == nil, "key")
	} else {
		sym.Assert(k.SetPFKFromPassword(s.password) == nil, "password")
	}
	return &k
}

func sameStore(a, b *krypto431.Krypto431) bool {
	eq := len(a.Keys) == len(b.Keys) && len(a.Messages) == len(b.Messages) && a.GroupSize == b.GroupSize && a.KeyLength == b.KeyLength && a.Columns == b.Columns && a.KeyColumns == b.KeyColumns
	eq = eq && h.Same(a.CallSign, b.CallSign)
	for i := range a.Keys {
		eq = eq && i < len(b.Keys) && h.SameKey(&a.Keys[i], &b.Keys[i])
	}
	for i := range a.Messages {
		x, y := &a.Messages[i], &b.Messages[i]
		eq = eq && h.Same(x.Id, y.Id) && h.Same(x.PlainText, y.PlainText) && h.Same(x.From, y.From) && h.Same2(x.Recipients, y.Recipients) && h.Same(x.KeyId, y.KeyId)
	}
	return eq
}

// change runs pfk -c on a store that old opens and tells whether it succeeded.
func change(old secret, args []string, confirm int, plan faultos.Plan) (k *krypto431.Krypto431, was string, code int, out, failed string) {
	k = old.open()
	k.GroupSize = 2
	addKey(k, "AB", sym.Bool("used"), sym.Bool("compromised"), 3, h.Of([]rune("AB"), "keeper", 1))
	addMessage(k, []rune("AaAa"), []rune("FR"), []rune("OP"))
	sym.Assert(k.Save() == nil, "saves")
	was = bytes(path)
	if confirm > 0 {
		faultos.Terminal(true)
		survey.Answer = func(p lib.Prompt, response any) error {
			if confirm == 3 {
				return errors.New("interrupt")
			}
			*response.(*bool) = confirm == 1
			return nil
		}
	} else {
		args = append(args, "-y")
	}
	faultos.Arm(plan)
	code, out = bare(args...)
	failed = faultos.Failed()
	faultos.Disarm()
	return
}

func opens(s secret, k *krypto431.Krypto431) bool {
	l := s.open()
	return l.Load() == nil && sameStore(l, k)
}

// C37_Change: every way of giving the old and the new secret.
func C37_Change() {
	begin()
	old, now := secret{pfk: hex.EncodeToString(*pfk(1))}, secret{}
	var args []string
	salt := sym.Choice("--salt", 2) == 1
	if salt {
		old.salt = saltA
		args = append(args, "-S", saltA)
	}
	switch sym.Choice("old", 3) {
	case 0:
		args = append(args, "-K", old.pfk)
	case 1:
		old.pfk, old.password = "", "first"
		args = append(args, "-P", "first")
	case 2:
		old.pfk, old.password = "", "first"
	}
	args = append(args, "pfk", "-c", path)
	if old.password != "" && args[0] != "-P" && (len(args) < 3 || args[2] != "-P") {
		args = append(args, "-P", "first")
	}
	now.salt = old.salt
	switch sym.Choice("-s", 3) {
	case 1:
		now.salt = saltB
		args = append(args, "-s", saltB)
	case 2:
		now.salt = krypto431.DefaultSalt
		args = append(args, "-s", "default")
	}
	how := sym.Choice("new", 3)
	switch how {
	case 0:
		rnd.UseFixed()
		args = append(args, "-r")
	case 1:
		now.password = "second"
		args = append(args, "-N", "second")
	case 2:
		now.pfk = hex.EncodeToString(*pfk(7))
		args = append(args, "-k", now.pfk)
	}
	confirm := sym.Choice("confirm", 4)
	k, was, code, out, _ := change(old, args, confirm, faultos.Plan{Fail: -1, Crash: -1})
	if confirm > 1 {
		sym.Assert(bytes(path) == was, "nothing is changed without consent")
		sym.Assert((code == 0) == (confirm == 2), "an interrupt is an error")
		sym.Reach("declined")
		return
	}
	sym.Assert(code == 0, "succeeds")
	if how == 0 {
		l := lines(out)
		sym.Assert(len(l) == 1 && len(l[0]) > 64, "the random key is printed")
		now.pfk = l[0][len(l[0])-64:]
	}
	sym.Assert(opens(now, k), "the new secret opens the complete store")
	sym.Assert(old.open().Load() != nil, "the old secret does not")
	sym.Reach("changed")
}

// C37_Fails: whatever fails, the old or the new secret opens the complete store.
func C37_Fails() {
	begin()
	old := secret{pfk: hex.EncodeToString(*pfk(1))}
	now := secret{pfk: hex.EncodeToString(*pfk(7))}
	args := []string{"-K", old.pfk, "pfk", "-c", path}
	bad := false
	switch sym.Choice("how", 8) {
	case 0:
		args = append(args, "-k", now.pfk)
	case 1: // not a key
		args, bad = append(args, "-k", now.pfk[2:]), true
	case 2:
		args, bad = append(args, "-k", "X"+now.pfk[1:]), true
	case 3: // not the old key
		args, bad = []string{"-K", now.pfk, "pfk", "-c", path, "-k", now.pfk}, true
	case 4: // contradictions
		args, bad = append(args, "-k", now.pfk, "-N", "second"), true
	case 5:
		args, bad = append(args, "-r", "-N", "second"), true
	case 6: // a salt that is too short
		args, bad = append(args, "-s", "0011", "-N", "second"), true
	case 7: // no such file
		args, bad = []string{"-K", old.pfk, "pfk", "-c", path + "x", "-k", now.pfk}, true
	}
	p := fault()
	k, was, code, _, failed := change(old, args, 0, p)
	sym.Assert(failed != "" || (code != 0) == bad, "succeeds if and only if it can")
	if code != 0 {
		sym.Assert(bytes(path) == was, "a command that fails leaves the store as it was")
		sym.Reach("fails")
	} else {
		sym.Assert(opens(now, k), "the new secret opens the complete store")
		sym.Reach("changed")
	}
}

// C37_Mute: a store is not encrypted with a key nobody was told.
func C37_Mute() {
	begin()
	old := secret{pfk: hex.EncodeToString(*pfk(1))}
	now := secret{pfk: hex.EncodeToString(*pfk(7))}
	args := []string{"-K", old.pfk, "pfk", "-c", path}
	random := sym.Choice("new", 2) == 1
	if random {
		args = append(args, "-r")
	} else {
		args = append(args, "-k", now.pfk)
	}
	mute := sym.Choice("standard output fails", 2) == 1
	faultos.Mute(mute)
	p := fault()
	k, was, code, out, failed := change(old, args, sym.Choice("confirm", 2), p)
	if code != 0 {
		sym.Assert(bytes(path) == was, "a command that fails leaves the store as it was")
		sym.Reach("fails")
		return
	}
	sym.Assert(!random || !mute, "a new key that could not be shown is an error")
	if random && !mute {
		l := lines(out)
		sym.Assert(len(l) > 0 && len(l[0]) > 64, "the random key is printed")
		now.pfk = l[0][len(l[0])-64:]
	}
	sym.Assert(failed == "" || !random || !mute, "succeeds only if nothing failed")
	sym.Assert(opens(now, k), "the new secret opens the complete store")
	sym.Reach("changed")
}

// C37_Environment: passwords in the environment, overruled by options.
func C37_Environment() {
	begin()
	old, now := secret{password: "first"}, secret{password: "second"}
	args := []string{"pfk", "-c", path}
	env := [][2]string{{"KRYPTO_OLD_PASSWORD", "first"}, {"KRYPTO_NEW_PASSWORD", "second"}}
	switch sym.Choice("options", 4) {
	case 1:
		env[0][1] = "other"
		args = append(args, "-P", "first")
	case 2:
		env[1][1] = "other"
		args = append(args, "-N", "second")
	case 3:
		args = append([]string{"-P", "other"}, args...)
	}
	for i := range env {
		os.Setenv(env[i][0], env[i][1])
		defer os.Unsetenv(env[i][0])
	}
	k, _, code, _, _ := change(old, args, sym.Choice("confirm", 2), faultos.Plan{Fail: -1, Crash: -1})
	sym.Assert(code == 0, "succeeds")
	sym.Assert(opens(now, k), "the new password opens the complete store")
	sym.Assert(old.open().Load() != nil, "the old one does not")
	sym.Reach("changed")
}

// C37_Typed: passwords typed twice, different at first or too weak.
func C37_Typed() {
	begin()
	old := secret{password: "first"}
	k := old.open()
	addKey(k, "AB", sym.Bool("used"), false, 3)
	sym.Assert(k.Save() == nil, "saves")
	was := bytes(path)
	faultos.Terminal(true)
	now := secret{password: long}
	typed := []string{"first"}
	ok := true
	switch sym.Choice("typed", 5) {
	case 0:
		typed = append(typed, long, long)
	case 1:
		typed = append(typed, "short", long, long+"x", long, long)
	case 2:
		typed, ok = append(typed, long), false
	case 3:
		typed, ok = append(typed, long, long+"x"), false
	case 4:
		typed, ok = []string{"wrong", long, long}, false
	}
	term.Typed = typed
	code, _ := bare("pfk", "-c", path)
	sym.Assert((code == 0) == ok, "succeeds once the same strong password was typed twice")
	if ok {
		sym.Assert(opens(now, k) && old.open().Load() != nil, "the new password opens the complete store, the old one does not")
	} else {
		sym.Assert(bytes(path) == was, "a command that fails leaves the store as it was")
	}
	sym.Reach("done")
}

// C37_Derive: a key derived on the command line is the one the password gives.
func C37_Derive() {
	begin()
	s := secret{password: long}
	args := []string{}
	if sym.Choice("--salt", 2) == 1 {
		s.salt = saltA
		args = append(args, "-S", saltA)
	}
	typed := sym.Choice("typed", 2) == 1
	if typed {
		faultos.Terminal(true)
		term.Typed = []string{long, long}
	} else {
		args = append(args, "-P", long)
	}
	args = append(args, "pfk", "-g")
	if sym.Choice("-s", 2) == 1 {
		s.salt = saltB
		args = append(args, "-s", saltB)
	}
	code, out := bare(args...)
	l := lines(out)
	sym.Assert(code == 0 && len(l) == 1, "prints one line")
	k := s.open()
	addKey(k, "AB", sym.Bool("used"), false, 3)
	sym.Assert(k.Save() == nil, "saves")
	sym.Assert(opens(secret{pfk: l[0]}, k), "the key opens what was saved with the password")
	sym.Reach("done")
}
