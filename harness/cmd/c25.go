package cmd

import (
	"strconv"
	"time"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/harness/sim/term"
	"verif/sym"
)

const outPath = "/home/op/out"

// days is a time half a day after that many days from now, whole seconds.
func days(n int) dtg.DTG {
	return dtg.DTG{Time: time.Unix(time.Now().Unix()+43200+86400*int64(n), 0).UTC()}
}

func open() *krypto431.Krypto431 {
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk(1)), krypto431.WithGroupSize(2), krypto431.WithCallSign("OP"))
	return &k
}

// flags are the selection options without an argument and --valid.
type flags struct {
	used, unused, compromised, expired, invalid bool
	valid                                       int // -1 is not given
}

func (f flags) args() (a []string) {
	for _, x := range []struct {
		on   bool
		name string
	}{{f.used, "--used"}, {f.unused, "--unused"}, {f.compromised, "--compromised"}, {f.expired, "--expired"}, {f.invalid, "--invalid"}} {
		if x.on {
			a = append(a, x.name)
		}
	}
	if f.valid >= 0 {
		a = append(a, "--valid", strconv.Itoa(f.valid))
	}
	return
}

// selects says whether a key that expires half a day after day is selected.
func (f flags) selects(used, compromised bool, day int) bool {
	ok := sym.And(sym.Or(!f.used, used), sym.Or(!f.unused, sym.Not(used)))
	ok = sym.And(ok, sym.Or(!f.compromised, compromised))
	ok = sym.And(ok, sym.Or(!f.expired, day < 0))
	ok = sym.And(ok, sym.Or(!f.invalid, sym.Or(compromised, day < 0)))
	if f.valid >= 0 {
		ok = sym.And(ok, sym.And(sym.Not(compromised), day >= f.valid))
	}
	return ok
}

func someFlags() (f flags) {
	f.used, f.unused = sym.Fork(sym.Bool("--used")), sym.Fork(sym.Bool("--unused"))
	f.compromised, f.expired = sym.Fork(sym.Bool("--compromised")), sym.Fork(sym.Bool("--expired"))
	f.invalid = sym.Fork(sym.Bool("--invalid"))
	f.valid = []int{-1, 0, 2}[sym.Choice("--valid", 3)]
	return
}

// exported runs an export and tells which keys came out.
func exported(k *krypto431.Krypto431, args ...string) []bool {
	code, _ := run(append([]string{"keys", "-E", outPath}, args...)...)
	sym.Assert(code == 0, "succeeds")
	out, err := load(outPath)
	sym.Assert(err == nil, "the exported file can be loaded")
	got := make([]bool, len(k.Keys))
	n := 0
	for i := range out.Keys {
		found := false
		for j := range k.Keys {
			if h.Same(out.Keys[i].Id, k.Keys[j].Id) {
				sym.Assert(h.SameKey(&out.Keys[i], &k.Keys[j]), "the key itself")
				sym.Assert(!got[j], "once")
				got[j], found = true, true
			}
		}
		sym.Assert(found, "a key of the store")
		n++
	}
	return got
}

func addKey(k *krypto431.Krypto431, id string, used, compromised bool, day int, keepers ...[]rune) {
	key := krypto431.Key{Id: []rune(id), Runes: []rune("XYZXYZ"), Keepers: keepers, Created: days(-9), Expires: days(day), Used: used, Compromised: compromised, Comment: []rune("c")}
	key.SetInstance(k)
	k.Keys = append(k.Keys, key)
}

// C25_Export: every combination of flags, keys with any marks and expiry.
func C25_Export() {
	begin()
	k := open()
	type state struct {
		used, compromised bool
		day               int
	}
	var s []state
	for _, id := range []string{"AB", "CD"} {
		x := state{sym.Bool("used"), sym.Bool("compromised"), sym.Int("day", -2, 3)}
		s = append(s, x)
		addKey(k, id, x.used, x.compromised, x.day, []rune("QQ"))
	}
	sym.Assert(k.Save() == nil, "saves")
	f := someFlags()
	got := exported(k, f.args()...)
	for i := range got {
		sym.Assert(sym.Iff(got[i], f.selects(s[i].used, s[i].compromised, s[i].day)), "exactly the keys the criteria select")
	}
	sym.Reach("exported")
}

// criteria on symbolic IDs and keepers
func C25_Names() {
	begin()
	k := open()
	al := []rune("ABab")
	for i := 0; i < 2; i++ {
		var keepers [][]rune
		for j := sym.Choice("keepers", 3); j > 0; j-- {
			keepers = append(keepers, h.Of([]rune("AB"), "keeper", 1))
		}
		addKey(k, string(h.Of([]rune("AB"), "id", 2)), sym.Bool("used"), false, 5, keepers...)
	}
	sym.Assume(sym.Not(h.Same(k.Keys[0].Id, k.Keys[1].Id)))
	sym.Assert(k.Save() == nil, "saves")
	var args []string
	var want, by [][]rune
	all, or, used := false, false, false
	list := func(opt string, l [][]rune) {
		if len(l) == 2 {
			if sep := sym.Choice("separator", 3); sep > 0 {
				args = append(args, opt, string(l[0])+[]string{"", ",", " "}[sep]+string(l[1]))
				return
			}
		}
		for _, x := range l {
			args = append(args, opt, string(x))
		}
	}
	for n := sym.Choice("ids", 3); n > 0; n-- {
		want = append(want, h.Of(al, "-i", 2))
	}
	max := 3
	if len(want) > 0 {
		max = 2
	}
	for n := sym.Choice("-k", max); n > 0; n-- {
		by = append(by, h.Of(al, "-k", 1))
	}
	list("-i", want)
	list("-k", by)
	switch sym.Choice("option", 4) {
	case 1:
		all, args = true, append(args, "--all")
	case 2:
		or, args = true, append(args, "--or")
	case 3:
		used, args = true, append(args, "--used")
	}
	got := exported(k, args...)
	for i := range got {
		key := &k.Keys[i]
		exp := true
		if all {
		} else if len(want) > 0 {
			exp = false
			for _, w := range want {
				exp = sym.Or(exp, h.Fold(w, key.Id))
			}
		} else {
			any, every := false, true
			for _, w := range by {
				in := false
				for _, x := range key.Keepers {
					in = sym.Or(in, h.Fold(w, x))
				}
				any, every = sym.Or(any, in), sym.And(every, in)
			}
			if or {
				exp = sym.Or(any, len(by) == 0)
			} else {
				exp = every
			}
			exp = sym.And(exp, sym.Or(!used, key.Used))
		}
		sym.Assert(sym.Iff(got[i], exp), "exactly the keys the criteria select")
	}
	sym.Reach("exported")
}

// ways of acting on keys other than exporting
func C25_Sinks() {
	begin()
	k := open()
	ids := []string{"AB", "CD"}
	var s [2]int
	for i, id := range ids {
		s[i] = []int{-2, 3}[sym.Choice("day", 2)]
		addKey(k, id, sym.Bool("used"), sym.Bool("compromised"), s[i], []rune("QQ"))
	}
	sym.Assert(k.Save() == nil, "saves")
	f := flags{valid: -1}
	args := []string{}
	switch sym.Choice("criteria", 8) {
	case 1:
		f.used = true
	case 2:
		f.unused = true
	case 3:
		f.compromised = true
	case 4:
		f.expired = true
	case 5:
		f.invalid = true
	case 6:
		f.valid = 1
	case 7:
		args = append(args, "-i", "CD")
	}
	var want [2]bool
	n := 0
	sheets := make([]string, 2)
	for i := range want {
		sheets[i] = k.Keys[i].String() + krypto431.LineBreak
		want[i] = sym.Fork(f.selects(k.Keys[i].Used, k.Keys[i].Compromised, s[i]))
		if len(args) > 0 {
			want[i] = i == 1
		}
		if want[i] {
			n++
		}
	}
	args = append(f.args(), args...)
	switch sym.Choice("sink", 3) {
	case 0: // list
		code, out := run(append([]string{"keys", "-l"}, args...)...)
		sym.Assert(code == 0, "succeeds")
		l := lines(out)
		if n == 0 {
			sym.Assert(len(l) == 0, "nothing is listed when nothing is selected")
			break
		}
		sym.Assert(len(l) == 3+n, "a line for each selected key")
		j := 3
		for i := range want {
			if want[i] {
				sym.Assert(l[j][:3] == ids[i]+" ", "the selected keys")
				j++
			}
		}
	case 1: // print
		code, _ := run(append([]string{"keys", "-o", "/home/op/keys.txt"}, args...)...)
		b, ok := faultos.Get("/home/op/keys.txt")
		if n == 0 {
			sym.Assert(code != 0 && !ok, "an empty selection is not printed")
			break
		}
		sym.Assert(code == 0 && ok, "succeeds")
		text := ""
		for i := range want {
			if want[i] {
				text += sheets[i]
			}
		}
		sym.Assert(string(b) == text, "the sheets of the selected keys")
	case 2: // import, asks for the password of the file
		var from = krypto431.New(krypto431.WithPersistence(outPath), krypto431.WithGroupSize(2), krypto431.WithCallSign("FR"))
		sym.Assert(from.SetPFKFromPassword("pass") == nil, "sets")
		from.Keys = k.Keys
		sym.Assert(from.Save() == nil, "saves")
		k.Keys = nil
		sym.Assert(rm(path) && k.Save() == nil, "saves")
		faultos.Terminal(true)
		term.Typed = []string{"pass"}
		code, _ := run(append([]string{"keys", "-I", outPath}, args...)...)
		sym.Assert(code == 0, "succeeds")
		got, err := load(path)
		sym.Assert(err == nil && len(got.Keys) == n, "as many keys as selected")
		j := 0
		for i := range want {
			if want[i] {
				sym.Assert(string(got.Keys[j].Id) == ids[i], "the selected keys")
				j++
			}
		}
	}
	sym.Reach("done")
}

func rm(file string) bool { return faultos.Remove(file) == nil }

// C25_Delete removes keys: those chosen out of the selected ones, or those
// listed by ID without asking.
func C25_Delete() {
	begin()
	k := open()
	ids := []string{"AB", "CD"}
	for i, id := range ids {
		addKey(k, id, sym.Bool("used"), sym.Bool("compromised"), []int{-2, 3}[i], []rune("QQ"))
	}
	sym.Assert(k.Save() == nil, "saves")
	var args []string
	var gone [2]bool
	f := flags{valid: -1}
	if sym.Choice("ask", 2) == 1 {
		faultos.Terminal(true)
		switch sym.Choice("criteria", 4) {
		case 1:
			f.used = true
		case 2:
			f.invalid = true
		case 3:
			f.unused, f.valid = true, 1
		}
		var selected []int
		for i := range ids {
			if sym.Fork(f.selects(k.Keys[i].Used, k.Keys[i].Compromised, []int{-2, 3}[i])) {
				selected = append(selected, i)
			}
		}
		survey.Answer = func(p lib.Prompt, response any) error {
			m, ok := p.(*lib.MultiSelect)
			sym.Assert(ok && len(m.Options) == len(selected), "the selected keys are offered")
			var chosen []string
			for j, i := range selected {
				sym.Assert(m.Options[j][:3] == ids[i]+" ", "the selected keys are offered")
				if sym.Fork(sym.Bool("choose")) {
					chosen = append(chosen, m.Options[j])
					gone[i] = true
				}
			}
			*response.(*[]string) = chosen
			return nil
		}
	} else {
		args = append(args, "-y")
		for i, l := range [][]string{{"-i", ids[0]}, {"-i", "cd"}} {
			if sym.Choice("-i", 2) == 1 {
				args, gone[i] = append(args, l...), true
			}
		}
	}
	code, _ := run(append(append([]string{"keys", "-d"}, f.args()...), args...)...)
	sym.Assert(code == 0, "succeeds")
	got, err := load(path)
	sym.Assert(err == nil, "the store can be loaded")
	n := 0
	for i := range ids {
		at := -1
		for j := range got.Keys {
			if string(got.Keys[j].Id) == ids[i] {
				at = j
			}
		}
		sym.Assert((at < 0) == gone[i], "exactly the chosen keys are deleted")
		if at >= 0 {
			sym.Assert(h.SameKey(&got.Keys[at], &k.Keys[i]), "the other keys are unchanged")
			n++
		}
	}
	sym.Assert(len(got.Keys) == n, "nothing else")
	sym.Reach("done")
}
