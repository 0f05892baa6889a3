package cmd

import (
	"errors"
	"strconv"
	"strings"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/sym"
)

// C38_Consent: an existing store is replaced with consent only.
func C38_Consent() {
	filled()
	was, mode := bytes(path), faultos.Mode(path)
	args := []string{"init", "-c", "NEW"}
	ask := sym.Choice("answer", 5) // no terminal, yes, no, interrupt, -y
	survey.Answer = func(p lib.Prompt, response any) error {
		c, ok := p.(*lib.Confirm)
		sym.Assert(ok && !c.Default && ask > 0 && ask < 4, "a question that has to be answered by yes")
		if ask == 3 {
			return errors.New("interrupt")
		}
		*response.(*bool) = ask == 1
		return nil
	}
	faultos.Terminal(ask > 0 && ask < 4)
	if ask == 4 {
		args = append(args, "-y")
	}
	faultos.Arm(fault())
	code, _ := run(args...)
	failed := faultos.Failed()
	faultos.Disarm()
	if ask == 1 || ask == 4 {
		sym.Assert(failed != "" || code == 0, "succeeds with consent")
		if code == 0 {
			got, err := load(path)
			sym.Assert(err == nil && len(got.Keys) == 0 && len(got.Messages) == 0 && string(got.CallSign) == "NEW", "a new store")
			sym.Reach("replaced")
			return
		}
	} else {
		sym.Assert(code != 0 || ask == 2, "an error without consent")
	}
	sym.Assert(bytes(path) == was && faultos.Mode(path) == mode, "the store is as it was otherwise")
	sym.Reach("kept")
}

// C38_Settings: the new store has the settings and keys asked for, or there is none.
func C38_Settings() {
	begin()
	rnd.UseSome(3)
	call := string(h.Of([]rune("Ab1"), "call", 2))
	args := []string{"init", "-c", " " + call}
	ok := true
	n := sym.Choice("-n", 3)
	if n > 0 {
		args = append(args, "-n", strconv.Itoa(n))
	}
	group, length, columns, width := 5, krypto431.DefaultKeyLength, krypto431.DefaultColumns, krypto431.DefaultKeyColumns
	if g := sym.Choice("-g", 4); g > 0 {
		group = []int{0, 0, 2, 3}[g]
		ok = ok && group > 0
		args = append(args, "-g", strconv.Itoa(group))
	}
	length = []int{19, 20, 23}[sym.Choice("-l", 3)]
	ok = ok && length >= 20
	args = append(args, "-l", strconv.Itoa(length))
	expire, given := "010203ZFEB30", false
	switch sym.Choice("option", 7) {
	case 1:
		columns = 85
		args = append(args, "--columns", "85")
	case 2:
		args, ok = append(args, "--columns", "79"), false
	case 3:
		width = 20
		args = append(args, "--key-columns", "20")
	case 4:
		args, width, ok = append(args, "--key-columns", "1"), 1, ok && group == 1
	case 5:
		given = true
		args = append(args, "-x", expire)
	case 6:
		expire = "never"
		args, ok = append(args, "-x", expire), ok && n == 0
	}
	var keepers [][]rune
	switch sym.Choice("-k", 3) {
	case 1:
		keepers = [][]rune{h.Of([]rune("AB"), "-k", 2)}
		args = append(args, "-k", string(keepers[0]))
		if h.Fold(keepers[0], []rune(call)) {
			keepers = nil // the own call-sign is no keeper
		}
	case 2:
		keepers = [][]rune{[]rune("XX"), []rune("YY")}
		args = append(args, "-k", "xx yy")
	}
	code, _ := run(args...)
	sym.Assert((code == 0) == ok, "succeeds if and only if the settings are valid")
	if !ok {
		sym.Assert(len(faultos.Paths()) == 0, "no store is written otherwise")
		sym.Reach("refused")
		return
	}
	sym.Assert(faultos.Mode(path) == 0600 && others(path) == 0, "readable by the owner only")
	k, err := load(path)
	sym.Assert(err == nil && len(k.Keys) == n && len(k.Messages) == 0, "as many keys as asked for")
	sym.Assert(h.Fold(k.CallSign, []rune(call)) && noLower(k.CallSign), "the call-sign")
	sym.Assert(k.GroupSize == group && k.KeyLength == length && k.Columns == columns && k.KeyColumns == width, "the settings")
	for i := range k.Keys {
		x := &k.Keys[i]
		sym.Assert(len(x.Id) == group && len(x.Runes) == (length+group-1)/group*group, "the size of the keys")
		sym.Assert(h.Same2(x.Keepers, keepers), "the keepers")
		sym.Assert(!x.Used && !x.Compromised, "new keys")
		if given {
			sym.Assert(x.Expires.Time.Unix() == 1896141780, "the expiry date")
		}
		for _, r := range append(h.Cp(x.Id), x.Runes...) {
			sym.Assert(sym.And(r >= 'A', r <= 'Z'), "letters")
		}
		for j := 0; j < i; j++ {
			sym.Assert(sym.Not(h.Same(x.Id, k.Keys[j].Id)), "different IDs")
		}
	}
	sym.Reach("made")
}

func noLower(s []rune) bool {
	ok := true
	for _, r := range s {
		ok = sym.And(ok, sym.Not(sym.And(r >= 'a', r <= 'z')))
	}
	return ok
}

// C38_Call: a call-sign that is too short, or none, makes no store.
func C38_Call() {
	begin()
	call := string(h.Of([]rune("Az0 "), "call", sym.Choice("length", 4)))
	want := []rune(strings.ToUpper(strings.TrimSpace(call)))
	args := []string{"-l", "20", "-n", "1"}
	switch sym.Choice("given", 3) {
	case 0:
		args = append([]string{"init", "-c", call}, args...)
	case 1: // asked for
		args = append([]string{"init"}, args...)
		faultos.Terminal(true)
		survey.Answer = func(p lib.Prompt, response any) error {
			*response.(*string) = call
			return nil
		}
	case 2:
		args = []string{"init", "-y"}
		want = nil
	}
	code, _ := run(args...)
	ok := len(want) >= krypto431.MinimumCallSignLength
	sym.Assert((code == 0) == ok, "succeeds if and only if there is a call-sign")
	if !ok {
		sym.Assert(len(faultos.Paths()) == 0, "no store is written otherwise")
		sym.Reach("refused")
		return
	}
	k, err := load(path)
	sym.Assert(err == nil && h.Same(k.CallSign, want), "the call-sign")
	sym.Reach("made")
}

// C38_Asked: the settings are asked for if none is given, again until valid.
func C38_Asked() {
	begin()
	rnd.UseSome(3)
	typed := map[string][]string{"": {" op"}}
	// the answers to each question: the last is valid
	ask := func(name string, bad []string, good string) {
		if len(bad) > 0 && sym.Choice("bad "+name, 2) == 1 {
			typed[name] = append(typed[name], bad...)
		}
		typed[name] = append(typed[name], good)
	}
	group, length, n := 5, krypto431.DefaultKeyLength, sym.Choice("keys", 3)
	switch {
	case n > 0:
		ask("keys", []string{"-1", "1x"}, strconv.Itoa(n))
	default:
		ask("keys", nil, "")
	}
	var keepers [][]rune
	given := ""
	if s := sym.Choice("keepers", 5); s > 0 {
		al := []rune("aBo")
		x, y := h.Of(al, "keeper", 2), h.Of(al, "keeper", 1)
		given = string(x) + []string{"", ",", " ", " , ", ", XY  "}[s] + string(y) + "p"
		switch s {
		case 1, 2, 3:
			keepers = [][]rune{x, append(y, 'p')}
		case 4:
			keepers = [][]rune{x, []rune("XY"), append(y, 'p')}
		}
	}
	ask("keepers", nil, given)
	unix, ok := int64(0), true
	var args []string
	if sym.Choice("-x", 2) == 1 {
		args, unix = []string{"-x", "010203ZFEB30"}, 1896141780
	}
	switch sym.Choice("expire", 3) {
	case 0:
		ask("expire", nil, "")
	case 1:
		ask("expire", nil, " 010204ZFEB30 ")
		unix = 1896141840
	case 2:
		ask("expire", nil, "never")
		ok = n == 0
	}
	if sym.Choice("sizes", 2) == 1 {
		group, length = 3, 20
		ask("keylength", []string{"19", "a"}, "20")
		ask("groupsize", []string{"0", "-3"}, "3")
	} else {
		ask("keylength", nil, "")
		ask("groupsize", nil, "")
	}
	faultos.Terminal(true)
	survey.Answer = func(p lib.Prompt, response any) error {
		t := typed[survey.Asked]
		sym.Assert(len(t) > 0, "no question is asked again after a valid answer")
		*response.(*string), typed[survey.Asked] = t[0], t[1:]
		return nil
	}
	code, _ := run(append([]string{"init"}, args...)...)
	faultos.Terminal(false)
	sym.Assert((code == 0) == ok, "succeeds if and only if the answers are valid")
	if !ok {
		sym.Assert(len(faultos.Paths()) == 0, "no store is written otherwise")
		sym.Reach("refused")
		return
	}
	for _, q := range typed {
		sym.Assert(len(q) == 0, "a question is asked again until the answer is valid")
	}
	sym.Assert(faultos.Mode(path) == 0600 && others(path) == 0, "readable by the owner only")
	k, err := load(path)
	sym.Assert(err == nil && len(k.Keys) == n && len(k.Messages) == 0, "as many keys as asked for")
	sym.Assert(string(k.CallSign) == "OP" && k.GroupSize == group && k.KeyLength == length, "the settings")
	for i := range k.Keys {
		x := &k.Keys[i]
		sym.Assert(len(x.Id) == group && len(x.Runes) == (length+group-1)/group*group, "the size of the keys")
		if unix > 0 {
			sym.Assert(x.Expires.Time.Unix() == unix, "the expiry date")
		}
		for _, p := range keepers {
			own := h.Fold(p, []rune("OP"))
			in := false
			for _, y := range x.Keepers {
				in = sym.Or(in, h.Fold(p, y))
			}
			sym.Assert(sym.Iff(in, sym.Not(own)), "the keepers asked for but oneself")
		}
		for _, y := range x.Keepers {
			in := false
			for _, p := range keepers {
				in = sym.Or(in, h.Fold(p, y))
			}
			sym.Assert(sym.And(in, noLower(y)), "no other keepers")
		}
	}
	sym.Reach("made")
}
