package cmd

import (
	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/sym"
)

func addMessage(k *krypto431.Krypto431, id, from []rune, to ...[]rune) {
	m := krypto431.Message{Id: id, From: from, Recipients: to, DTG: days(-1), PlainText: []rune("TEXT"), KeyId: []rune("ZZ")}
	m.SetInstance(k)
	k.Messages = append(k.Messages, m)
}

// messages runs a command on a store of two messages with any ID, sender and
// recipients and decides which messages it must act on.
func messages(maxids, maxto, nrec int, act func(k *krypto431.Krypto431, args []string, want []bool)) {
	begin()
	k := open()
	al := []rune("ABab")
	for i := 0; i < 2; i++ {
		var to [][]rune
		n := 1
		if nrec > 1 {
			n = sym.Choice("recipients", nrec+1-i)
		}
		for j := n; j > 0; j-- {
			to = append(to, h.Of([]rune("AB"), "recipient", 1))
		}
		addMessage(k, h.Of(al, "id", 2), h.Of([]rune("AB"), "from", 1), to...)
	}
	sym.Assume(sym.Not(h.Same(k.Messages[0].Id, k.Messages[1].Id)))
	sym.Assert(k.Save() == nil, "saves")
	var args []string
	list := func(opt string, l [][]rune) {
		if len(l) == 2 {
			if sep := sym.Choice("separator", 3); sep > 0 {
				args = append(args, opt, string(l[0])+[]string{"", ",", " "}[sep]+string(l[1]))
				return
			}
		}
		for _, x := range l {
			args = append(args, opt, string(x))
		}
	}
	some := func(opt string, width, max int) (l [][]rune) {
		for n := sym.Choice(opt, max+1); n > 0; n-- {
			l = append(l, h.Of(al, opt, width))
		}
		list(opt, l)
		return
	}
	ids := some("-i", 2, maxids)
	to := some("-t", 1, maxto)
	max := 1
	if len(to) == 0 && len(ids) == 0 {
		max = 2
	}
	from := some("-f", 1, max)
	all, or := false, false
	switch sym.Choice("option", 3) {
	case 1:
		all, args = true, append(args, "--all")
	case 2:
		or, args = true, append(args, "--or")
	}
	want := make([]bool, 2)
	for i := range want {
		msg := &k.Messages[i]
		switch {
		case all:
			want[i] = true
		case len(ids) > 0:
			for _, w := range ids {
				want[i] = sym.Or(want[i], h.Same(w, msg.Id))
			}
		default:
			any, every, by := false, true, false
			for _, w := range to {
				in := false
				for _, x := range msg.Recipients {
					in = sym.Or(in, h.Fold(w, x))
				}
				any, every = sym.Or(any, in), sym.And(every, in)
			}
			if or {
				every = sym.Or(any, len(to) == 0)
			}
			for _, w := range from {
				by = sym.Or(by, h.Fold(w, msg.From))
			}
			want[i] = sym.And(every, sym.Or(by, len(from) == 0))
		}
		want[i] = sym.Fork(want[i])
	}
	act(k, args, want)
	sym.Reach("done")
}

func count(b []bool) (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return
}

func listed(maxids, maxto, nrec int) {
	messages(maxids, maxto, nrec, func(k *krypto431.Krypto431, args []string, want []bool) {
		code, out := run(append([]string{"messages", "-l"}, args...)...)
		sym.Assert(code == 0, "succeeds")
		l := lines(out)
		if count(want) == 0 {
			sym.Assert(len(l) == 0, "nothing is listed when nothing is selected")
			return
		}
		sym.Assert(len(l) == 3+count(want), "a line for each selected message")
		j := 3
		for i := range want {
			if want[i] {
				sym.Assert(l[j][:3] == string(k.Messages[i].Id)+" ", "the selected messages")
				j++
			}
		}
	})
}

func C26_Ids()      { listed(2, 1, 1) }
func C26_Criteria() { listed(0, 2, 2) }

func C26_Print() {
	messages(1, 1, 1, func(k *krypto431.Krypto431, args []string, want []bool) {
		text := ""
		for i := range want {
			if want[i] {
				text += k.Messages[i].String() + krypto431.LineBreak
			}
		}
		code, _ := run(append([]string{"messages", "-o", "/home/op/m.txt"}, args...)...)
		b, ok := faultos.Get("/home/op/m.txt")
		if count(want) == 0 {
			sym.Assert(code != 0 && !ok, "an empty selection is not printed")
			return
		}
		sym.Assert(code == 0 && ok && string(b) == text, "the sheets of the selected messages")
	})
}

// C26_Delete removes messages: those chosen out of the selected ones, or those
// listed by ID without asking.
func C26_Delete() {
	begin()
	k := open()
	ids := []string{"AaBb", "aaBb"}
	for i, id := range ids {
		addMessage(k, []rune(id), []rune([]string{"FR", "GR"}[i]), h.Of([]rune("AB"), "recipient", 1))
	}
	sym.Assert(k.Save() == nil, "saves")
	var args []string
	var gone [2]bool
	if sym.Choice("ask", 2) == 1 {
		faultos.Terminal(true)
		selected := []int{0, 1}
		switch sym.Choice("criteria", 4) {
		case 1:
			args, selected = []string{"-f", "gr"}, []int{1}
		case 2:
			args, selected = []string{"-i", "AaBb"}, []int{0}
		case 3:
			args, selected = []string{"-t", "A"}, nil
			for i := range ids {
				if sym.Fork(k.Messages[i].Recipients[0][0] == 'A') {
					selected = append(selected, i)
				}
			}
		}
		survey.Answer = func(p lib.Prompt, response any) error {
			m, ok := p.(*lib.MultiSelect)
			sym.Assert(ok && len(m.Options) == len(selected), "the selected messages are offered")
			var chosen []string
			for j, i := range selected {
				sym.Assert(m.Options[j][:5] == ids[i]+" ", "the selected messages are offered")
				if sym.Fork(sym.Bool("choose")) {
					chosen = append(chosen, m.Options[j])
					gone[i] = true
				}
			}
			*response.(*[]string) = chosen
			return nil
		}
	} else {
		args = append(args, "-y")
		for i := range ids {
			if sym.Choice("-i", 2) == 1 {
				args, gone[i] = append(args, "-i", ids[i]), true
			}
		}
	}
	code, _ := run(append([]string{"messages", "-d"}, args...)...)
	sym.Assert(code == 0, "succeeds")
	got, err := load(path)
	sym.Assert(err == nil, "the store can be loaded")
	n := 0
	for i := range ids {
		at := -1
		for j := range got.Messages {
			if string(got.Messages[j].Id) == ids[i] {
				at = j
			}
		}
		sym.Assert((at < 0) == gone[i], "exactly the chosen messages are deleted")
		if at >= 0 {
			sym.Assert(h.Same(got.Messages[at].PlainText, []rune("TEXT")), "the other messages are unchanged")
			n++
		}
	}
	sym.Assert(len(got.Messages) == n, "nothing else")
	sym.Reach("done")
}
