package cmd

import (
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/term"
	"verif/sym"
)

// site is a station with the program and a store of its own.
type site struct {
	call, file, password string
	saw                  int // messages in its store
}

func (s *site) do(args ...string) (int, string) {
	return bare(append([]string{"-f", s.file, "-P", s.password}, args...)...)
}

// enters lets a station enter a radiogram and returns what is printed.
func (s *site) enters(text string) string {
	faultos.Terminal(false)
	faultos.Type(text)
	code, out := s.do("messages", "-n")
	sym.Assert(code == 0, "the message is entered")
	s.saw++
	return out
}

// made makes the store of a station.
func made(call, file, password string, more ...string) *site {
	s := &site{call: call, file: file, password: password}
	code, _ := s.do(append([]string{"init", "-y", "-c", call, "-l", "30"}, more...)...)
	sym.Assert(code == 0, "a store is made")
	return s
}

// shares makes n keys for the other stations at the first and gives them to
// each through a file.
func shares(a *site, n string, others ...*site) {
	faultos.Terminal(false)
	args := []string{"keys", "-n", n}
	for _, o := range others {
		args = append(args, "-k", o.call)
	}
	code, _ := a.do(args...)
	sym.Assert(code == 0, "keys are made")
	for _, o := range others {
		file := "/media/stick/" + o.file[len("/home/"):]
		faultos.Terminal(false)
		code, _ = a.do("keys", "-E", file, "-k", o.call)
		sym.Assert(code == 0, "keys are exported")
		faultos.Terminal(true)
		term.Typed = []string{a.password}
		code, _ = o.do("keys", "-I", file)
		sym.Assert(code == 0, "keys are imported")
		faultos.Terminal(false)
	}
}

// says sends a text from one station to others, which enter its traffic, and
// returns the keys of the message that are new in used.
func says(used map[string]bool, from *site, text []rune, to ...*site) {
	rg := ""
	for _, t := range to {
		rg += t.call + " "
	}
	out := from.enters(rg + "DE " + from.call + " 141312 = " + string(text) + " = K")
	i := strings.Index(out, "=TRAFFIC=EXAMPLE=")
	sym.Assert(i >= 0, "the message is shown with its traffic")
	traffic := out[i+len("=TRAFFIC=EXAMPLE="):]
	for _, t := range to {
		t.enters(traffic)
	}
	k, err := loadWith(from)
	sym.Assert(err == nil && len(k.Messages) == from.saw, "the sender's store has the message")
	sent := &k.Messages[from.saw-1]
	sym.Assert(h.Same(sent.PlainText, text), "and its text")
	sym.Assert(!used[string(sent.KeyId)], "no key is used for two messages")
	fresh := map[string]bool{}
	for i := range k.Keys {
		if id := string(k.Keys[i].Id); k.Keys[i].Used && !used[id] {
			fresh[id] = true
		}
	}
	sym.Assert(fresh[string(sent.KeyId)], "the key of the message is marked used by the sender")
	for _, t := range to {
		r, err := loadWith(t)
		sym.Assert(err == nil && len(r.Messages) == t.saw, "the receiver's store has the message")
		got := &r.Messages[t.saw-1]
		sym.Assert(h.Same(got.PlainText, text), "the receiver reads what was written")
		sym.Assert(h.Same(got.From, sent.From) && h.Same(got.KeyId, sent.KeyId) && h.Same(got.CipherText, sent.CipherText), "the same message")
		sym.Assert(h.Same2(got.Recipients, sent.Recipients), "with the same recipients")
		n := 0
		for i := range r.Keys {
			if fresh[string(r.Keys[i].Id)] {
				sym.Assert(r.Keys[i].Used, "the keys of the message are marked used by the receiver")
				n++
			}
		}
		sym.Assert(n == len(fresh), "and the receiver has all of them")
	}
	for id := range fresh {
		used[id] = true
	}
}

func loadWith(s *site) (*krypto431.Krypto431, error) {
	k := secret{password: s.password}.open()
	k.SetPersistence(s.file)
	err := k.Load()
	return k, err
}

// words is an arbitrary letter, letters and an arbitrary letter.
func words(name string, middle string) []rune {
	return append(append(h.Of([]rune("ABCDEFGHIJKLMNOP"), name, 1), []rune(middle)...), h.Of([]rune("ABCDEFGHIJKLMNOP"), name, 1)...)
}

// C45_Two: two stations, messages in both directions.
func C45_Two() {
	begin()
	sizes := []string{"2", "5"}
	g := sizes[sym.Choice("group size", 2)]
	a := made(string(h.Of([]rune("ABab"), "a", 1))+"1", "/home/a", "first", "-g", g, "-n", "1")
	b := made(string(h.Of([]rune("CDcd"), "b", 1))+"2", "/home/b", "second", "-g", g, "-n", "0")
	shares(a, "2", b)
	used := map[string]bool{}
	first, second := a, b
	if sym.Choice("who begins", 2) == 1 {
		first, second = b, a
	}
	says(used, first, words("text", "R. s"), second)
	if sym.Choice("answers", 2) == 1 {
		first, second = second, first
	}
	says(used, first, []rune("ROGER"), second)
	sym.Reach("exchanged")
}

// C45_Three: three stations with keys in common, everyone hears everyone.
func C45_Three() {
	begin()
	a := made("A0", "/home/a", "first", "-g", "3", "-n", "0")
	b := made("B/P", "/home/b", "second", "-g", "3", "-n", "1")
	c := made("C7", "/home/c", "third", "-g", "3", "-n", "0")
	shares(a, "3", b, c)
	used := map[string]bool{}
	all := []*site{a, b, c}
	text := words("text", "I")
	for i := 0; i < 2; i++ {
		n := sym.Choice("sender", 3)
		says(used, all[n], text, all[(n+1)%3], all[(n+2)%3])
		text = []rune("ROGER")
	}
	sym.Reach("exchanged")
}

// C45_Long: messages over several keys.
func C45_Long() {
	begin()
	a := made("A1", "/home/a", "first", "-g", "2", "-n", "0")
	b := made("B2", "/home/b", "second", "-g", "2", "-n", "0")
	shares(a, "4", b)
	used := map[string]bool{}
	first, second := a, b
	if sym.Choice("who begins", 2) == 1 {
		first, second = b, a
	}
	says(used, first, words("text", strings.Repeat("HELLO", sym.Choice("length", 6))), second)
	says(used, second, []rune("ROGER"), first)
	sym.Reach("exchanged")
}
