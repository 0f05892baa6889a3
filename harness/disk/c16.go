package disk

import (
	"errors"

	"github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	sims "verif/harness/sim/survey"
	"verif/sym"
)

const inPath = "/home/op/incoming"

type scenario struct {
	own, in   int    // keys on either side
	groupsize int    // own
	idlen     []int  // lengths of incoming IDs
	keepers   int    // of an incoming key
	call      []rune // of the exporting station
	mine      []rune // own call-sign
	opts      []krypto431.Option
	overwrite bool // expected for all conflicts
	ask       func(conflict int) (yes bool, err error)
}

func letters(al string, name string, n int) []rune { return h.Of([]rune(al), name, n) }

func imports(s scenario) {
	begin()
	in := krypto431.New(krypto431.WithPersistence(inPath), krypto431.WithPFK(pfk(50)), krypto431.WithGroupSize(4))
	in.CallSign = h.Cp(s.call)
	for i := 0; i < s.in; i++ {
		key := krypto431.Key{Id: letters("ABC", "inid", s.idlen[i]), Runes: h.Letters("in", 2), Created: when(5), Expires: when(6 + i),
			Used: sym.Bool("inused"), Compromised: sym.Bool("incompromised"), Comment: h.Of([]rune("xY"), "incomment", 1)}
		for j := 0; j < s.keepers; j++ {
			key.Keepers = append(key.Keepers, letters("ABab", "inkeeper", 1))
		}
		for j := 0; j < i; j++ {
			sym.Assume(sym.Not(h.Same(key.Id, in.Keys[j].Id)))
		}
		key.SetInstance(&in)
		in.Keys = append(in.Keys, key)
	}
	sym.Assert(in.Save() == nil, "saves")
	file, _ := faultos.Get(inPath)
	was := snap(&in)

	k := store("k", 0, 1, s.opts...)
	k.GroupSize, k.CallSign = s.groupsize, h.Cp(s.mine)
	for i := 0; i < s.own; i++ {
		key := krypto431.Key{Id: letters("ABC", "id", s.groupsize), Runes: h.Letters("own", 2), Keepers: [][]rune{letters("AB", "keeper", 1)}, Created: when(1), Expires: when(2),
			Used: sym.Bool("used"), Compromised: sym.Bool("compromised"), Comment: []rune("c")}
		for j := 0; j < i; j++ {
			sym.Assume(sym.Not(h.Same(key.Id, k.Keys[j].Id)))
		}
		key.SetInstance(k)
		k.Keys = append(k.Keys, key)
	}
	mine := snap(k)

	var sel []bool
	for i := 0; i < s.in; i++ {
		sel = append(sel, sym.Fork(sym.Bool("select")))
	}
	asked, failed := 0, false
	var answers []bool
	sims.Answer = func(p survey.Prompt, response any) error {
		sym.Assert(s.ask != nil, "nobody is asked when nobody can be")
		yes, err := s.ask(asked)
		asked++
		answers = append(answers, yes)
		failed = failed || err != nil
		if err == nil {
			*response.(*bool) = yes
		}
		return err
	}
	n, err := k.ImportKeys(func(key *krypto431.Key) bool {
		for i := range was.k.Keys {
			if h.Same(key.Id, was.k.Keys[i].Id) {
				sym.Assert(h.Equal(key, &was.k.Keys[i]), "the filter sees the incoming key")
				return sel[i]
			}
		}
		sym.Assert(false, "the filter sees incoming keys only")
		return false
	}, append([]krypto431.Option{krypto431.WithPersistence(inPath), krypto431.WithPFK(pfk(50))}, s.opts...)...)
	sym.Assert((err != nil) == failed, "an error is reported if and only if the user interrupts")
	after, _ := faultos.Get(inPath)
	sym.Assert(string(after) == string(file), "the imported file is not changed")

	// what is expected
	replaced := make([]bool, s.own)
	added, conflicts, stop := 0, 0, false
	for i := 0; i < s.in && !stop; i++ {
		x := &was.k.Keys[i]
		if !sel[i] || len(x.Id) != s.groupsize {
			sym.Assert(sym.Or(!k.ContainsKeyId(&x.Id), h.Has(x.Id, ids(mine.k.Keys))), "keys not selected or of another ID length are not imported")
			continue
		}
		take := true
		for j := range mine.k.Keys {
			if h.Same(mine.k.Keys[j].Id, x.Id) {
				take = s.overwrite
				if s.ask != nil && !s.overwrite {
					if conflicts >= len(answers) {
						stop = true
					} else {
						take = answers[conflicts]
					}
					conflicts++
				}
				if stop || failed && conflicts == len(answers) {
					take, stop = false, true
				}
				replaced[j] = take
			}
		}
		if !take {
			continue
		}
		added++
		found := 0
		for l := range k.Keys {
			y := &k.Keys[l]
			if !h.Same(y.Id, x.Id) {
				continue
			}
			found++
			sym.Assert(h.SameKey(x, y) && x.Created.Time.Equal(y.Created.Time) && x.Expires.Time.Equal(y.Expires.Time), "a faithful copy")
			sym.Assert(y.GetInstance() == k, "the key belongs to the instance")
			sym.Assert(!h.In(s.mine, y.Keepers), "the own call-sign is removed from the keepers")
			for _, w := range x.Keepers {
				if !h.Fold(w, s.mine) {
					sym.Assert(h.Has(w, y.Keepers), "the keepers remain")
				}
			}
			if len(s.call) > 0 && !h.Fold(s.call, s.mine) {
				sym.Assert(h.In(s.call, y.Keepers), "the exporting station is a keeper")
			}
			for _, w := range y.Keepers {
				sym.Assert(h.Has(w, x.Keepers) || h.Same(w, s.call), "no other keeper")
				sym.Assert(len(w) > 0, "no nameless keeper")
			}
			sym.Assert(len(y.Keepers) <= len(x.Keepers)+1, "the exporting station once")
		}
		sym.Assert(found == 1, "every imported key is there once")
	}
	sym.Assert(s.ask == nil || s.overwrite || asked == conflicts, "one question for each conflict")
	sym.Assert(n == added, "the number of imported keys is returned")
	gone := 0
	for j := range mine.k.Keys {
		if replaced[j] {
			gone++
			continue
		}
		found := 0
		for l := range k.Keys {
			if h.Same(k.Keys[l].Id, mine.k.Keys[j].Id) {
				found++
				sym.Assert(h.Equal(&k.Keys[l], &mine.k.Keys[j]), "every other key is unchanged")
			}
		}
		sym.Assert(found == 1, "every other key is there once")
	}
	sym.Assert(len(k.Keys) == s.own-gone+added, "nothing else is added or lost")
	mine.k.Keys = nil
	keys := k.Keys
	k.Keys = nil
	sym.Assert(mine.intact(k), "settings, messages, persistence key and salt are unchanged")
	k.Keys = keys
	if added > 0 {
		sym.Reach("imported")
	}
	if conflicts > 0 || gone > 0 {
		sym.Reach("opt:conflict")
	}
}

func ids(keys []krypto431.Key) (out [][]rune) {
	for i := range keys {
		out = append(out, keys[i].Id)
	}
	return
}

func C16_Import() {
	imports(scenario{own: 2, in: 2, groupsize: 2, idlen: []int{2, 1 + sym.Choice("idlen", 3)}, keepers: 1, call: []rune("B"), mine: []rune("A")})
}

func C16_Overwrite() {
	imports(scenario{own: 2, in: 2, groupsize: 1, idlen: []int{1, 1}, keepers: 1, call: []rune("B"), mine: []rune("A"), overwrite: true,
		opts: []krypto431.Option{krypto431.WithOverwriteExistingKeysOnImport(true)}})
}

func C16_Keepers() {
	imports(scenario{own: 0, in: 1, groupsize: 1, idlen: []int{1}, keepers: sym.Choice("keepers", 4), call: letters("ABab", "call", sym.Choice("calllen", 2)), mine: letters("AB", "mine", 1)})
}

func C16_Ask() {
	var stop = sym.Choice("interrupt", 4)
	s := scenario{own: 2, in: 2, groupsize: 1, idlen: []int{1, 1}, keepers: 0, call: []rune("B"), mine: []rune("A"),
		opts: []krypto431.Option{krypto431.WithInteractive(true)}}
	s.ask = func(i int) (bool, error) {
		if i == stop {
			return false, errors.New("interrupt")
		}
		return sym.Fork(sym.Bool("yes")), nil
	}
	terminal = true
	imports(s)
	terminal = false
}

// C16_OnlyOption enables overwriting for one import only, as documented.
func C16_OnlyOption() {
	begin()
	in := store("in", 1, 0, krypto431.WithPersistence(inPath))
	sym.Assert(in.Save() == nil, "saves")
	k := store("k", 0, 0)
	k.Keys = append(k.Keys, key(k, "own"))
	k.Keys[0].Id = h.Cp(in.Keys[0].Id)
	was := snap(k)
	opts := []krypto431.Option{krypto431.WithPersistence(inPath), krypto431.WithPFK(pfk(1))}
	overwrite := sym.Fork(sym.Bool("overwrite"))
	if overwrite {
		opts = append(opts, krypto431.WithOverwriteExistingKeysOnImport(true))
	}
	n, err := k.ImportKeys(func(*krypto431.Key) bool { return true }, opts...)
	sym.Assert(err == nil && len(k.Keys) == 1, "imports")
	if overwrite {
		sym.Assert(n == 1 && h.SameKey(&k.Keys[0], &in.Keys[0]), "the key is replaced when overwriting is enabled")
		sym.Reach("replaced")
	} else {
		sym.Assert(n == 0 && was.intact(k), "the key is left alone otherwise")
		sym.Reach("kept")
	}
}

// C16_OwnSecrets imports with the own persistence key and salt, as documented.
func C16_OwnSecrets() {
	begin()
	in := store("in", 1, 0, krypto431.WithPersistence(inPath))
	sym.Assert(in.Save() == nil, "saves")
	k := store("k", 1, 0)
	sym.Assume(sym.Not(h.Same(k.Keys[0].Id, in.Keys[0].Id)))
	was := snap(k)
	n, err := k.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(inPath), krypto431.WithPFK(k.GetPFK()), krypto431.WithSalt(k.GetSalt()))
	sym.Assert(err == nil && n == 1, "imports")
	k.Keys, n = k.Keys[:1], len(k.Keys)
	sym.Assert(n == 2 && was.intact(k), "own keys, persistence key and salt stay intact")
	sym.Assert(k.Save() == nil, "the store can be saved")
	sym.Reach("imported")
}

// C16_Unreadable cannot load the file.
func C16_Unreadable() {
	begin()
	in := store("in", 1, 0, krypto431.WithPersistence(inPath))
	sym.Assert(in.Save() == nil, "saves")
	k := store("k", 1, 0)
	was := snap(k)
	opts := []krypto431.Option{krypto431.WithPersistence(inPath)}
	switch sym.Choice("how", 4) {
	case 1:
		opts = append(opts, krypto431.WithPFK(pfk(2)))
	case 2:
		opts = []krypto431.Option{krypto431.WithPersistence("/home/op/none"), krypto431.WithPFK(pfk(1))}
	case 3:
		opts = []krypto431.Option{krypto431.WithPersistence(""), krypto431.WithPFK(pfk(1))}
	}
	n, err := k.ImportKeys(func(*krypto431.Key) bool { return true }, opts...)
	sym.Assert(err != nil && n == 0, "an unreadable file is an error")
	sym.Assert(was.intact(k), "nothing is changed")
	sym.Reach("refused")
}
