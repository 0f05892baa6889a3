package disk

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/sim/faultos"
	"verif/sym"
)

func C35_RoundTrip() {
	begin()
	k := store("k", sym.Choice("keys", 3), sym.Choice("messages", 3))
	err := k.Save()
	sym.Assert(err == nil, "saves")
	l, err := load(path, pfk(1))
	sym.Assert(err == nil, "loads")
	sym.Assert(same(k, l), "the loaded store equals the saved one")
	for i := range l.Keys {
		sym.Assert(l.Keys[i].GetInstance() == l, "the keys belong to the instance")
	}
	sym.Reach("loaded")
}

// C35_Again loads into an instance that holds something else.
func C35_Again() {
	begin()
	k := store("k", sym.Choice("keys", 3), sym.Choice("messages", 2))
	sym.Assert(k.Save() == nil, "saves")
	l := store("l", sym.Choice("others", 3), sym.Choice("othermessages", 2))
	l.GroupSize, l.CallSign = 3, []rune("OTHER")
	err := l.Load()
	sym.Assert(err == nil, "loads")
	sym.Assert(same(k, l), "the loaded store equals the saved one")
	sym.Reach("loaded")
}

// C35_Settings: any settings, loaded into an instance that has any others.
func C35_Settings() {
	begin()
	k := store("k", 1, 0)
	k.GroupSize, k.KeyLength = sym.Int("group", 1, 99), sym.Int("length", 1, 9999)
	k.Columns, k.KeyColumns = sym.Int("columns", 0, 300), sym.Int("keycolumns", 0, 300)
	sym.Assert(k.Save() == nil, "saves")
	l := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk(1)))
	l.GroupSize, l.KeyLength = sym.Int("othergroup", 1, 99), sym.Int("otherlength", 1, 9999)
	l.Columns, l.KeyColumns = sym.Int("othercolumns", 0, 300), sym.Int("otherkeycolumns", 0, 300)
	sym.Assert(l.Load() == nil, "loads")
	sym.Assert(same(k, &l), "the loaded store equals the saved one")
	sym.Reach("loaded")
}

// C35_Edited saves, loads, changes and saves again.
func C35_Edited() {
	begin()
	k := store("k", 2, 1)
	sym.Assert(k.Save() == nil, "saves")
	l, err := load(path, pfk(1))
	sym.Assert(err == nil, "loads")
	if sym.Fork(sym.Bool("drop")) {
		l.Keys = l.Keys[:1]
	}
	l.Keys[0].Used = sym.Bool("now used")
	l.Keys[0].Runes = l.Keys[0].Runes[:2]
	if sym.Fork(sym.Bool("add")) {
		l.Messages = append(l.Messages, message(l, "n"))
	}
	err = l.Save()
	sym.Assert(err == nil, "a loaded store can be saved again")
	m, err := load(path, pfk(1))
	sym.Assert(err == nil, "loads again")
	sym.Assert(same(l, m), "the loaded store equals the saved one")
	sym.Reach("loaded")
}

func C35_WrongKey() {
	begin()
	k := store("k", 1, 0)
	sym.Assert(k.Save() == nil, "saves")
	other := make([]byte, 32)
	eq := true
	for i := range other {
		other[i] = sym.Byte("key", 0, 255)
		eq = sym.And(eq, other[i] == (*pfk(1))[i])
	}
	l, err := load(path, &other)
	sym.Assert(sym.Iff(err == nil, eq), "loads exactly with the key it was saved with")
	if err != nil {
		sym.Assert(len(l.Keys) == 0 && len(l.Messages) == 0, "nothing is read with a wrong key")
		sym.Reach("refused")
	} else {
		sym.Reach("loaded")
	}
}

// altered loads a damaged file.
func altered(f func(data []byte) []byte) {
	begin()
	k := store("k", 1, 1)
	sym.Assert(k.Save() == nil, "saves")
	data, _ := faultos.Get(path)
	faultos.Put(path, f(data), 0o600)
	l, err := load(path, pfk(1))
	if err == nil {
		sym.Assert(same(k, l), "an altered file does not load as something else")
		sym.Reach("opt:loaded")
	} else {
		sym.Reach("refused")
	}
}

func C35_Altered() {
	altered(func(data []byte) []byte {
		b := sym.Choice("bit", 8)
		i := sym.Choice("pos", 400)
		sym.Assume(i < len(data))
		data[i] ^= 1 << b
		return data
	})
}

func C35_Cut() {
	altered(func(data []byte) []byte {
		i := sym.Choice("pos", 400)
		sym.Assume(i < len(data))
		return data[:i]
	})
}

func C35_Removed() {
	altered(func(data []byte) []byte {
		i, n := sym.Choice("pos", 400), 1+sym.Choice("n", 3)
		sym.Assume(i+n <= len(data))
		return append(data[:i:i], data[i+n:]...)
	})
}
