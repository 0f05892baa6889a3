package disk

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/sym"
)

func bytesCopy(p *[]byte) []byte {
	if p == nil {
		return nil
	}
	return append([]byte{}, *p...)
}

// holds tells whether p holds exactly b, or nothing if b is nil.
func holds(p *[]byte, b []byte) bool {
	if b == nil {
		return p == nil
	}
	if p == nil || len(*p) != len(b) {
		return false
	}
	ok := true
	for i := range b {
		ok = sym.And(ok, (*p)[i] == b[i])
	}
	return ok
}

func secret(name string, n int) *[]byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(name, 0, 255)
	}
	return &b
}

type snapshot struct {
	k         krypto431.Krypto431
	pfk, salt []byte
}

func snap(k *krypto431.Krypto431) snapshot {
	s := snapshot{pfk: bytesCopy(k.GetPFK()), salt: bytesCopy(k.GetSalt())}
	s.k.GroupSize, s.k.KeyLength, s.k.Columns, s.k.KeyColumns, s.k.CallSign = k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, h.Cp(k.CallSign)
	for i := range k.Keys {
		s.k.Keys = append(s.k.Keys, h.Snap(&k.Keys[i]))
	}
	for i := range k.Messages {
		m := k.Messages[i]
		m.Id, m.From, m.PlainText, m.KeyId, m.CipherText = h.Cp(m.Id), h.Cp(m.From), h.Cp(m.PlainText), h.Cp(m.KeyId), h.Cp(m.CipherText)
		m.Recipients, m.Binary = h.Cp2(m.Recipients), append([]byte(nil), m.Binary...)
		s.k.Messages = append(s.k.Messages, m)
	}
	return s
}

func (s *snapshot) intact(k *krypto431.Krypto431) bool {
	ok := sym.And(same(k, &s.k), sym.And(holds(k.GetPFK(), s.pfk), holds(k.GetSalt(), s.salt)))
	for i := range s.k.Keys {
		ok = sym.And(ok, h.Equal(&k.Keys[i], &s.k.Keys[i]))
	}
	return ok
}

// change writes to everything an instance holds.
func change(k *krypto431.Krypto431) {
	for i := range k.Keys {
		key := &k.Keys[i]
		for j := range key.Id {
			key.Id[j]++
		}
		for j := range key.Runes {
			key.Runes[j]++
		}
		for j := range key.Comment {
			key.Comment[j]++
		}
		for j := range key.Keepers {
			for l := range key.Keepers[j] {
				key.Keepers[j][l]++
			}
			key.Keepers[j] = []rune("X")
		}
		key.Runes = append(key.Runes[:0], 'X')
		key.Keepers = append(key.Keepers[:0], []rune("Y"))
		key.Used, key.Compromised = !key.Used, !key.Compromised
		key.Created, key.Expires = when(100), when(200)
	}
	for j := range k.CallSign {
		k.CallSign[j]++
	}
	for j := range *k.GetPFK() {
		(*k.GetPFK())[j]++
	}
	for j := range *k.GetSalt() {
		(*k.GetSalt())[j]++
	}
	k.GroupSize++
	k.Keys = append(k.Keys[:0], krypto431.Key{Id: []rune("ZZ")})
}

// exported exports some of n keys and checks the export.
func exported(n int, opts ...krypto431.Option) (*krypto431.Krypto431, *krypto431.Krypto431, snapshot, snapshot) {
	begin()
	k := store("k", n, 1, krypto431.WithPFK(secret("pfk", 32)), krypto431.WithSalt(secret("salt", 33)), krypto431.WithGroupSize(1+sym.Choice("groupsize", 3)),
		krypto431.WithKeyLength(7), krypto431.WithColumns(90), krypto431.WithKeyColumns(30), krypto431.WithInteractive(sym.Bool("interactive")), withOverwrite(sym.Bool("overwrite")))
	was := snap(k)
	var sel []bool
	for i := 0; i < n; i++ {
		sel = append(sel, sym.Fork(sym.Bool("select")))
	}
	calls := 0
	x := k.ExportKeys(func(key *krypto431.Key) bool {
		sym.Assert(calls < n && h.SameKey(key, &was.k.Keys[calls]), "each key is asked for once")
		calls++
		return sel[calls-1]
	}, opts...)
	sym.Assert(calls == n, "each key is asked for once")
	want := was
	want.k.Keys, want.k.Messages = nil, nil
	for i := range sel {
		if sel[i] {
			want.k.Keys = append(want.k.Keys, was.k.Keys[i])
		}
	}
	sym.Assert(was.intact(k), "exporting changes nothing in the source")
	sym.Assert(want.intact(&x), "exactly the selected keys with the same contents, settings, call-sign, salt and persistence key, no messages")
	return k, &x, was, want
}

func C17_Wipe() {
	k, x, was, want := exported(2)
	sym.Assert(x.GetPersistence() == "", "no file name of its own")
	if sym.Fork(sym.Bool("source")) {
		k.Wipe()
		sym.Assert(want.intact(x), "wiping the source leaves the export intact")
		sym.Reach("source wiped")
	} else {
		x.Wipe()
		sym.Assert(was.intact(k), "wiping the export leaves the source intact")
		sym.Reach("export wiped")
	}
}

func C17_Change() {
	k, x, was, want := exported(2, krypto431.WithPersistence("/home/op/export"))
	sym.Assert(x.GetPersistence() == "/home/op/export", "the file name given")
	if sym.Fork(sym.Bool("source")) {
		change(k)
		sym.Assert(want.intact(x), "changing the source leaves the export intact")
		sym.Reach("source changed")
	} else {
		change(x)
		sym.Assert(was.intact(k), "changing the export leaves the source intact")
		sym.Reach("export changed")
	}
}

func C17_WipeKey() {
	k, x, was, want := exported(1)
	if len(x.Keys) == 0 {
		return
	}
	if sym.Fork(sym.Bool("source")) {
		k.Keys[0].Wipe()
		sym.Assert(want.intact(x), "wiping a key of the source leaves the export intact")
		sym.Reach("source wiped")
	} else {
		x.Keys[0].Wipe()
		sym.Assert(was.intact(k), "wiping a key of the export leaves the source intact")
		sym.Reach("export wiped")
	}
}

// C17_File saves the export, wipes everything and loads it.
func C17_File() {
	k, x, _, want := exported(2, krypto431.WithPersistence("/home/op/export"))
	pfk := bytesCopy(k.GetPFK())
	sym.Assert(x.Save() == nil, "the export can be saved")
	if sym.Fork(sym.Bool("wipe source")) {
		k.Wipe()
	}
	x.Wipe()
	ps := faultos.Paths()
	sym.Assert(len(ps) == 1 && ps[0] == "/home/op/export", "the main store is not written")
	l, err := load("/home/op/export", &pfk)
	sym.Assert(err == nil, "and loaded")
	sym.Assert(same(l, &want.k), "with the selected keys")
	sym.Reach("loaded")
}

// C17_NoSecrets has neither persistence key nor salt.
func C17_NoSecrets() {
	begin()
	opts := []krypto431.Option{krypto431.WithPFK(nil)}
	if sym.Fork(sym.Bool("nosalt")) {
		opts = append(opts, krypto431.WithSalt(nil))
	}
	k := store("k", 1, 0, opts...)
	x := k.ExportKeys(func(*krypto431.Key) bool { return true })
	sym.Assert(holds(x.GetPFK(), bytesCopy(k.GetPFK())), "no persistence key comes from nowhere")
	sym.Assert(holds(x.GetSalt(), bytesCopy(k.GetSalt())), "no salt comes from nowhere")
	sym.Assert(x.GetPFKString() == "", "no persistence key")
	sym.Reach("exported")
}

// C17_Options overrides what is copied.
func C17_Options() {
	begin()
	k := store("k", 1, 0)
	was := snap(k)
	key := *secret("other", 32)
	x := k.ExportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPFK(&key), krypto431.WithCallSign("XX"), krypto431.WithGroupSize(4))
	sym.Assert(holds(x.GetPFK(), append([]byte(nil), key...)) && string(x.CallSign) == "XX" && x.GroupSize == 4, "options override")
	sym.Assert(was.intact(k), "but not in the source")
	sym.Reach("exported")
}
