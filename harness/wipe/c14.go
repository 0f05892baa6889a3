// Package wipe decides C14 by self-composition: the same wipe is run on two
// arbitrary secrets of the same shape with the same random source; memory that
// held them must not differ afterwards.
package wipe

import (
	"crypto/rand"
	"errors"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/sym"
)

// tape is an arbitrary source that answers the second run as the first: it
// fails from read Ok on, having delivered Part bytes of what was asked.
type tape struct {
	bytes    []byte
	at       int
	ok, part int
	reads    int
}

var errTape = errors.New("random source failed")

func (t *tape) Read(p []byte) (int, error) {
	n := len(p)
	var err error
	if t.reads >= t.ok {
		err = errTape
		if n > t.part {
			n = t.part
		}
	}
	t.reads++
	for i := 0; i < n; i++ {
		if t.at == len(t.bytes) {
			t.bytes = append(t.bytes, sym.Byte("rnd", 0, 255))
		}
		p[i] = t.bytes[t.at]
		t.at++
	}
	return n, err
}

// source chooses how many reads succeed and how many bytes the failing one delivers.
func source(reads int) *tape {
	t := &tape{ok: sym.Choice("reads that succeed", reads+1)}
	if t.ok == reads {
		t.ok = 1 << 30
		sym.Reach("source works")
	} else {
		t.part = sym.Choice("bytes of the failing read", 2)
		sym.Reach("opt:source fails")
	}
	return t
}

func (t *tape) use() {
	t.at, t.reads = 0, 0
	rand.Reader = t
}

// residue is memory seen through aliases taken before the wipe.
type residue struct {
	runes [][]rune
	bytes [][]byte
}

func (r *residue) add(x ...[]rune)  { r.runes = append(r.runes, x...) }
func (r *residue) addb(x ...[]byte) { r.bytes = append(r.bytes, x...) }

// twice runs a wipe on two secrets and compares what is left of them.
func twice(t *tape, run func() *residue) {
	t.use()
	a := run()
	t.use()
	b := run()
	for i := range a.runes {
		sym.ObserveRunes("left", a.runes[i])
		for j := range a.runes[i] {
			sym.Assert(a.runes[i][j] == b.runes[i][j], "wiped memory does not depend on what it held")
		}
	}
	for i := range a.bytes {
		for j := range a.bytes[i] {
			sym.Assert(a.bytes[i][j] == b.bytes[i][j], "wiped memory does not depend on what it held")
		}
	}
	sym.Reach("wiped")
}

func secret(n int) []rune {
	s := make([]rune, n)
	for i := range s {
		s[i] = sym.Rune("secret", 0, 0x10FFFF)
	}
	return s
}

func secretBytes(n int) []byte {
	s := make([]byte, n)
	for i := range s {
		s[i] = sym.Byte("secretbyte", 0, 255)
	}
	return s
}

func gone(s []rune) bool { return len(s) == 0 }

func wipes(reads int, wipe func(*[]rune) error) {
	n := sym.Choice("length", 5)
	t := source(reads)
	twice(t, func() *residue {
		s := secret(n)
		var r residue
		r.add(s)
		wipe(&s)
		sym.Assert(gone(s), "the slice no longer refers to the memory")
		return &r
	})
}

func C14_Slice()       { wipes(1, krypto431.Wipe) }
func C14_RandomSlice() { wipes(1, krypto431.RandomWipe) }
func C14_ZeroSlice()   { wipes(0, krypto431.ZeroWipe) }

func wipesBytes(reads int, wipe func(*[]byte) error) {
	n := sym.Choice("length", 5)
	t := source(reads)
	twice(t, func() *residue {
		s := secretBytes(n)
		var r residue
		r.addb(s)
		wipe(&s)
		sym.Assert(len(s) == 0, "the slice no longer refers to the memory")
		return &r
	})
}

func C14_Bytes()       { wipesBytes(1, krypto431.WipeBytes) }
func C14_RandomBytes() { wipesBytes(1, krypto431.RandomWipeBytes) }
func C14_ZeroBytes()   { wipesBytes(0, krypto431.ZeroWipeBytes) }

// A nil pointer is an error, not a crash.
func C14_Nil() {
	sym.Assert(krypto431.Wipe(nil) != nil && krypto431.RandomWipe(nil) != nil && krypto431.ZeroWipe(nil) != nil, "an error")
	sym.Assert(krypto431.WipeBytes(nil) != nil && krypto431.RandomWipeBytes(nil) != nil && krypto431.ZeroWipeBytes(nil) != nil, "an error")
	sym.Reach("nil")
}

// shape of the secrets of a key.
type shape struct{ id, runes, comment, keepers, keeper int }

func anyShape() shape {
	return shape{sym.Choice("idlen", 3), sym.Choice("keylen", 4), sym.Choice("commentlen", 3), sym.Choice("keepers", 3), 2}
}

func (s shape) key(r *residue) krypto431.Key {
	k := krypto431.Key{Id: secret(s.id), Runes: secret(s.runes), Comment: secret(s.comment)}
	for i := 0; i < s.keepers; i++ {
		k.Keepers = append(k.Keepers, secret(s.keeper))
	}
	r.add(k.Id, k.Runes, k.Comment)
	r.add(k.Keepers...)
	return k
}

func keyGone(k *krypto431.Key) bool {
	ok := gone(k.Id) && gone(k.Runes) && gone(k.Comment)
	for _, x := range k.Keepers {
		ok = ok && gone(x)
	}
	return ok
}

func keys(reads int, wipe func(*krypto431.Key) error) {
	s := anyShape()
	t := source(reads)
	twice(t, func() *residue {
		var r residue
		k := s.key(&r)
		err := wipe(&k)
		sym.Assert(err == nil, "no error")
		sym.Assert(keyGone(&k), "the key no longer refers to the memory")
		return &r
	})
}

func C14_Key()       { keys(5, (*krypto431.Key).Wipe) }
func C14_KeyRandom() { keys(5, (*krypto431.Key).RandomWipe) }
func C14_KeyZero()   { keys(0, (*krypto431.Key).ZeroWipe) }

type mshape struct{ plain, cipher, key, radio, binary int }

func anyMShape() mshape {
	return mshape{sym.Choice("plain", 3), sym.Choice("cipher", 3), sym.Choice("key", 3), sym.Choice("radiogram", 3), sym.Choice("binary", 3)}
}

func (s mshape) message(r *residue) krypto431.Message {
	m := krypto431.Message{Id: []rune("ab"), PlainText: secret(s.plain), CipherText: secret(s.cipher), KeyId: secret(s.key), Radiogram: secret(s.radio), Binary: secretBytes(s.binary)}
	r.add(m.PlainText, m.CipherText, m.KeyId, m.Radiogram)
	r.addb(m.Binary)
	return m
}

func messageGone(m *krypto431.Message) bool {
	return gone(m.PlainText) && gone(m.CipherText) && gone(m.KeyId) && gone(m.Radiogram) && len(m.Binary) == 0
}

func messages(reads int, wipe func(*krypto431.Message)) {
	s := anyMShape()
	t := source(reads)
	twice(t, func() *residue {
		var r residue
		m := s.message(&r)
		wipe(&m)
		sym.Assert(messageGone(&m), "the message no longer refers to the memory")
		return &r
	})
}

func C14_Message()       { messages(5, (*krypto431.Message).Wipe) }
func C14_MessageRandom() { messages(5, (*krypto431.Message).RandomWipe) }
func C14_MessageZero()   { messages(0, (*krypto431.Message).ZeroWipe) }

// A whole instance: all keys, all messages, persistence key and salt.
func instance(wipe func(*krypto431.Krypto431)) {
	nk, nm := sym.Choice("keys", 3), sym.Choice("messages", 3)
	withKey, withSalt := sym.Fork(sym.Bool("pfk")), sym.Fork(sym.Bool("salt"))
	t := source(nk*4 + nm*5 + 2)
	twice(t, func() *residue {
		var r residue
		k := krypto431.New()
		if withKey {
			b := secretBytes(32)
			r.addb(b)
			krypto431.WithPFK(&b)(&k)
		}
		if withSalt {
			b := secretBytes(32)
			r.addb(b)
			krypto431.WithSalt(&b)(&k)
		}
		for i := 0; i < nk; i++ {
			k.Keys = append(k.Keys, shape{2, 2, 1, 1, 1}.key(&r))
		}
		for i := 0; i < nm; i++ {
			k.Messages = append(k.Messages, mshape{2, 1, 1, 1, 1}.message(&r))
		}
		wipe(&k)
		sym.Assert(len(k.Keys) == 0 && len(k.Messages) == 0, "nothing is left in the instance")
		sym.Assert(k.GetPFK() == nil || len(*k.GetPFK()) == 0, "no persistence key is left")
		sym.Assert(k.GetSalt() == nil || len(*k.GetSalt()) == 0, "no salt is left")
		return &r
	})
}

func C14_Instance() { instance((*krypto431.Krypto431).Wipe) }
func C14_Close()    { instance((*krypto431.Krypto431).Close) }

// A deleted key or message is wiped; the ones moved into its place are not.
func C14_DeleteKey() {
	n := 1 + sym.Choice("keys", 3)
	d := sym.Choice("deleted", n)
	t := source(3)
	ids := [][]rune{[]rune("AA"), []rune("BB"), []rune("CC")}
	twice(t, func() *residue {
		var r, other residue
		k := krypto431.New()
		for i := 0; i < n; i++ {
			x := &other
			if i == d {
				x = &r
			}
			key := shape{0, 2, 1, 1, 1}.key(x)
			key.Id = h.Cp(ids[i])
			k.Keys = append(k.Keys, key)
		}
		m, err := k.DeleteKey(ids[d])
		sym.Assert(m == 1 && err == nil && len(k.Keys) == n-1, "deleted")
		return &r
	})
}

func C14_DeleteMessage() {
	n := 1 + sym.Choice("messages", 3)
	d := sym.Choice("deleted", n)
	t := source(4)
	ids := [][]rune{[]rune("AA"), []rune("BB"), []rune("CC")}
	twice(t, func() *residue {
		var r, other residue
		k := krypto431.New()
		for i := 0; i < n; i++ {
			x := &other
			if i == d {
				x = &r
			}
			m := mshape{2, 1, 1, 1, 1}.message(x)
			m.Id = h.Cp(ids[i])
			k.Messages = append(k.Messages, m)
		}
		x, err := k.DeleteMessage(ids[d])
		sym.Assert(x == 1 && err == nil && len(k.Messages) == n-1, "deleted")
		return &r
	})
}

// The password a persistence key would be derived from: without a usable salt
// any password, with one a password that is too weak.
func C14_Password() {
	n := sym.Choice("length", 5)
	t := source(1)
	which := sym.Choice("salt", 3)
	validate := sym.Fork(sym.Bool("validate"))
	if which == 2 && !validate {
		return
	}
	weak := []string{"aaaa", "bbbb"}
	twice(t, func() *residue {
		var r residue
		k := krypto431.New()
		pw := secretBytes(n)
		switch which {
		case 0:
			krypto431.WithSalt(nil)(&k)
		case 1:
			short := []byte{1, 2, 3}
			krypto431.WithSalt(&short)(&k)
		default:
			pw, weak = []byte(weak[0])[:n], weak[1:]
		}
		r.addb(pw)
		var err error
		if validate {
			err = k.DerivePFKFromPasswordWithValidation(&pw)
		} else {
			err = k.DerivePFKFromPassword(&pw)
		}
		sym.Assert(err != nil, "no key is derived from a weak password or without a salt")
		sym.Assert(len(pw) == 0, "the password is gone")
		return &r
	})
}
