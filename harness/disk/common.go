// Package disk decides what reaches the persistence file, over a simulated
// operating system.
package disk

import (
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/sym"
)

const path = "/home/op/store"

var terminal bool

func begin() {
	faultos.Reset()
	faultos.Terminal(terminal)
	survey.Answer = nil
	rnd.UseFixed()
}

func pfk(b byte) *[]byte {
	p := make([]byte, 32)
	for i := range p {
		p[i] = b + byte(i)
	}
	return &p
}

func when(minutes int) dtg.DTG {
	return dtg.DTG{Time: time.Unix(1700000000, 0).UTC().Add(time.Duration(minutes) * time.Minute)}
}

func key(k *krypto431.Krypto431, name string) krypto431.Key {
	x := krypto431.Key{
		Id: h.Letters(name+"id", 2), Runes: h.Letters(name, 3), Keepers: [][]rune{h.Letters(name+"keeper", 2)},
		Created: when(1), Expires: when(2), Used: sym.Bool(name + "used"), Compromised: sym.Bool(name + "compromised"),
		Comment: h.Of([]rune("aB "), name+"comment", 1),
	}
	x.SetInstance(k)
	return x
}

func message(k *krypto431.Krypto431, name string) krypto431.Message {
	m := krypto431.Message{
		Id: h.Letters(name+"mid", 4), Recipients: [][]rune{h.Letters(name+"to", 2)}, From: h.Letters(name+"from", 2),
		DTG: when(3), PlainText: h.Letters(name+"text", 2), KeyId: h.Letters(name+"keyid", 2),
		CipherText: h.Letters(name+"cipher", 2), Binary: []byte{sym.Byte(name+"bin", 0, 255)},
	}
	m.SetInstance(k)
	return m
}

func store(name string, keys, messages int, opts ...krypto431.Option) *krypto431.Krypto431 {
	opts = append([]krypto431.Option{krypto431.WithPersistence(path), krypto431.WithPFK(pfk(1)), krypto431.WithCallSign("OP"), krypto431.WithGroupSize(2)}, opts...)
	k := krypto431.New(opts...)
	for i := 0; i < keys; i++ {
		k.Keys = append(k.Keys, key(&k, name+string(rune('a'+i))))
	}
	for i := 0; i < messages; i++ {
		k.Messages = append(k.Messages, message(&k, name+string(rune('a'+i))))
	}
	return &k
}

// load reads the store back with a fresh instance.
func load(file string, pfk *[]byte) (*krypto431.Krypto431, error) {
	k := krypto431.New(krypto431.WithPersistence(file), krypto431.WithPFK(pfk))
	err := k.Load()
	return &k, err
}

func sameMessage(a, b *krypto431.Message) bool {
	eq := sym.And(h.Same(a.Id, b.Id), h.Same2(a.Recipients, b.Recipients))
	eq = sym.And(eq, sym.And(h.Same(a.From, b.From), a.DTG.Time.Equal(b.DTG.Time)))
	eq = sym.And(eq, sym.And(h.Same(a.PlainText, b.PlainText), h.Same(a.KeyId, b.KeyId)))
	eq = sym.And(eq, h.Same(a.CipherText, b.CipherText))
	if len(a.Binary) != len(b.Binary) || len(a.Radiogram) != len(b.Radiogram) {
		return false
	}
	for i := range a.Binary {
		eq = sym.And(eq, a.Binary[i] == b.Binary[i])
	}
	return sym.And(eq, h.Same(a.Radiogram, b.Radiogram))
}

// same compares the persistent contents of two instances.
func same(a, b *krypto431.Krypto431) bool {
	if len(a.Keys) != len(b.Keys) || len(a.Messages) != len(b.Messages) {
		return false
	}
	eq := a.GroupSize == b.GroupSize && a.KeyLength == b.KeyLength && a.Columns == b.Columns && a.KeyColumns == b.KeyColumns
	eq = sym.And(eq, h.Same(a.CallSign, b.CallSign))
	for i := range a.Keys {
		eq = sym.And(eq, h.SameKey(&a.Keys[i], &b.Keys[i]))
	}
	for i := range a.Messages {
		eq = sym.And(eq, sameMessage(&a.Messages[i], &b.Messages[i]))
	}
	return eq
}
