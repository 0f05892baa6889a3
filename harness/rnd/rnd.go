// Package rnd replaces the operating system's random source in harnesses.
package rnd

import (
	"crypto/rand"
	"encoding/binary"
	"errors"

	"verif/sym"
)

// Fixed is a deterministic source: a counter. It is used where the property
// does not depend on the random values.
type Fixed struct{ n uint64 }

func (f *Fixed) Word() uint64 {
	f.n++
	return f.n * 0x0012345678000000
}

func (f *Fixed) Read(p []byte) (int, error) {
	if len(p) == 8 {
		binary.BigEndian.PutUint64(p, f.Word())
		return 8, nil
	}
	for i := range p {
		p[i] = 0x55
	}
	return len(p), nil
}

// UseFixed installs a Fixed source.
func UseFixed() { rand.Reader = &Fixed{} }

// Any is an arbitrary source: every word and byte is a fresh input.
type Any struct{}

func (a *Any) Word() uint64 { return sym.Uint64("rndword") }

func (a *Any) Read(p []byte) (int, error) {
	if len(p) == 8 {
		binary.BigEndian.PutUint64(p, sym.Uint64("rndword"))
		return 8, nil
	}
	for i := range p {
		p[i] = sym.Byte("rndbyte", 0, 255)
	}
	return len(p), nil
}

// UseAny installs an arbitrary source.
func UseAny() { rand.Reader = &Any{} }

// Draws is an arbitrary source for the bounded draws of math/rand (Intn of a
// number n that is no power of two): a word is accepted when its bits 32-62 are
// at most max; only accepted words are produced (see C13 for the rejected ones).
type Draws struct{ Max int }

func (d *Draws) Word() uint64 { return uint64(sym.Int("draw", 0, d.Max)) << 32 }

func (d *Draws) Read(p []byte) (int, error) {
	if len(p) == 8 {
		binary.BigEndian.PutUint64(p, d.Word())
		return 8, nil
	}
	for i := range p {
		p[i] = 0x55
	}
	return len(p), nil
}

// UseDraws installs a source of accepted draws below n.
func UseDraws(n int) {
	max := 1<<31 - 1
	if n&(n-1) != 0 {
		max -= (1 << 31) % n
	}
	rand.Reader = &Draws{Max: max}
}

// Failing is a source that fails after Ok reads.
type Failing struct {
	Ok int
	f  Fixed
}

var ErrSource = errors.New("random source failed")

func (f *Failing) Read(p []byte) (int, error) {
	if f.Ok <= 0 {
		return 0, ErrSource
	}
	f.Ok--
	return f.f.Read(p)
}

// UseFailing installs a source failing after n reads.
func UseFailing(n int) { rand.Reader = &Failing{Ok: n} }

// Some is an arbitrary source of accepted draws for N words; after that it
// counts (so that loops drawing until something fits end).
type Some struct {
	N, Max int
	n      int
}

func (d *Some) Word() uint64 {
	if d.N > 0 {
		d.N--
		return uint64(sym.Int("draw", 0, d.Max)) << 32
	}
	d.n++
	return uint64(d.n%26) << 32
}

func (d *Some) Read(p []byte) (int, error) {
	if len(p) == 8 {
		binary.BigEndian.PutUint64(p, d.Word())
		return 8, nil
	}
	for i := range p {
		p[i] = 0x55
	}
	return len(p), nil
}

// UseSome installs n arbitrary draws of 0..25.
func UseSome(n int) { rand.Reader = &Some{N: n, Max: 25} }
