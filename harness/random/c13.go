// Package random holds the checks of the random source and its use (C13).
package random

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"errors"

	"github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/crand"
	"verif/harness/h"
	"verif/sym"
)

// words is a source that hands out the given words, then zeroes, and counts.
type words struct {
	w []uint64
	n int
}

func (s *words) Read(p []byte) (int, error) {
	if len(p) != 8 {
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	var v uint64
	if s.n < len(s.w) {
		v = s.w[s.n]
	}
	s.n++
	binary.BigEndian.PutUint64(p, v)
	return 8, nil
}

// whole is the same source, read by whole words (the engine then does not take
// the words apart into bytes and put them together again: C13_Words covers that).
type whole struct{ words }

func (s *whole) Word() uint64 {
	var v uint64
	if s.n < len(s.w) {
		v = s.w[s.n]
	}
	s.n++
	return v
}

func useWhole(w ...uint64) *whole {
	s := &whole{words{w: w}}
	rand.Reader = s
	return s
}

func use(w ...uint64) *words {
	s := &words{w: w}
	rand.Reader = s
	return s
}

// word is any of the 2^64 words.
func word(name string) uint64 {
	v := sym.Uint64(name)
	return v + uint64(sym.Int("top bit of "+name, 0, 1))<<63
}

// shiftFor tells which bits of a word (from where up) decide the draw: found by
// a concrete probe, so that the property does not depend on which ones are used.
func shiftFor(draw func() int) uint {
	use(1)
	if draw() == 1 {
		return 0
	}
	use(1 << 32)
	sym.Assert(draw() == 1, "consecutive words give consecutive numbers")
	return 32
}

// uniform checks draw, which is to return numbers below n: in range, and there
// is a one-to-one map of the accepted words that steps the number drawn (so that
// every number has equally many words).
func uniform(n uint64, draw func() int) {
	if n == 1 {
		use(word("w"))
		sym.Assert(draw() == 0, "in range")
		sym.Reach("one")
		return
	}
	s := shiftFor(draw)
	size := uint64(1) << (63 - s)
	// every x below size: a whole number of rounds of n and a rest
	last := size%n != 0 && sym.Choice("last round", 2) == 1
	first, rest := int(size/n*n), 0
	if last {
		rest = sym.Int("rest", 0, int(size%n-1))
	} else {
		first = sym.Int("rounds", 0, int(size/n-1)) * int(n)
		rest = sym.Int("rest", 0, int(n-1))
	}
	low := sym.Int("low", 0, int(uint64(1)<<s-1))
	w := func(rest int) uint64 { return uint64(first+rest)<<s + uint64(low) }
	src := useWhole(w(rest))
	r := draw()
	sym.Assert(sym.And(r >= 0, uint64(r) < n), "in range")
	if src.n > 1 {
		// refused: the next word decides alone
		sym.Reach("opt:refused")
		sym.Assert(src.n == 2, "a refused word is replaced by the next")
		sym.Assert(r == 0, "a refused word leaves no trace")
		return
	}
	sym.Reach("accepted")
	sym.Assert(src.n == 1, "one word is read")
	sym.Assert(!last, "only whole rounds of words are accepted")
	// the map: to the next word of the round, from its last to its first
	src = useWhole(w(sym.IteInt(rest == int(n-1), 0, rest+1)))
	q := draw()
	sym.Assert(src.n == 1, "the map stays within the accepted words")
	sym.Assert(q == sym.IteInt(r == int(n-1), 0, r+1), "the map steps the number drawn")
}

func C13_Range() {
	n := 1 + sym.Choice("n", 64)
	uniform(uint64(n), func() int { return crand.Intn(n) })
}

func C13_RangeWide() {
	n := []int{100, 676, 1000, 1 << 16, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 40, 1<<62 + 3}[sym.Choice("n", 9)]
	uniform(uint64(n), func() int { return crand.Intn(n) })
}

func C13_RangeKinds() {
	n := []int64{1, 2, 3, 26, 62, 100}[sym.Choice("n", 6)]
	if sym.Choice("kind", 2) == 0 {
		uniform(uint64(n), func() int { return int(crand.Int31n(int32(n))) })
	} else {
		uniform(uint64(n), func() int { return int(crand.Int63n(n)) })
	}
}

// Whole words: every bit is the source's.
func C13_Words() {
	w := word("w")
	use(w)
	v := crand.Uint64()
	sym.Assert(v == w, "a word is the source's eight bytes")
	src := use(w, ^w)
	sym.Assert(uint64(crand.Int63()) == w&(1<<63-1), "63 bits of one word")
	sym.Assert(uint64(crand.Int63()) == ^w&(1<<63-1) && src.n == 2, "the next word is a fresh one")
	use(w)
	sym.Assert(uint64(crand.Int31()) == w>>32&(1<<31-1), "31 bits of one word")
	use(w)
	sym.Assert(uint64(crand.Uint32()) == w>>31&(1<<32-1), "32 bits of one word")
	use(w)
	sym.Assert(uint64(crand.Int()) == w&(1<<63-1), "an int is 63 bits of one word")
	sym.Reach("done")
}

// bytesSource hands out arbitrary bytes and records them.
type bytesSource struct{ out []byte }

func (s *bytesSource) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = sym.Byte("byte", 0, 255)
	}
	s.out = append(s.out, p...)
	return len(p), nil
}

// Bytes, salts and persistence keys are the source's bytes, each used once.
func C13_Bytes() {
	s := &bytesSource{}
	rand.Reader = s
	switch sym.Choice("what", 4) {
	case 0:
		p := make([]byte, sym.Choice("n", 40))
		n, err := crand.Read(p)
		sym.Assert(n == len(p) && err == nil, "all bytes are read")
		sym.Assert(same(p, s.out), "bytes are the source's")
	case 1:
		b, err := hex.DecodeString(krypto431.GeneratePFK())
		sym.Assert(err == nil && len(b) == 32, "a key of 32 bytes")
		sym.Assert(same(b, s.out), "a generated key is the source's bytes")
	case 2:
		b, err := hex.DecodeString(krypto431.GenerateSalt())
		sym.Assert(err == nil && len(b) == krypto431.MinimumSaltLength, "a salt of the minimum length")
		sym.Assert(same(b, s.out), "a generated salt is the source's bytes")
	case 3:
		p := make([]rune, sym.Choice("n", 12))
		n, err := crand.ReadRunes(p)
		sym.Assert(n == len(p) && err == nil && len(s.out) == 4*len(p), "all runes are read")
		for i, r := range p {
			sym.Assert(uint32(r) == binary.BigEndian.Uint32(s.out[4*i:]), "runes are the source's")
		}
	}
	sym.Reach("done")
}

func same(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			ok = sym.And(ok, a[i] == b[i])
		}
	}
	return ok
}

var errSource = errors.New("random source failed")

// failing hands out n words, then fails, having filled nothing.
type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, errSource
	}
	f.n--
	for i := range p {
		p[i] = byte(7 * (f.n + i))
	}
	return len(p), nil
}

// A failing source never yields a key, salt or ID.
func C13_Failing() {
	n := sym.Choice("reads", 13)
	what := sym.Choice("what", 4)
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithKeyLength(8), krypto431.WithCallSign("AB"))
	s := &failing{n: n}
	rand.Reader = s
	failed, err := false, error(nil)
	func() {
		defer func() {
			if recover() != nil {
				failed = true
			}
		}()
		switch what {
		case 0:
			err = k.GenerateKeys(1, nil)
		case 1:
			krypto431.GeneratePFK()
		case 2:
			krypto431.GenerateSalt()
		case 3:
			k.NewUniqueMessageId()
		}
	}()
	need := []int{10, 1, 1, 4}[what]
	sym.Assert((failed || err != nil) == (n < need), "fails exactly if the source does")
	sym.Assert(len(k.Keys) == 0 || n >= need, "no key is made from a failing source")
	sym.Reach("done")
}

// letters returns the letters of the keys and IDs k generates from src.
func generate(src *words, g, length, n int, call string, keepers []string, expiry *string) []rune {
	rand.Reader = src
	src.n = 0
	k := krypto431.New(krypto431.WithGroupSize(g), krypto431.WithKeyLength(length), krypto431.WithCallSign(call))
	err := k.GenerateKeys(n, expiry, keepers...)
	sym.Assert(err == nil && len(k.Keys) == n, "n keys are made")
	var out []rune
	for i := range k.Keys {
		out = append(out, k.Keys[i].Id...)
		out = append(out, k.Keys[i].Runes...)
	}
	return out
}

// fresh checks that each letter is determined by a draw of its own, and each
// value of the draw steps that letter alone.
func freshLetters(g, length, n int, base int, gen func(src *words) []rune) {
	total := len(gen(&words{}))
	s := shiftFor(func() int { return crand.Intn(base) })
	// which letter each draw decides: found by concrete probes
	pos := make([]int, total)
	taken := make([]bool, total)
	zero := gen(&words{})
	for j := range pos {
		w := make([]uint64, total)
		w[j] = 1 << s
		out := gen(&words{w: w})
		pos[j] = -1
		for i := range out {
			if out[i] != zero[i] {
				sym.Assert(pos[j] < 0, "a draw decides one letter only")
				pos[j] = i
			}
		}
		sym.Assert(pos[j] >= 0 && !taken[pos[j]], "every draw decides a letter of its own")
		taken[pos[j]] = true
	}
	// the letters in order of their values
	var abc []rune
	for v := 0; v < base; v++ {
		w := make([]uint64, total)
		for i := range w {
			w[i] = uint64(v) << s
		}
		out := gen(&words{w: w})
		abc = append(abc, out[0])
	}
	for i := range abc {
		for j := range abc[:i] {
			sym.Assert(abc[i] != abc[j], "every value has its own letter")
		}
	}
	// any draws at all
	w := make([]uint64, total)
	xs := make([]int, total)
	for i := range w {
		xs[i] = sym.Int("draw", 0, base-1)
		w[i] = uint64(xs[i]) << s
	}
	src := &words{w: w}
	out := gen(src)
	sym.Assert(src.n == total && len(out) == total, "one draw a letter")
	for j := range pos {
		ok := false
		for v := range abc {
			ok = sym.Or(ok, sym.And(xs[j] == v, out[pos[j]] == abc[v]))
		}
		sym.Assert(ok, "each letter is the one its draw stands for, whatever the others are")
	}
	sym.Reach("done")
}

func C13_Letters() {
	g := 1 + sym.Choice("group", 5)
	length := []int{1, 5, 12}[sym.Choice("length", 3)]
	freshLetters(g, length, 1, 26, func(src *words) []rune { return generate(src, g, length, 1, "AB", nil, nil) })
}

func C13_Default() {
	freshLetters(5, 350, 1, 26, func(src *words) []rune { return generate(src, 5, 350, 1, "SA6MWA", nil, nil) })
}

// The letters depend on nothing else: not on the keepers, the call-sign, the
// expiry or how long ago the source was first used.
func C13_Nothing() {
	var w []uint64
	for i := 0; i < 5; i++ {
		w = append(w, uint64(sym.Int("draw", 0, 1<<31-17))<<32+uint64(sym.Int("rest", 0, 1<<32-1)))
	}
	a := generate(&words{w: w}, 2, 3, 1, "AB", nil, nil)
	date := "010203ZJAN30"
	b := generate(&words{w: w}, 2, 3, 1, "SM0XYZ", []string{"SM0A,SM0B"}, &date)
	sym.Assert(h.Same(a, b), "the same draws give the same letters")
	sym.Reach("done")
}

// Message IDs: a draw per character.
func C13_MessageIds() {
	freshLetters(1, 4, 1, 62, func(src *words) []rune {
		rand.Reader = src
		src.n = 0
		k := krypto431.New()
		return k.NewUniqueMessageId()
	})
}
