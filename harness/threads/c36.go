// Package threads decides that the random source may be used concurrently.
package threads

import (
	"crypto/rand"
	"encoding/binary"
	"errors"

	"github.com/sa6mwa/krypto431/crand"
	"verif/sym"
)

// source hands out the bytes 1, 2, 3... It is not safe for concurrent use:
// other threads may run while it is being read.
type source struct {
	n    int
	fail int // this call fails
	call int
}

func (s *source) Read(p []byte) (int, error) {
	n := s.n
	sym.Yield()
	s.call++
	if s.call == s.fail {
		return 0, errors.New("no random bytes")
	}
	for i := range p {
		n++
		p[i] = byte(n)
	}
	sym.Yield()
	s.n = n
	return len(p), nil
}

// result is what a draw returned: bytes of the source, or a number made of some.
type result struct {
	op int
	b  []byte
	v  uint64
}

const ops = 6

func draw(op int) (r result) {
	r.op = op
	switch op {
	case 0:
		r.b = binary.BigEndian.AppendUint64(nil, crand.Uint64())
	case 1:
		r.b = make([]byte, 8)
		n, err := crand.Read(r.b)
		sym.Assert(n == len(r.b) && err == nil, "read")
	case 2:
		p := make([]rune, 2)
		n, err := crand.ReadRunes(p)
		sym.Assert(n == len(p) && err == nil, "read")
		r.b = binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, uint32(p[0])), uint32(p[1]))
	case 3:
		r.v = uint64(crand.Int63())
	case 4:
		r.v = uint64(crand.Intn(1 << 32))
	case 5:
		r.v = uint64(crand.Uint32())
	}
	return r
}

func drawn(switches int, ops ...[]int) {
	s := &source{}
	rand.Reader = s
	got := make([][]result, len(ops))
	fs := make([]func(), len(ops))
	for i := range ops {
		i := i
		fs[i] = func() {
			for _, op := range ops[i] {
				got[i] = append(got[i], draw(op))
			}
		}
	}
	sym.Threads(switches, fs...)
	var seen [256]bool
	var all []result
	for i := range got {
		sym.Assert(len(got[i]) == len(ops[i]), "every draw ends")
		for _, r := range got[i] {
			for _, b := range r.b {
				sym.Assert(b > 0 && int(b) <= s.n && !seen[b], "every result is made of bytes of the source nobody else got")
				seen[b] = true
			}
			for _, o := range all {
				// the bytes of the source all differ, so do numbers made of different ones
				sym.Assert(r.b != nil || o.op != r.op || o.v != r.v, "no two draws get the same")
			}
			all = append(all, r)
		}
	}
	sym.Reach("done")
}

func op() int { return sym.Choice("op", ops) }

// C36_Pairs: two threads draw at the same time, each in any way.
func C36_Pairs() { drawn(4, []int{op()}, []int{op()}) }

// C36_Again: a thread draws twice while another draws.
func C36_Again() { drawn(2, []int{op(), op()}, []int{op()}) }

// C36_Three: three threads.
func C36_Three() { o := op(); drawn(2, []int{o}, []int{o}, []int{op()}) }

// C36_Failing: a failing source leaves no lock held.
func C36_Failing() {
	s := &source{fail: sym.Choice("fail", 3) + 1}
	rand.Reader = s
	ended, failed := 0, 0
	f := func() {
		op := []int{0, 3, 4, 5}[sym.Choice("op", 4)]
		defer func() {
			if recover() != nil {
				failed++
			}
			ended++
		}()
		draw(op)
	}
	g := func() {
		p := make([]byte, 8)
		var err error
		if sym.Choice("runes", 2) == 0 {
			_, err = crand.Read(p)
		} else {
			_, err = crand.ReadRunes(make([]rune, 2))
		}
		if err != nil {
			failed++
		}
		ended++
	}
	sym.Threads(2, f, g)
	sym.Threads(0, f, g)
	sym.Assert(ended == 4 && failed == 1, "exactly the failing draw fails")
	sym.Reach("done")
}
