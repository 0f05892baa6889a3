// Package c01: the DIANA trigraph.
package c01

import (
	"github.com/sa6mwa/krypto431/diana"
	"verif/sym"
)

// C01_Rune: TrigraphRune over all runes.
func C01_Rune() {
	x := sym.Rune("x", -1<<31, 1<<31-1)
	y := sym.Rune("y", -1<<31, 1<<31-1)
	mark := rune(-77)
	out := mark
	err := diana.TrigraphRune(&out, &x, &y)
	inX := x >= 'A' && x <= 'Z'
	inY := y >= 'A' && y <= 'Z'
	if inX && inY {
		sym.Reach("letters")
		sym.Assert(err == nil, "two letters accepted")
		sym.Assert(out >= 'A' && out <= 'Z', "result is a letter")
		sym.Observe("out", int(out))
		sw := mark
		sym.Assert(diana.TrigraphRune(&sw, &y, &x) == nil && sw == out, "commutative")
		back := mark
		sym.Assert(diana.TrigraphRune(&back, &out, &y) == nil, "result accepted as input")
		sym.Assert(back == x, "applying again with the second input returns the first")
		sym.Assert(diana.TrigraphRune(&back, &x, &out) == nil, "result accepted as second input")
		sym.Assert(back == y, "applying again with the first input returns the second")
		bx, by := byte(x), byte(y)
		var bo byte
		sym.Assert(diana.TrigraphByte(&bo, &bx, &by) == nil && rune(bo) == out, "byte and rune forms agree")
		return
	}
	sym.Reach("non-letters")
	sym.Assert(err != nil, "anything outside A-Z is refused")
	sym.Assert(out == mark, "nothing is written on refusal")
}

// C01_Byte: TrigraphByte over all bytes.
func C01_Byte() {
	x := sym.Byte("x", 0, 255)
	y := sym.Byte("y", 0, 255)
	out := byte(200)
	err := diana.TrigraphByte(&out, &x, &y)
	in := sym.And(sym.And(x >= 'A', x <= 'Z'), sym.And(y >= 'A', y <= 'Z'))
	if in {
		sym.Reach("letters")
		sym.Assert(err == nil, "two letters accepted")
		sym.Assert(out >= 'A' && out <= 'Z', "result is a letter")
		sym.Observe("out", int(out))
		var sw, back byte
		sym.Assert(diana.TrigraphByte(&sw, &y, &x) == nil && sw == out, "commutative")
		sym.Assert(diana.TrigraphByte(&back, &out, &y) == nil && back == x, "reciprocal in the first input")
		sym.Assert(diana.TrigraphByte(&back, &x, &out) == nil && back == y, "reciprocal in the second input")
		return
	}
	sym.Reach("non-letters")
	sym.Assert(err != nil, "anything outside A-Z is refused")
	sym.Assert(out == 200, "nothing is written on refusal")
}

// C01_Alias: the destination may be one of the inputs.
func C01_Alias() {
	x := sym.Rune("x", 'A', 'Z')
	y := sym.Rune("y", 'A', 'Z')
	want := rune(0)
	sym.Assert(diana.TrigraphRune(&want, &x, &y) == nil, "accepted")
	a, b := x, y
	sym.Assert(diana.TrigraphRune(&a, &a, &b) == nil && a == want, "destination may be the first input")
	a, b = x, y
	sym.Assert(diana.TrigraphRune(&b, &a, &b) == nil && b == want, "destination may be the second input")
	bx, by := byte(x), byte(y)
	sym.Assert(diana.TrigraphByte(&bx, &bx, &by) == nil && rune(bx) == want, "byte form, destination may be the first input")
}

// C01_Nil: nil pointers are refused without a crash or a write.
func C01_Nil() {
	x := sym.Rune("x", -1<<31, 1<<31-1)
	y := sym.Rune("y", -1<<31, 1<<31-1)
	out := rune(-77)
	px, py, po := &x, &y, &out
	if sym.Bool("nx") {
		px = nil
	}
	if sym.Bool("ny") {
		py = nil
	}
	if sym.Bool("no") {
		po = nil
	}
	sym.Assume(px == nil || py == nil || po == nil)
	sym.Assert(diana.TrigraphRune(po, px, py) != nil, "a nil pointer is refused")
	sym.Assert(out == -77, "nothing is written")
	bx, by, bo := byte(1), byte('B'), byte(7)
	pbx, pby, pbo := &bx, &by, &bo
	if px == nil {
		pbx = nil
	}
	if py == nil {
		pby = nil
	}
	if po == nil {
		pbo = nil
	}
	sym.Assert(diana.TrigraphByte(pbo, pbx, pby) != nil, "byte form: a nil pointer is refused")
	sym.Assert(bo == 7, "byte form: nothing is written")
	sym.Assert(diana.ZeroKeyRune(po, nil) != nil, "ZeroKeyRune refuses nil")
	sym.Assert(diana.ZeroKeyByte(nil, pbx) != nil, "ZeroKeyByte refuses nil")
	sym.Reach("done")
}

// C01_ZeroKey: enciphering with the zero key twice gives the letter back.
func C01_ZeroKey() {
	x := sym.Rune("x", -1<<31, 1<<31-1)
	z := rune(-77)
	err := diana.ZeroKeyRune(&z, &x)
	if x < 'A' || x > 'Z' {
		sym.Assert(err != nil && z == -77, "anything outside A-Z is refused")
		return
	}
	sym.Reach("letter")
	out := rune(0)
	sym.Assert(err == nil && z >= 'A' && z <= 'Z', "a letter has a zero key")
	sym.Assert(diana.TrigraphRune(&out, &x, &z) == nil && out == x, "the zero key leaves the letter unchanged")
	b := byte(x)
	zb := byte(0)
	sym.Assert(diana.ZeroKeyByte(&zb, &b) == nil && rune(zb) == z, "byte and rune forms agree")
}

// C01_Append: the append form with any key index and any key and text lengths.
func C01_Append() {
	nk := sym.Choice("keylen", 4)
	nw := sym.Choice("outlen", 4)
	sym.Bound("append", "key of 0-3 arbitrary bytes, destination of 0-3 bytes, any 64-bit index, nil pointers")
	key := make([]byte, 0, nk)
	for i := 0; i < nk; i++ {
		key = append(key, sym.Byte("key", 0, 255))
	}
	w := make([]byte, 0, nw)
	for i := 0; i < nw; i++ {
		w = append(w, byte('a'+i))
	}
	ch := sym.Byte("ch", 0, 255)
	idx := sym.Int("idx", -1<<63, 1<<63-1)
	old := idx
	before := string(w)
	switch sym.Choice("nil", 5) {
	case 1:
		sym.Assert(diana.AppendTrigraphByteByKey(nil, &ch, &key, &idx) != nil, "nil destination refused")
		return
	case 2:
		sym.Assert(diana.AppendTrigraphByteByKey(&w, nil, &key, &idx) != nil, "nil character refused")
		sym.Assert(string(w) == before, "nothing is appended")
		return
	case 3:
		sym.Assert(diana.AppendTrigraphByteByKey(&w, &ch, nil, &idx) != nil, "nil key refused")
		sym.Assert(string(w) == before, "nothing is appended")
		return
	case 4:
		sym.Assert(diana.AppendTrigraphByteByKey(&w, &ch, &key, nil) != nil, "nil index refused")
		sym.Assert(string(w) == before, "nothing is appended")
		return
	}
	err := diana.AppendTrigraphByteByKey(&w, &ch, &key, &idx)
	if err != nil {
		sym.Reach("refused")
		sym.Assert(string(w) == before, "nothing is appended on refusal")
		sym.Assert(idx == old, "the index stays on refusal")
		return
	}
	sym.Reach("appended")
	sym.Assert(old >= 0 && old < nk, "only an index inside the key is accepted")
	sym.Assert(len(w) == nw+1 && string(w[:nw]) == before, "exactly one byte is appended")
	sym.Assert(idx == old+1, "the index advances by one")
	b := byte(0)
	i := 0
	for i < nk-1 && i != old {
		i++
	}
	sym.Assert(diana.TrigraphByte(&b, &ch, &key[i]) == nil && b == w[nw], "the appended byte is the trigraph with the indexed key letter")
	sym.Observe("b", int(b))
}
