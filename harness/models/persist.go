package models

import (
	"compress/gzip"
	"crypto/rand"
	"encoding/gob"
	"errors"
	"hash"
	"io"

	stream "github.com/nknorg/encrypted-stream"
)

// Ideal codec, compressor, cipher and key derivation. They keep what the code
// under test can observe: every byte goes through the writer or reader given,
// damaged or truncated data and wrong keys are detected, nothing else fails.

func gobCopy(src any) any  { return nil }
func gobInto(dst, src any) {}

var blobs []any

type encState struct {
	e *gob.Encoder
	w io.Writer
}
type decState struct {
	d *gob.Decoder
	r io.Reader
}

var encs []encState
var decs []decState

//model:encoding/gob.NewEncoder
func GobNewEncoder(w io.Writer) *gob.Encoder {
	e := &gob.Encoder{}
	encs = append(encs, encState{e, w})
	return e
}

// model:(*encoding/gob.Encoder).Encode
func GobEncode(e *gob.Encoder, v any) error {
	for i := range encs {
		if encs[i].e == e {
			blobs = append(blobs, gobCopy(v))
			n := len(blobs)
			_, err := encs[i].w.Write([]byte{'g', 'o', 'b', ':', byte(n >> 8), byte(n)})
			return err
		}
	}
	Unmodelled("gob encoder")
	return nil
}

//model:encoding/gob.NewDecoder
func GobNewDecoder(r io.Reader) *gob.Decoder {
	d := &gob.Decoder{}
	decs = append(decs, decState{d, r})
	return d
}

// model:(*encoding/gob.Decoder).Decode
func GobDecode(d *gob.Decoder, v any) error {
	for i := range decs {
		if decs[i].d == d {
			b := make([]byte, 6)
			_, err := io.ReadFull(decs[i].r, b)
			if err != nil {
				return err
			}
			n := int(b[4])<<8 + int(b[5])
			if string(b[:4]) != "gob:" || n == 0 || n > len(blobs) {
				return errors.New("gob: corrupted data")
			}
			gobInto(v, blobs[n-1])
			return nil
		}
	}
	Unmodelled("gob decoder")
	return nil
}

//model:encoding/gob.Register
func GobRegister(v any) {}

type gzState struct {
	g      *gzip.Writer
	w      io.Writer
	buf    []byte
	begun  bool
	closed bool
	err    error
}

var gzs []*gzState

func gzOf(g *gzip.Writer) *gzState {
	for i := range gzs {
		if gzs[i].g == g {
			return gzs[i]
		}
	}
	Unmodelled("gzip writer")
	return nil
}

//model:compress/gzip.NewWriter
func GzipNewWriter(w io.Writer) *gzip.Writer {
	g := &gzip.Writer{}
	gzs = append(gzs, &gzState{g: g, w: w})
	return g
}

//model:compress/gzip.NewWriterLevel
func GzipNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	return GzipNewWriter(w), nil
}

func (z *gzState) begin() error {
	if z.err == nil && !z.begun {
		z.begun = true
		_, z.err = z.w.Write([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255})
	}
	return z.err
}

// model:(*compress/gzip.Writer).Write
func GzipWrite(g *gzip.Writer, p []byte) (int, error) {
	z := gzOf(g)
	if z.begin() != nil {
		return 0, z.err
	}
	z.buf = append(z.buf, p...)
	return len(p), nil
}

func (z *gzState) flush() error {
	if z.begin() != nil {
		return z.err
	}
	for len(z.buf) > 0 && z.err == nil {
		// a small store reaches the file in two bursts
		n := len(z.buf)
		if n > 3 && n <= 6 {
			n = 3
		}
		if n > 200 {
			n = 200
		}
		_, z.err = z.w.Write(append([]byte{'+', byte(n)}, z.buf[:n]...))
		z.buf = z.buf[n:]
	}
	return z.err
}

// model:(*compress/gzip.Writer).Flush
func GzipFlush(g *gzip.Writer) error { return gzOf(g).flush() }

// model:(*compress/gzip.Writer).Close
func GzipClose(g *gzip.Writer) error {
	z := gzOf(g)
	if z.err != nil || z.closed {
		return z.err
	}
	z.closed = true
	if z.flush() != nil {
		return z.err
	}
	_, z.err = z.w.Write([]byte{'.', 'c', 'r', 'c', '3', '2', 'l', 'n'})
	return z.err
}

type gunzState struct {
	g    *gzip.Reader
	r    io.Reader
	left int
	done bool
}

var gunzs []*gunzState

//model:compress/gzip.NewReader
func GzipNewReader(r io.Reader) (*gzip.Reader, error) {
	b := make([]byte, 10)
	_, err := io.ReadFull(r, b)
	if err != nil {
		return nil, err
	}
	if b[0] != 0x1f || b[1] != 0x8b {
		return nil, gzip.ErrHeader
	}
	g := &gzip.Reader{}
	gunzs = append(gunzs, &gunzState{g: g, r: r})
	return g, nil
}

func trunc(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// model:(*compress/gzip.Reader).Read
func GzipRead(g *gzip.Reader, p []byte) (int, error) {
	for i := range gunzs {
		if gunzs[i].g == g {
			z := gunzs[i]
			for z.left == 0 {
				if z.done {
					return 0, io.EOF
				}
				b := make([]byte, 1)
				if _, err := io.ReadFull(z.r, b); err != nil {
					return 0, trunc(err)
				}
				if b[0] == '.' {
					if _, err := io.ReadFull(z.r, make([]byte, 7)); err != nil {
						return 0, trunc(err)
					}
					z.done = true
					continue
				}
				if b[0] != '+' {
					return 0, gzip.ErrChecksum
				}
				if _, err := io.ReadFull(z.r, b); err != nil {
					return 0, trunc(err)
				}
				z.left = int(b[0])
			}
			n := len(p)
			if n > z.left {
				n = z.left
			}
			m, err := io.ReadFull(z.r, p[:n])
			z.left -= m
			return m, trunc(err)
		}
	}
	Unmodelled("gzip reader")
	return 0, nil
}

// model:(*compress/gzip.Reader).Close
func GzipReaderClose(g *gzip.Reader) error { return nil }

//model:github.com/nknorg/encrypted-stream.MergeConfig
func MergeConfig(base, conf *stream.Config) (*stream.Config, error) {
	m := *base
	if conf != nil {
		if conf.Cipher != nil {
			m.Cipher = conf.Cipher
		}
		if conf.MaxChunkSize != 0 {
			m.MaxChunkSize = conf.MaxChunkSize
		}
		if conf.Initiator {
			m.Initiator = true
		}
		if conf.SequentialNonce {
			m.SequentialNonce = true
		}
		if conf.DisableNonceVerification {
			m.DisableNonceVerification = true
		}
	}
	// the buffers of the stream need not be larger than what is written here
	if m.MaxChunkSize > 300 {
		m.MaxChunkSize = 300
	}
	return &m, nil
}

type cipherState struct {
	c   *stream.XSalsa20Poly1305Cipher
	key *[32]byte
}

var ciphers []cipherState

//model:github.com/nknorg/encrypted-stream.NewXSalsa20Poly1305Cipher
func NewCipher(key *[32]byte) *stream.XSalsa20Poly1305Cipher {
	c := &stream.XSalsa20Poly1305Cipher{}
	ciphers = append(ciphers, cipherState{c, key})
	return c
}

func keyOf(c *stream.XSalsa20Poly1305Cipher) *[32]byte {
	for i := range ciphers {
		if ciphers[i].c == c {
			return ciphers[i].key
		}
	}
	Unmodelled("cipher")
	return nil
}

type sealed struct {
	key          [32]byte
	nonce, plain []byte
}

var seals []sealed

// model:(*github.com/nknorg/encrypted-stream.XSalsa20Poly1305Cipher).Encrypt
func Encrypt(c *stream.XSalsa20Poly1305Cipher, ciphertext, plaintext, nonce []byte) ([]byte, error) {
	seals = append(seals, sealed{*keyOf(c), append([]byte(nil), nonce[:24]...), append([]byte(nil), plaintext...)})
	n := len(seals)
	out := ciphertext[:len(plaintext)+16]
	for i := range out {
		out[i] = 0xEE
	}
	out[0], out[1] = byte(n>>8), byte(n)
	return out, nil
}

// model:(*github.com/nknorg/encrypted-stream.XSalsa20Poly1305Cipher).Decrypt
func Decrypt(c *stream.XSalsa20Poly1305Cipher, plaintext, ciphertext, nonce []byte) ([]byte, error) {
	bad := errors.New("decrypt failed")
	if len(ciphertext) < 16 {
		return nil, bad
	}
	n := int(ciphertext[0])<<8 + int(ciphertext[1])
	if n == 0 || n > len(seals) {
		return nil, bad
	}
	s := seals[n-1]
	if len(ciphertext) != len(s.plain)+16 {
		return nil, bad
	}
	for _, b := range ciphertext[2:] {
		if b != 0xEE {
			return nil, bad
		}
	}
	for i := range s.nonce {
		if nonce[i] != s.nonce[i] {
			return nil, bad
		}
	}
	if s.key != *keyOf(c) {
		return nil, bad
	}
	plaintext = plaintext[:len(s.plain)]
	copy(plaintext, s.plain)
	return plaintext, nil
}

type derived struct{ password, salt, key []byte }

var derivations []derived

//model:golang.org/x/crypto/pbkdf2.Key
func PBKDF2(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	for i := range derivations {
		d := &derivations[i]
		if len(d.key) == keyLen && string(d.password) == string(password) && string(d.salt) == string(salt) {
			return append([]byte(nil), d.key...)
		}
	}
	n := len(derivations) + 1
	k := make([]byte, keyLen)
	for i := range k {
		k[i] = 0xDD
	}
	if keyLen > 1 {
		k[0], k[1] = byte(n), 0xD1
	}
	derivations = append(derivations, derived{append([]byte(nil), password...), append([]byte(nil), salt...), append([]byte(nil), k...)})
	return k
}

//model:crypto/rand.Read
func RandRead(p []byte) (int, error) {
	n, err := io.ReadFull(rand.Reader, p)
	if err != nil {
		panic("crypto/rand: failed to read random data")
	}
	return n, nil
}
