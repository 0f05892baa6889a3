package disk

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"

	"github.com/AlecAivazis/survey/v2"
	stream "github.com/nknorg/encrypted-stream"
	"github.com/sa6mwa/krypto431"
	"verif/harness/sim/faultos"
	sims "verif/harness/sim/survey"
	"verif/sym"
)

func withOverwrite(b bool) krypto431.Option { return krypto431.WithOverwritePersistenceIfExists(b) }

type conn struct{ *bytes.Reader }

func (conn) Write(p []byte) (int, error) { return len(p), nil }
func (conn) Close() error                { return nil }

// decrypts tells whether all of data is what the cipher makes under key, and
// returns how many bytes were sealed in it.
func decrypts(data []byte, key [32]byte) (int, error) {
	s, err := stream.NewEncryptedStream(conn{bytes.NewReader(data)}, &stream.Config{Cipher: stream.NewXSalsa20Poly1305Cipher(&key)})
	if err != nil {
		return 0, err
	}
	n := 0
	b := make([]byte, 200)
	for {
		m, err := s.Read(b)
		n += m
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// sealed checks every file on the disk.
func sealedFiles(at string, key *[]byte) {
	var a [32]byte
	copy(a[:], *key)
	for _, p := range faultos.Paths() {
		if p != at {
			continue
		}
		data, _ := faultos.Get(p)
		sym.Assert(faultos.Mode(p)&0o077 == 0, "only the owner has access")
		n, err := decrypts(data, a)
		sym.Assert(err == nil && n > 20, "everything in the file comes out of the cipher keyed with the persistence key")
		a[sym.Choice("byte", 32)] ^= 1
		_, err = decrypts(data, a)
		sym.Assert(err != nil, "another key opens nothing")
		_, err = gzip.NewReader(bytes.NewReader(data))
		sym.Assert(err != nil, "not readable without a key")
	}
}

func C21_Sealed() {
	begin()
	key := make([]byte, 32)
	for i := range key {
		key[i] = sym.Byte("key", 0, 255)
	}
	kk := append([]byte(nil), key...)
	k := store("k", sym.Choice("keys", 2), sym.Choice("messages", 2), krypto431.WithPFK(&kk))
	err := k.Save()
	sym.Assert(err == nil, "saves")
	ps := faultos.Paths()
	sym.Assert(len(ps) == 1 && ps[0] == path, "only the configured file is written")
	sealedFiles(path, &key)
	sym.Reach("saved")
}

// C21_Private looks at the file at every point of the save.
func C21_Private() {
	begin()
	mode := []faultos.FileMode{0, 0o600, 0o644, 0o666, 0o400}[sym.Choice("mode", 5)]
	if mode != 0 {
		faultos.Put(path, []byte("old"), mode)
	}
	k := store("k", 1, 0, withOverwrite(true))
	faultos.Arm(faultos.Plan{Fail: -1, Crash: sym.Int("crash", 0, most), Half: sym.Bool("half")})
	_, died := faultos.Process(func() { k.Save() })
	faultos.Disarm()
	for _, p := range faultos.Paths() {
		data, _ := faultos.Get(p)
		if string(data) != "old" && len(data) > 0 {
			sym.Assert(faultos.Mode(p)&0o077 == 0, "only the owner has access")
		}
	}
	if died {
		sym.Reach("died")
	} else {
		sealedFiles(path, pfk(1))
		sym.Reach("saved")
	}
}

// C21_Exists has a file already.
func C21_Exists() {
	begin()
	faultos.Put(path, []byte("precious"), 0o600)
	overwrite, interactive, tty := sym.Fork(sym.Bool("overwrite")), sym.Fork(sym.Bool("interactive")), sym.Fork(sym.Bool("terminal"))
	yes, fail := sym.Fork(sym.Bool("yes")), sym.Fork(sym.Bool("interrupted"))
	faultos.Terminal(tty)
	asked := 0
	sims.Answer = func(p survey.Prompt, response any) error {
		_, ok := p.(*survey.Confirm)
		sym.Assert(ok, "a yes/no question")
		asked++
		if fail {
			return errors.New("interrupt")
		}
		*response.(*bool) = yes
		return nil
	}
	k := store("k", 1, 0, withOverwrite(overwrite), krypto431.WithInteractive(interactive))
	faultos.Arm(faultos.Plan{Fail: -1, Crash: -1})
	err := k.Save()
	data, _ := faultos.Get(path)
	may := overwrite || interactive && tty && yes && !fail
	if may {
		sym.Assert(err == nil && string(data) != "precious", "overwrites")
		sealedFiles(path, pfk(1))
		sym.Reach("overwritten")
	} else {
		sym.Assert(string(data) == "precious" && len(faultos.Paths()) == 1, "an existing file is left alone")
		for _, x := range faultos.Kinds() {
			sym.Assert(x == "stat" || x == "lstat", "nothing is written")
		}
		sym.Assert(err != nil || asked > 0, "a refusal is reported")
		sym.Reach("refused")
	}
	sym.Assert(asked == 0 || !overwrite, "nobody is asked in vain")
}

// C21_NoKey has no persistence key.
func C21_NoKey() {
	begin()
	if sym.Fork(sym.Bool("existing")) {
		faultos.Put(path, []byte("precious"), 0o600)
	}
	n := len(faultos.Paths())
	k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithOverwritePersistenceIfExists(sym.Bool("overwrite")), krypto431.WithInteractive(sym.Bool("interactive")))
	k.Keys = append(k.Keys, key(&k, "k"))
	err := k.Save()
	sym.Assert(err != nil, "saving without a key is an error")
	data, ok := faultos.Get(path)
	sym.Assert(len(faultos.Paths()) == n && (!ok || string(data) == "precious"), "nothing is written without a key")
	sym.Reach("refused")
}
