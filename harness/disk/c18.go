package disk

import (
	"errors"

	"github.com/sa6mwa/krypto431"
	"verif/harness/sim/faultos"
	"verif/sym"
)

const otherPath = "/home/op/other"

// usable checks that k saves and loads exactly if it has a 32-byte key, and with
// that key.
func usable(k *krypto431.Krypto431) {
	k.SetPersistence(otherPath)
	p := k.GetPFK()
	var key []byte
	if p != nil && len(*p) == 32 {
		key = append([]byte(nil), *p...)
	}
	err := k.Save()
	if key == nil {
		sym.Assert(err != nil, "saving without a proper key is an error")
		sym.Assert(len(faultos.Paths()) == 0, "nothing is written without a proper key")
		// something to load
		s := store("s", 1, 0, krypto431.WithPersistence(otherPath))
		sym.Assert(s.Save() == nil, "saves")
		err = k.Load()
		sym.Assert(err != nil, "loading without a proper key is an error")
		sym.Reach("opt:refused")
		return
	}
	sym.Assert(err == nil, "saves with a proper key")
	_, err = load(otherPath, &key)
	sym.Assert(err == nil, "with exactly that key")
	err = k.Load()
	sym.Assert(err == nil, "and loads with it")
	sym.Reach("opt:accepted")
}

func lengths(name string, ns ...int) int { return ns[sym.Choice(name, len(ns))] }

// C18_WithPFK hands over any bytes.
func C18_WithPFK() {
	begin()
	n := lengths("len", -1, 0, 1, 16, 31, 32, 33, 64)
	var p *[]byte
	if n >= 0 {
		p = secret("pfk", n)
	}
	k := krypto431.New(krypto431.WithPFK(p))
	sym.Assert(k.GetPFK() == nil || len(*k.GetPFK()) == 32, "no key but a 32-byte one")
	sym.Assert((k.GetPFK() != nil) == (n == 32), "a 32-byte key is taken")
	usable(&k)
	sym.Reach("done")
}

// text is a string of n characters, the last two of which are arbitrary.
func text(name string, n int) (string, bool, []byte) {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefABCDEF"[i%22]
	}
	ok := n%2 == 0
	for i := n - 2; i < n; i++ {
		if i >= 0 {
			b[i] = []byte{'0', 'f', 'B', 'g', 'G', ' ', '/', '@', '\n', 0xC3}[sym.Choice(name, 10)]
			ok = ok && (b[i] == '0' || b[i] == 'f' || b[i] == 'B')
		}
	}
	var raw []byte
	if ok {
		nib := func(c byte) byte {
			switch {
			case c <= '9':
				return c - '0'
			case c <= 'F':
				return c - 'A' + 10
			}
			return c - 'a' + 10
		}
		raw = []byte{}
		for i := 0; i < n; i += 2 {
			raw = append(raw, nib(b[i])<<4|nib(b[i+1]))
		}
	}
	return string(b), ok, raw
}

func C18_PFKString() {
	begin()
	s, ok, raw := text("char", lengths("len", 0, 2, 32, 62, 63, 64, 65, 66, 128))
	fits := ok && len(raw) == 32
	if sym.Fork(sym.Bool("setter")) {
		k := krypto431.New()
		had := sym.Fork(sym.Bool("had"))
		var was []byte
		if had {
			k = krypto431.New(krypto431.WithPFK(pfk(9)))
			was = *pfk(9)
		}
		err := k.SetPFKFromString(s)
		sym.Assert((err == nil) == fits, "exactly 64 hexadecimal digits are accepted")
		if err == nil {
			sym.Assert(holds(k.GetPFK(), raw), "and become the key")
		} else {
			sym.Assert(holds(k.GetPFK(), was), "an error leaves the previous key in place")
		}
		usable(&k)
		sym.Reach("setter")
		return
	}
	k := krypto431.New(krypto431.WithPFKString(s))
	if fits {
		sym.Assert(holds(k.GetPFK(), raw), "64 hexadecimal digits become the key")
	} else {
		sym.Assert(k.GetPFK() == nil, "nothing else does")
	}
	usable(&k)
	sym.Reach("option")
}

func C18_Salt() {
	begin()
	def := *krypto431New().GetSalt()
	switch sym.Choice("how", 3) {
	case 0:
		n := lengths("len", -1, 0, 1, 31, 32, 40)
		var p *[]byte
		if n >= 0 {
			p = secret("salt", n)
		}
		k := krypto431.New(krypto431.WithSalt(p))
		if n >= 32 {
			sym.Assert(holds(k.GetSalt(), *p), "a long enough salt is taken")
		} else {
			sym.Assert(k.GetSalt() == nil, "a short one is not")
		}
		sym.Reach("bytes")
	case 1:
		s, ok, raw := text("char", lengths("len", 0, 2, 62, 63, 64, 65, 70))
		k := krypto431.New(krypto431.WithSaltString(s))
		if ok && len(raw) >= 32 {
			sym.Assert(holds(k.GetSalt(), raw), "a long enough salt is taken")
		} else {
			sym.Assert(k.GetSalt() == nil, "nothing else is")
		}
		sym.Reach("option")
	case 2:
		s, ok, raw := text("char", lengths("len", 0, 2, 62, 63, 64, 65, 70))
		k := krypto431.New()
		err := k.SetSaltFromString(s)
		sym.Assert((err == nil) == (ok && len(raw) >= 32), "exactly 32 bytes or more in hexadecimal are accepted")
		if err == nil {
			sym.Assert(holds(k.GetSalt(), raw), "and become the salt")
		} else {
			sym.Assert(holds(k.GetSalt(), def), "an error leaves the previous salt in place")
		}
		sym.Reach("setter")
	}
}

func krypto431New() *krypto431.Krypto431 { k := krypto431.New(); return &k }

// C18_Derive derives keys from passwords.
func C18_Derive() {
	begin()
	n := lengths("saltlen", -1, 0, 31, 32)
	var salt *[]byte
	if n >= 0 {
		salt = secret("salt", n)
	}
	k := krypto431.New(krypto431.WithPFK(pfk(9)))
	if sym.Fork(sym.Bool("short later")) && salt != nil {
		s := make([]byte, 32)
		k = krypto431.New(krypto431.WithPFK(pfk(9)), krypto431.WithSalt(&s))
		s = *salt
	} else {
		k = krypto431.New(krypto431.WithPFK(pfk(9)), krypto431.WithSalt(salt))
	}
	pw := []byte([]string{"", "x", "correct horse battery staple 4711!"}[sym.Choice("password", 3)])
	all := pw[:len(pw):len(pw)]
	pp := &pw
	if sym.Fork(sym.Bool("nil")) {
		pp = nil
	}
	var err error
	strict := sym.Fork(sym.Bool("validate"))
	if strict {
		err = k.DerivePFKFromPasswordWithValidation(pp)
	} else {
		err = k.DerivePFKFromPassword(pp)
	}
	if err == nil {
		sym.Assert(pp != nil && n >= 32, "no key without password or salt")
		sym.Assert(!strict || len(all) > 1, "no key from a weak password when validating")
		sym.Assert(k.GetPFK() != nil && len(*k.GetPFK()) == 32 && !holds(k.GetPFK(), *pfk(9)), "a new 32-byte key")
		sym.Reach("derived")
	} else {
		sym.Assert(pp == nil || n < 32 || strict && len(all) < 2, "derives")
		sym.Assert(holds(k.GetPFK(), *pfk(9)), "an error leaves the previous key in place")
		sym.Reach("refused")
	}
	usable(&k)
}

// C18_Password does the same with the setter.
func C18_Password() {
	begin()
	k := krypto431.New(krypto431.WithPFK(pfk(9)))
	if sym.Fork(sym.Bool("nosalt")) {
		k = krypto431.New(krypto431.WithPFK(pfk(9)), krypto431.WithSalt(nil))
		err := k.SetPFKFromPassword("pass")
		sym.Assert(err != nil, "no key without salt")
		sym.Assert(holds(k.GetPFK(), *pfk(9)), "an error leaves the previous key in place")
		sym.Reach("nosalt")
	} else {
		l := krypto431.New()
		sym.Assert(k.SetPFKFromPassword("pass") == nil && l.SetPFKFromPassword("pass") == nil, "derives")
		sym.Assert(holds(l.GetPFK(), bytesCopy(k.GetPFK())), "the same key from the same password and salt")
		m := krypto431.New(krypto431.WithSalt(secret2(32)))
		sym.Assert(m.SetPFKFromPassword("pass") == nil && !holds(m.GetPFK(), bytesCopy(k.GetPFK())), "another key with another salt")
		sym.Assert(l.SetPFKFromPassword("pasS") == nil && !holds(l.GetPFK(), bytesCopy(k.GetPFK())), "another key from another password")
		sym.Reach("derived")
	}
	usable(&k)
}

func secret2(n int) *[]byte { b := make([]byte, n); return &b }

// C18_Wiped uses instances after their end.
func C18_Wiped() {
	begin()
	k := krypto431.New(krypto431.WithPFK(pfk(9)))
	switch sym.Choice("how", 7) {
	case 0:
		k.Wipe()
	case 1:
		k.Close()
	case 2:
		k = krypto431.Krypto431{}
	case 3:
		k = krypto431.New()
		k = k.ExportKeys(func(*krypto431.Key) bool { return true })
	case 4:
		l := k.ExportKeys(func(*krypto431.Key) bool { return true })
		k.Wipe()
		k = l
	case 5:
		k.Wipe()
		k = k.ExportKeys(func(*krypto431.Key) bool { return true })
	case 6:
		k.Wipe()
		err := k.SetPFKFromPassword("pass")
		sym.Assert(err != nil || k.GetSalt() != nil && len(*k.GetSalt()) >= 32, "no key is derived with a wiped salt")
	}
	usable(&k)
	sym.Reach("done")
}

// C18_Aliased changes the bytes behind the instance's back.
func C18_Aliased() {
	begin()
	p := *pfk(9)
	k := krypto431.New(krypto431.WithPFK(&p))
	switch sym.Choice("how", 5) {
	case 0:
		p = p[:lengths("len", 0, 1, 16, 31)]
	case 1:
		p = nil
	case 2:
		p = append(p, 1)
	case 3:
		krypto431.WipeBytes(k.GetPFK())
	case 4:
		p[sym.Choice("i", 32)]++
	}
	usable(&k)
	sym.Reach("done")
}

// C18_Interrupted: a wrong key file name, no terminal.
func C18_Missing() {
	begin()
	k := krypto431.New(krypto431.WithPersistence("/home/op/none"), krypto431.WithInteractive(sym.Bool("interactive")))
	if sym.Fork(sym.Bool("key")) {
		k = krypto431.New(krypto431.WithPersistence("/home/op/none"), krypto431.WithPFK(pfk(1)))
	}
	if sym.Fork(sym.Bool("nofile")) {
		k.SetPersistence("")
		sym.Assert(errors.Is(k.Save(), krypto431.ErrNoPersistence), "saving without a file name is an error")
	}
	sym.Assert(k.Load() != nil, "loading what is not there is an error")
	sym.Assert(len(faultos.Paths()) == 0, "nothing is created by loading")
	sym.Reach("done")
}
