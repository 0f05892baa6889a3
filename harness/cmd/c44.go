package cmd

import (
	"crypto/rand"
	"encoding/hex"
	"os"
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/term"
	"verif/sym"
)

// given is a way to give a secret on the command line, and what it stands for.
type given struct {
	args  []string
	env   []string // names and values of environment variables
	typed string
	bad   bool
	// a key (its last digit is arbitrary), or a password and a salt (the last
	// character of each is)
	key      bool
	secret   byte
	salt     byte
	standard bool // the salt is the default one
}

func digit(c byte) byte {
	return byte(sym.IteInt(c <= '9', int(c)-'0', sym.IteInt(c <= 'F', int(c)-'A'+10, int(c)-'a'+10)))
}

// arbitrary is s with its last character replaced by any of the given.
func arbitrary(s, of, name string) (string, byte) {
	b := []byte(s)
	c := byte(h.Of([]rune(of), name, 1)[0])
	b[len(b)-1] = c
	return string(b), c
}

const digits = "0123456789abcdefABCDEF"

// secrets is any of the ways to give a secret.
func secrets(name string, bad bool) (g given) {
	key := hex.EncodeToString(*pfk(1))
	if bad {
		g.bad = true
		switch sym.Choice(name, 6) {
		case 0:
			g.args = []string{"-K", key, "-P", long}
		case 1:
			g.args = []string{"-K", key[2:]}
		case 2:
			g.args = []string{"-K", key + "00"}
		case 3:
			g.args = []string{"-P", long, "-S", saltA[2:]}
		case 4:
			x, _ := arbitrary(saltA, "gGx /:@`", name)
			g.args = []string{"-P", long, "-S", x}
		case 5:
			x, _ := arbitrary(key, "gGx /:@`", name)
			g.args = []string{"-K", x}
		}
		return
	}
	how := sym.Choice(name, 3)
	if how == 0 {
		x, c := arbitrary(key, digits, name)
		g.args, g.key, g.secret = []string{"-K", x}, true, digit(c)
	} else {
		x, c := arbitrary(long, "aA \t", name)
		g.secret = c
		if how == 1 {
			g.args = []string{"-P", x}
		} else {
			g.typed = x
		}
	}
	switch sym.Choice(name+" salt", 3) {
	case 0:
		g.standard = true
	case 1:
		g.standard = true
		g.args = append(g.args, "-S", krypto431.DefaultSalt)
	case 2:
		x, c := arbitrary(saltA, digits, name+" salt")
		g.args, g.salt = append(g.args, "-S", x), digit(c)
	}
	return
}

// equal tells whether two stand for the same secret.
func equal(a, b given) bool {
	if a.bad || b.bad || a.key != b.key {
		return false
	}
	if a.key {
		return a.secret == b.secret
	}
	return a.standard == b.standard && sym.And(a.secret == b.secret, sym.Or(a.standard, a.salt == b.salt))
}

func (g given) run(twice bool, args ...string) (int, string) {
	term.Typed = nil
	faultos.Terminal(g.typed != "")
	if g.typed != "" {
		term.Typed = []string{g.typed}
		if twice {
			term.Typed = []string{g.typed, g.typed}
		}
	}
	for i := 0; i < len(g.env); i += 2 {
		os.Setenv(g.env[i], g.env[i+1])
		defer os.Unsetenv(g.env[i])
	}
	file := []string{"-f", path}
	for i := range g.env {
		if g.env[i] == "KRYPTO_FILE" {
			file = nil
		}
	}
	return bare(append(append(file, g.args...), args...)...)
}

// C44_Refused: a malformed or contradictory secret makes no store.
func C44_Refused() {
	begin()
	code, _ := secrets("made", true).run(true, "init", "-y", "-c", "OP", "-n", "1", "-l", "20")
	sym.Assert(code != 0, "a malformed or contradictory secret makes no store")
	sym.Assert(len(faultos.Paths()) == 0, "and nothing is written")
	begin()
	made := secrets("stored", false)
	code, _ = made.run(true, "init", "-y", "-c", "OP", "-n", "1", "-l", "20")
	sym.Assert(code == 0, "a store is made")
	opened(made, secrets("used", true))
	sym.Reach("done")
}

// C44_Opens makes a store with a secret and uses it with another.
func C44_Opens() {
	begin()
	made := secrets("made", false)
	code, _ := made.run(true, "init", "-y", "-c", "OP", "-n", "1", "-l", "20")
	sym.Assert(code == 0, "a store is made")
	opened(made, secrets("used", false))
}

// C44_Environment: a secret in the environment is as good as the same in an
// option, and an option takes precedence.
func C44_Environment() {
	begin()
	key := hex.EncodeToString(*pfk(1))
	m := given{args: []string{"-K", key}, key: true, secret: digit(key[len(key)-1])}
	if sym.Choice("made", 2) == 1 {
		m = given{args: []string{"-P", long, "-S", saltA}, secret: long[len(long)-1], salt: digit(saltA[len(saltA)-1])}
	}
	code, _ := m.run(true, "init", "-y", "-c", "OP", "-n", "1", "-l", "20")
	sym.Assert(code == 0, "a store is made")
	u := secrets("used", false)
	names := map[string]string{"-K": "KRYPTO_PFK", "-P": "KRYPTO_PASSWORD", "-S": "KRYPTO_SALT"}
	switch sym.Choice("environment", 3) {
	case 0: // everything
		u.env = []string{"KRYPTO_FILE", path}
		for i := 0; i < len(u.args); i += 2 {
			u.env = append(u.env, names[u.args[i]], u.args[i+1])
		}
		u.args = nil
	case 1: // overruled by options
		u.env = []string{"KRYPTO_PFK", key, "KRYPTO_PASSWORD", long, "KRYPTO_SALT", saltA}
		for i := 0; i < len(u.env); i += 2 {
			if !overruled(u.args, names, u.env[i]) {
				u.env = append(u.env[:i], u.env[i+2:]...)
				i -= 2
			}
		}
	case 2: // a key and a password
		u.env, u.bad = []string{"KRYPTO_PFK", key, "KRYPTO_PASSWORD", long}, true
	}
	opened(m, u)
}

func overruled(args []string, names map[string]string, env string) bool {
	for i := 0; i < len(args); i += 2 {
		if names[args[i]] == env {
			return true
		}
	}
	return false
}

func opened(made, use given) {
	was := bytes(path)
	changes := false
	var out string
	var code int
	switch sym.Choice("command", 3) {
	case 0:
		code, out = use.run(false, "keys", "-l")
	case 1:
		code, out = use.run(false, "messages", "-l")
	case 2:
		code, out = use.run(false, "keys", "-n", "1")
		changes = true
	}
	same := sym.Fork(equal(made, use))
	sym.Assert((code == 0) == same, "a store opens with exactly the secret it was made with")
	if same {
		sym.Assert((bytes(path) != was) == changes, "a change is saved")
		code, out = made.run(false, "keys", "-l")
		sym.Assert(code == 0 && strings.Contains(out, "OP"), "with the same secret")
		sym.Reach("opt:opens")
	} else {
		sym.Assert(bytes(path) == was && out == "", "nothing is shown or changed otherwise")
		sym.Reach("refused")
	}
}

// source is a random source whose first and last bytes of every read are
// arbitrary.
type source struct{ got [][]byte }

func (s *source) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(0x3C + i)
		if i == 0 || i == len(p)-1 {
			p[i] = sym.Byte("random", 0, 255)
		}
	}
	s.got = append(s.got, append([]byte(nil), p...))
	return len(p), nil
}

// drawn tells whether what is shown are the bytes of one of the reads.
func drawn(shown string, got [][]byte) bool {
	any := false
	for _, p := range got {
		any = sym.Or(any, hex.EncodeToString(p) == shown[:64])
	}
	return any
}

// C44_Generated: a store made with a key or salt the program generated opens
// with what was shown.
func C44_Generated() {
	begin()
	faultos.Terminal(false)
	s := &source{}
	rand.Reader = s
	salt := sym.Choice("what", 2) == 1
	args := []string{"pfk", "-g", "-r"}
	if salt {
		args = []string{"pfk", "-G"}
	}
	code, out := bare(args...)
	sym.Assert(code == 0 && len(out) == 65 && out[64] == '\n', "64 digits are shown")
	n := len(s.got)
	code, again := bare(args...)
	sym.Assert(code == 0 && len(again) == 65, "64 digits are shown again")
	sym.Assert(drawn(out, s.got[:n]) && drawn(again, s.got[n:]), "32 random bytes each time")
	fresh := sym.Fork(out == again)
	rnd.UseFixed()
	use := func(shown string) []string {
		if salt {
			return []string{"-f", path, "-P", long, "-S", shown[:64]}
		}
		return []string{"-f", path, "-K", shown[:64]}
	}
	code, _ = bare(append(use(out), "init", "-y", "-c", "OP", "-n", "1", "-l", "20")...)
	sym.Assert(code == 0, "it makes a store")
	code, _ = bare(append(use(out), "keys", "-l")...)
	sym.Assert(code == 0, "which it opens")
	code, _ = bare(append(use(again), "keys", "-l")...)
	sym.Assert((code == 0) == fresh, "another does not")
	x := krypto431.New(krypto431.WithPersistence(path))
	if salt {
		sym.Assert(x.SetSaltFromString(out[:64]) == nil && x.SetPFKFromPassword(long) == nil, "a salt")
	} else {
		sym.Assert(x.SetPFKFromString(out[:64]) == nil, "a key")
	}
	sym.Assert(x.Load() == nil, "as does the library")
	if fresh {
		sym.Reach("same")
	} else {
		sym.Reach("different")
	}
}

// C44_Position: keys, passwords and salts of different lengths, an arbitrary
// character of each anywhere.
func C44_Position() {
	begin()
	faultos.Terminal(false)
	what := sym.Choice("what", 3)
	put := func(s, of string, at int, name string) (string, byte) {
		b := []byte(s)
		c := byte(h.Of([]rune(of), name, 1)[0])
		b[at*(len(b)-1)/3] = c
		return string(b), c
	}
	var text, of string
	switch what {
	case 0:
		text, of = hex.EncodeToString(*pfk(1)), "01ef"
	case 1:
		text, of = strings.Repeat(long, 1+sym.Choice("length", 5)), "aA 1"
	case 2:
		text, of = strings.Repeat(saltA, 5)[:len(saltA)+2*[]int{0, 1, 16, 32, 100}[sym.Choice("length", 5)]], "01ef"
	}
	at := sym.Choice("at", 4)
	x, a := put(text, of, at, "made")
	y, b := put(text, of, at, "used")
	use := func(s string) []string {
		switch what {
		case 0:
			return []string{"-K", s}
		case 1:
			return []string{"-P", s}
		}
		return []string{"-P", long, "-S", s}
	}
	code, _ := bare(append(append([]string{"-f", path}, use(x)...), "init", "-y", "-c", "OP", "-n", "1", "-l", "20")...)
	sym.Assert(code == 0, "a store is made")
	code, _ = bare(append(append([]string{"-f", path}, use(y)...), "keys", "-l")...)
	if sym.Fork(a == b) {
		sym.Reach("same")
		sym.Assert(code == 0, "it opens with the same")
	} else {
		sym.Reach("different")
		sym.Assert(code != 0, "and with no other")
	}
}
