package cmd

import (
	"time"

	lib "github.com/AlecAivazis/survey/v2"
	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/harness/sim/term"
	"verif/sym"
)

const (
	inPath   = "/home/op/in"
	textPath = "/home/op/text.txt"
)

// world is what is there after some commands.
type world struct {
	code          int
	out           string
	store, export *krypto431.Krypto431
	text          string
}

// operation is one option of the keys or messages command and what it needs.
type operation struct {
	args  []string
	typed string // on standard input
}

// session runs commands on a store made by make, until one fails.
func session(prepare func(), commands [][]operation, command string, criteria []string) (w world) {
	begin()
	prepare()
	faultos.Terminal(true)
	survey.Answer = func(p lib.Prompt, response any) error {
		switch p := p.(type) {
		case *lib.MultiSelect:
			*response.(*[]string) = p.Options[:1]
		case *lib.Confirm:
			*response.(*bool) = true
		}
		return nil
	}
	for _, ops := range commands {
		args := []string{command}
		stdin := ""
		for _, op := range ops {
			args, stdin = append(args, op.args...), stdin+op.typed
		}
		faultos.Terminal(stdin == "")
		faultos.Type(stdin)
		term.Typed = []string{"pass"}
		code, out := run(append(args, criteria...)...)
		w.out += out
		if w.code = code; code != 0 {
			break
		}
	}
	faultos.Terminal(false)
	w.store, _ = load(path)
	if _, ok := faultos.Get(outPath); ok {
		w.export, _ = load(outPath)
	}
	w.text = bytes(textPath)
	return
}

// close tells whether times are as good as the same: the clock goes on while
// a counterexample is run.
func close(a, b time.Time) bool {
	d := a.Sub(b)
	return d > -time.Minute && d < time.Minute
}

func alike(a, b *krypto431.Krypto431) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.Keys) != len(b.Keys) || len(a.Messages) != len(b.Messages) {
		return false
	}
	eq := true
	for i := range a.Keys {
		x, y := &a.Keys[i], &b.Keys[i]
		eq = sym.And(eq, sym.And(h.SameKey(x, y), h.Same2(x.Keepers, y.Keepers)))
		eq = sym.And(eq, sym.And(close(x.Created.Time, y.Created.Time), close(x.Expires.Time, y.Expires.Time)))
	}
	for i := range a.Messages {
		x, y := &a.Messages[i], &b.Messages[i]
		eq = sym.And(eq, sym.And(h.Same(x.Id, y.Id), sym.And(h.Same(x.PlainText, y.PlainText), sym.And(h.Same(x.CipherText, y.CipherText), h.Same2(x.Recipients, y.Recipients)))))
	}
	return eq
}

// steady keeps clear of the end of a minute, as what is shown has minutes.
func steady() {
	for s := time.Now().Second(); s >= 50 || s == 0; s = time.Now().Second() {
		time.Sleep(time.Second / 2)
	}
}

// together compares operations given in one command with one command each.
func together(prepare func(), ops []operation, command string, criteria []string) {
	var one [][]operation
	for _, op := range ops {
		one = append(one, []operation{op})
	}
	steady()
	apart := session(prepare, one, command, criteria)
	w := session(prepare, [][]operation{ops}, command, criteria)
	sym.Assert((w.code == 0) == (apart.code == 0), "a command succeeds exactly if each of its operations does")
	sym.Assert(alike(w.store, apart.store), "the store is as after a command for each")
	sym.Assert(alike(w.export, apart.export), "so is the exported one")
	sym.Assert(w.text == apart.text, "so is what was printed to a file")
	sym.Assert(w.out == apart.out, "so is what is shown")
	if w.code == 0 {
		sym.Reach("succeeds")
	} else {
		sym.Reach("fails")
	}
}

// pick chooses two of n operations (or more).
func pick(n int) (on []int) {
	if !sym.Thorough() {
		i, j := sym.Choice("first", n-1), 1+sym.Choice("second", n-1)
		sym.Assume(i < j)
		return []int{i, j}
	}
	for i := 0; i < n; i++ {
		if sym.Choice("operation", 2) == 1 {
			on = append(on, i)
		}
	}
	sym.Assume(len(on) >= 2)
	return
}

// C47_Keys: operations on keys.
func C47_Keys() {
	n := 2 * sym.Choice("keys", 2)
	used := sym.Bool("used")
	prepare := func() {
		k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk(1)), krypto431.WithGroupSize(3), krypto431.WithCallSign("OPR"), krypto431.WithKeyLength(20))
		for i, id := range []string{"ABC", "DBC"}[:n] {
			addKey(&k, id, used, false, []int{-2, 3}[i], [][]rune{[]rune("QQQ"), []rune("RQQ")}[i])
		}
		sym.Assert(k.Save() == nil, "saves")
		from := krypto431.New(krypto431.WithPersistence(inPath), krypto431.WithGroupSize(3), krypto431.WithCallSign("FRM"))
		sym.Assert(from.SetPFKFromPassword("pass") == nil, "sets")
		addKey(&from, "ABC", false, false, 3, []rune("QQQ"))
		addKey(&from, "GBC", false, false, 3, []rune("QQQ"))
		sym.Assert(from.Save() == nil, "saves")
	}
	var ops []operation
	for _, i := range pick(6) {
		ops = append(ops, operation{args: [][]string{{"-d"}, {"-n", "1"}, {"-I", inPath}, {"-E", outPath}, {"-l"}, {"-o", textPath}}[i]})
	}
	var criteria []string
	switch sym.Choice("criteria", 3) {
	case 1:
		criteria = []string{"-k", string(h.Of([]rune("QR"), "keeper", 1)) + "QQ"}
	case 2:
		criteria = []string{"--unused", "-y", "-i", string(h.Of([]rune("AdG"), "id", 1)) + "BC"}
	}
	together(prepare, ops, "keys", criteria)
}

// C47_Messages: operations on messages.
func C47_Messages() {
	n := 2 * sym.Choice("messages", 2)
	prepare := func() {
		k := krypto431.New(krypto431.WithPersistence(path), krypto431.WithPFK(pfk(1)), krypto431.WithGroupSize(3), krypto431.WithCallSign("OPR"), krypto431.WithKeyLength(20))
		addKey(&k, "ABC", false, false, 3, []rune("QQQ"))
		k.Keys[0].Runes = []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		for i, id := range []string{"AaAaAa", "BbBbBb"}[:n] {
			addMessage(&k, []rune(id), [][]rune{[]rune("QQQ"), []rune("FRM")}[i], []rune("OPR"))
			k.Messages[i].KeyId = []rune("ZZZ")
		}
		sym.Assert(k.Save() == nil, "saves")
	}
	var ops []operation
	for _, i := range pick(4) {
		op := operation{args: [][]string{{"-d"}, {"-n"}, {"-l"}, {"-o", textPath}}[i]}
		if i == 1 {
			text := string(h.Of([]rune("AB"), "text", 1))
			op.typed = []string{"QQQ DE OPR = HELLO " + text + " = K", "OPR DE QQQ = HELLO " + text + " = K", "nonsense"}[sym.Choice("new", 3)]
		}
		ops = append(ops, op)
	}
	criteria := [][]string{nil, {"-f", "QQQ"}, {"-t", "QQQ"}, {"-y", "-i", "AaAaAa"}}[sym.Choice("criteria", 4)]
	together(prepare, ops, "messages", criteria)
}
