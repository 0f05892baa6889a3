package disk

import (
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/harness/h"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/gofpdf"
	"verif/sym"
)

const sheet = "/home/op/sheet"

// printable makes an instance with keys and messages whose print-outs are of
// the given sizes: 0 short, 1 half a page, 2 more than a page.
func printable(keys, messages []int) *krypto431.Krypto431 {
	faultos.Reset()
	rnd.UseFixed()
	k := krypto431.New(krypto431.WithGroupSize(2), krypto431.WithCallSign("OP"), krypto431.WithPersistence("/home/op/store"))
	k.KeyColumns = 4
	for i, size := range keys {
		n := []int{2, 90, 200}[size]
		x := krypto431.Key{Id: []rune("KA"), Runes: []rune(strings.Repeat("QWERTYUIOP", n/10+1)[:n])}
		x.Id[1] += rune(i)
		x.Runes[1] = h.Letters("key", 1)[0]
		x.Created.Time, x.Expires.Time = time.Unix(1000000, 0).UTC(), time.Unix(2000000000, 0).UTC()
		x.SetInstance(&k)
		k.Keys = append(k.Keys, x)
	}
	for i, size := range messages {
		n := []int{2, 20, 70}[size]
		m := krypto431.Message{Id: []rune("mesA"), From: []rune("FROM"), PlainText: []rune(strings.Repeat(strings.Repeat("LINE", 23)+" ", n)[:n*93-2])}
		m.Id[3] += rune(i)
		m.PlainText[1] = h.Letters("text", 1)[0]
		m.DTG.Time = time.Unix(1000000, 0).UTC()
		m.SetInstance(&k)
		k.Messages = append(k.Messages, m)
	}
	return &k
}

func someFault() faultos.Plan {
	p := faultos.Plan{Fail: sym.Int("fail", -1, 10), Crash: -1}
	switch sym.Choice("kind", 4) {
	case 1:
		p.Sticky = true
	case 2:
		p.NoSpace, p.Short = true, true
	case 3:
		p.NoSpace = true
	}
	return p
}

// once decides that out is made of exactly the given texts and blank lines.
// In order tells whether they come in order.
func once(out string, texts []string, inOrder bool) {
	left := append([]string{}, texts...)
	for {
		for len(out) > 0 && (out[0] == '\n' || out[0] == '\r') {
			out = out[1:]
		}
		if out == "" {
			break
		}
		found := false
		for i, t := range left {
			if inOrder && i > 0 {
				break
			}
			for len(t) > 0 && (t[len(t)-1] == '\n' || t[len(t)-1] == '\r') {
				t = t[:len(t)-1]
			}
			if len(out) >= len(t) && out[:len(t)] == t {
				out, found = out[len(t):], true
				left = append(append([]string{}, left[:i]...), left[i+1:]...)
				break
			}
		}
		sym.Assert(found, "nothing but the items selected, each once and whole")
		if !found {
			return
		}
	}
	sym.Assert(len(left) == 0, "every item selected is printed")
}

// sheets takes the pages out of a written document.
func sheets(data string) []string {
	sym.Assert(strings.HasSuffix(data, gofpdf.Tail), "the document is complete")
	data = strings.TrimSuffix(data, gofpdf.Tail)
	pages := strings.Split(data, gofpdf.PageMark)
	sym.Assert(pages[0] == "", "only pages")
	return pages[1:]
}

func wholeFile(pdf bool, rows int, texts []string) {
	data, ok := faultos.Get(sheet)
	sym.Assert(ok, "the file is there")
	sym.Assert(faultos.Mode(sheet)&0o077 == 0, "only the owner has access")
	if !pdf {
		once(string(data), texts, true)
		return
	}
	all := ""
	for _, p := range sheets(string(data)) {
		p = strings.TrimRight(p, "\r\n")
		if n := strings.Count(p, "\n") + 1; n > rows {
			// only what does not fit a page goes over it
			single := false
			for _, t := range texts {
				single = single || strings.TrimRight(t, "\r\n") == p
			}
			sym.Assert(single, "what fits a page is not split between pages")
			sym.Reach("opt:over a page")
		}
		all += p + "\n"
	}
	once(all, texts, false)
}

func sameMessages(a, b []krypto431.Message) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && string(a[i].PlainText) == string(b[i].PlainText) && string(a[i].Id) == string(b[i].Id) && string(a[i].CipherText) == string(b[i].CipherText)
	}
	return ok
}

func printout(k *krypto431.Krypto431, plan faultos.Plan, pick []bool, keys, pdf bool) {
	var texts []string
	var was []krypto431.Key
	for i := range k.Keys {
		was = append(was, h.Snap(&k.Keys[i]))
		if keys && pick[i] {
			texts = append(texts, k.Keys[i].String())
		}
	}
	var messages []krypto431.Message
	for i := range k.Messages {
		m := &k.Messages[i]
		messages = append(messages, krypto431.Message{Id: h.Cp(m.Id), PlainText: h.Cp(m.PlainText)})
		if !keys && pick[i] {
			if pdf {
				texts = append(texts, m.String(95))
			} else {
				texts = append(texts, m.String())
			}
		}
	}
	chosenKey := func(x *krypto431.Key) bool {
		for i := range k.Keys {
			if x == &k.Keys[i] {
				return pick[i]
			}
		}
		return false
	}
	chosenMessage := func(m *krypto431.Message) bool {
		for i := range k.Messages {
			if m == &k.Messages[i] {
				return pick[i]
			}
		}
		return false
	}
	rows := 65
	if keys {
		rows = 87
	}
	var err error
	faultos.Arm(plan)
	switch {
	case keys && pdf:
		err = k.KeysPDF(chosenKey, sheet)
	case keys:
		err = k.KeysTextFile(chosenKey, sheet)
	case pdf:
		err = k.MessagesPDF(chosenMessage, sheet)
	default:
		err = k.MessagesTextFile(chosenMessage, sheet)
	}
	failed := faultos.Failed()
	faultos.Disarm()
	sym.ObserveBool("err", err != nil)
	for _, p := range faultos.Paths() {
		sym.Assert(p == sheet, "no other file appears")
	}
	for i := range was {
		sym.Assert(h.Equal(&k.Keys[i], &was[i]), "printing changes no key")
	}
	sym.Assert(sameMessages(k.Messages, messages), "printing changes no message")
	_, there := faultos.Get(sheet)
	switch {
	case failed != "":
		sym.Assert(err != nil, "what fails is reported")
		sym.Assert(!there || faultos.Mode(sheet)&0o077 == 0, "only the owner has access")
		sym.Reach("opt:reported")
	case len(texts) == 0:
		sym.Assert(!there, "nothing selected, no file")
		sym.Reach("opt:nothing selected")
	default:
		sym.Assert(err == nil, "succeeds when nothing fails")
		wholeFile(pdf, rows, texts)
		sym.Reach("complete")
	}
}

// C41_Faults: any operation fails.
func C41_Faults() {
	k := printable([]int{0, 0}, []int{0, 0})
	plan := someFault()
	pick := []bool{sym.Fork(sym.Bool("select")), sym.Fork(sym.Bool("select"))}
	printout(k, plan, pick, sym.Choice("what", 2) == 0, sym.Choice("how", 2) == 0)
}

// sizes picks the sizes of n print-outs.
func sizes(n int) (sizes []int, pick []bool) {
	for i := 0; i < n; i++ {
		sizes = append(sizes, sym.Choice("size", 3))
		pick = append(pick, true)
	}
	return
}

// C41_Keys, C41_Messages: print-outs of every size.
func C41_Keys() {
	s, pick := sizes(3)
	printout(printable(s, nil), faultos.Plan{Fail: -1, Crash: -1}, pick, true, true)
}

func C41_Messages() {
	s, pick := sizes(3)
	printout(printable(nil, s), faultos.Plan{Fail: -1, Crash: -1}, pick, false, true)
}

// C41_Text: the same as text.
func C41_Text() {
	s, pick := sizes(2)
	if sym.Choice("what", 2) == 0 {
		printout(printable(s, nil), faultos.Plan{Fail: -1, Crash: -1}, pick, true, false)
	} else {
		printout(printable(nil, s), faultos.Plan{Fail: -1, Crash: -1}, pick, false, false)
	}
}

func C41_ThoroughMore() {
	n := 4
	s, pick := sizes(n)
	printout(printable(nil, s), faultos.Plan{Fail: -1, Crash: -1}, pick, false, true)
}
