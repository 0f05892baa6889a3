// Package cmd decides what the command line program does, run from its main
// function over a simulated operating system.
package cmd

import (
	"encoding/hex"
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/harness/cmd431"
	"verif/harness/rnd"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
)

const path = "/home/op/store"

func pfk(b byte) *[]byte {
	p := make([]byte, 32)
	for i := range p {
		p[i] = b + byte(i)
	}
	return &p
}

func begin() {
	faultos.Reset()
	survey.Answer, survey.Asked = nil, ""
	rnd.UseFixed()
}

// in is a time relative to now.
func in(minutes int) dtg.DTG {
	return dtg.DTG{Time: time.Now().UTC().Add(time.Duration(minutes) * time.Minute)}
}

// run runs the program and returns its exit code and what it printed.
func run(args ...string) (int, string) {
	faultos.Stdout.Clear()
	code, _ := start(args...)
	return code, faultos.Printed()
}

func start(args ...string) (code int, died bool) {
	faultos.Args = append([]string{"krypto431", "-f", path, "-K", hex.EncodeToString(*pfk(1))}, args...)
	return faultos.Process(cmd431.Main)
}

func load(file string) (*krypto431.Krypto431, error) {
	k := krypto431.New(krypto431.WithPersistence(file), krypto431.WithPFK(pfk(1)))
	err := k.Load()
	return &k, err
}

// lines splits what was printed.
func lines(s string) (out []string) {
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return
}
