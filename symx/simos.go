package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// simImports are the packages through which the code reaches the outside world
// and their stand-ins.
var simImports = map[string][2]string{
	"os":                               {"os", "verif/harness/sim/faultos"},
	"fmt":                              {"fmt", "verif/harness/sim/fmt"},
	"path/filepath":                    {"filepath", "verif/harness/sim/filepath"},
	"io/ioutil":                        {"ioutil", "verif/harness/sim/ioutil"},
	"os/signal":                        {"signal", "verif/harness/sim/signal"},
	"golang.org/x/term":                {"term", "verif/harness/sim/term"},
	"golang.org/x/crypto/ssh/terminal": {"terminal", "verif/harness/sim/term"},
	"github.com/AlecAivazis/survey/v2": {"survey", "verif/harness/sim/survey"},
	"github.com/jung-kurt/gofpdf":      {"gofpdf", "verif/harness/sim/gofpdf"},
}

// simSource rewrites the imports of a source file; lines stay where they are.
func simSource(path string, src []byte) ([]byte, error) {
	return replaceImports(path, src, simImports)
}

func replaceImports(path string, src []byte, repl map[string][2]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type edit struct {
		from, to int
		s        string
	}
	var es []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		r, ok := repl[p]
		if !ok {
			continue
		}
		s := strconv.Quote(r[1])
		if im.Name == nil {
			s = r[0] + " " + s
		}
		es = append(es, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, s})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	out := string(src)
	for _, e := range es {
		out = out[:e.from] + e.s + out[e.to:]
	}
	return []byte(out), nil
}

var simulated bool

// simOverlay generates, from the current tree, /repo's library and command with
// the operating system simulated. The command becomes package cmd431 of the
// harness module, so that its main function can be called.
func simOverlay() (map[string][]byte, error) {
	simulated = true
	out := map[string][]byte{}
	for _, d := range [][2]string{{"/repo", ""}, {"/repo/cmd/krypto431", "cmd431"}} {
		fs, err := filepath.Glob(d[0] + "/*.go")
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			b, err := simSource(f, src)
			if err != nil {
				return nil, err
			}
			if d[1] == "" {
				out[f] = b
				continue
			}
			s := strings.Replace("\n"+string(b), "\npackage main", "\npackage "+d[1], 1)
			out[verifDir+"/harness/"+d[1]+"/gen_"+filepath.Base(f)] = []byte(fmt.Sprintf("//line %s:1\n", f) + s[1:])
		}
	}
	out[verifDir+"/harness/cmd431/gen_verif_main.go"] = []byte("package cmd431\n\n// Main is the command's main function.\nfunc Main() { main() }\n")
	return out, nil
}

// overlays are the generated sources a check asks for.
func overlays(os, threads bool) (map[string][]byte, error) {
	out := map[string][]byte{}
	add := func(f func() (map[string][]byte, error)) error {
		m, err := f()
		for k, v := range m {
			out[k] = v
		}
		return err
	}
	if os {
		if err := add(simOverlay); err != nil {
			return nil, err
		}
	}
	if threads {
		if err := add(threadOverlay); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// writeOverlay stores overlay contents as files for the go command.
func writeOverlay(dir string, ov map[string][]byte, repl map[string]string) error {
	i := 0
	for k, b := range ov {
		f := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(k)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return err
		}
		repl[k] = f
	}
	return nil
}
