// Package fmt is package fmt with standard output simulated.
package fmt

import (
	"fmt"
	"io"

	"verif/harness/sim/faultos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
)

func Printf(f string, a ...any) (int, error)      { return fmt.Fprintf(faultos.Stdout, f, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(faultos.Stdout, a...) }
func Print(a ...any) (int, error)                 { return fmt.Fprint(faultos.Stdout, a...) }
func Sprintf(f string, a ...any) string           { return fmt.Sprintf(f, a...) }
func Sprintln(a ...any) string                    { return fmt.Sprintln(a...) }
func Sprint(a ...any) string                      { return fmt.Sprint(a...) }
func Errorf(f string, a ...any) error             { return fmt.Errorf(f, a...) }
func Append(b []byte, a ...any) []byte            { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte { return fmt.Appendf(b, f, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return fmt.Fprintf(w, f, a...)
}
func Fprintln(w io.Writer, a ...any) (int, error)         { return fmt.Fprintln(w, a...) }
func Fprint(w io.Writer, a ...any) (int, error)           { return fmt.Fprint(w, a...) }
func Sscanf(s, f string, a ...any) (int, error)           { return fmt.Sscanf(s, f, a...) }
func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
func Scanln(a ...any) (int, error)                        { return fmt.Fscanln(faultos.Stdin, a...) }
func Scan(a ...any) (int, error)                          { return fmt.Fscan(faultos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)               { return fmt.Fscanf(faultos.Stdin, f, a...) }
