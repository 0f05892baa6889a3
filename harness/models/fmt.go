// Package models holds Go stand-ins for library functions the engine does not
// interpret (reflection, files, clocks). The directive names the function a
// stand-in replaces. They run only under the engine; every run replays sampled
// paths natively against the real library, which would expose a wrong model.
package models

import (
	"errors"
	"io"
	"os"
	"strconv"
	"time"
)

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type stringer interface{ String() string }

// text renders one operand under %v or %s.
func text(a any, verb byte) string {
	switch v := a.(type) {
	case nil:
		return "<nil>"
	case error:
		return v.Error()
	case stringer:
		return v.String()
	case string:
		return v
	case []byte:
		return string(v)
	case bool:
		if v {
			return "true"
		}
		return "false"
	case int:
		return strconv.Itoa(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case int32:
		return strconv.Itoa(int(v))
	case uint:
		return strconv.FormatUint(uint64(v), 10)
	case uint8:
		return strconv.Itoa(int(v))
	case uint32:
		return strconv.FormatUint(uint64(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case []string:
		out := "["
		for i, e := range v {
			if i > 0 {
				out += " "
			}
			out += e
		}
		return out + "]"
	case os.FileMode:
		return "mode"
	}
	return Unmodelled("fmt operand")
}

// Unmodelled ends the path as unsupported under the engine.
func Unmodelled(what string) string { panic("unmodelled: " + what) }

func pad(s string, width int, left, zero bool) string {
	n := 0
	for range s {
		n++
	}
	for n < width {
		if left {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
		n++
	}
	return s
}

//model:fmt.Sprintf
func Sprintf(format string, args ...any) string {
	out := ""
	k := 0
	start := 0
	i := 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		out += format[start:i]
		i++
		left, zero, plus := false, false, false
		width, prec := 0, -1
		for i < len(format) && (format[i] == '-' || format[i] == '0' || format[i] == '+' || format[i] == '#') {
			left = left || format[i] == '-'
			zero = zero || format[i] == '0'
			plus = plus || format[i] == '+'
			if format[i] == '#' {
				Unmodelled("# flag")
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			start = i
			break
		}
		verb := format[i]
		i++
		start = i
		if verb == '%' {
			out += "%"
			continue
		}
		if k >= len(args) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		a := args[k]
		k++
		s := ""
		switch verb {
		case 'v', 's', 'd', 't', 'w':
			s = text(a, verb)
			if plus && verb != 'd' {
				s = Unmodelled("+ flag")
			}
			if verb == 'd' && zero && !left && width > 0 && len(s) > 0 {
				// zeros go between sign and digits
				sign := ""
				if s[0] == '-' {
					sign, s = "-", s[1:]
				} else if plus {
					sign = "+"
				}
				s = sign + pad(s, width-len(sign), false, true)
			} else if verb == 'd' && plus && s[0] != '-' {
				s = "+" + s
			}
		case 'q':
			s = strconv.Quote(text(a, verb))
		case 'c':
			if r, ok := a.(rune); ok {
				s = string(r)
			} else {
				s = Unmodelled("%c operand")
			}
		case 'p':
			s = "0xc000000000"
		case 'f':
			f, ok := a.(float64)
			if !ok {
				s = Unmodelled("%f operand")
			} else {
				if prec < 0 {
					prec = 6
				}
				s = strconv.FormatFloat(f, 'f', prec, 64)
			}
		default:
			s = Unmodelled("fmt verb")
		}
		out += pad(s, width, left, zero)
	}
	return out + format[start:]
}

//model:fmt.Errorf
func Errorf(format string, args ...any) error {
	msg := Sprintf(format, args...)
	k := -1
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == 'w' {
				k = n
			}
			if format[i+1] != '%' {
				n++
			}
			i++
		}
	}
	if k >= 0 && k < len(args) {
		if e, ok := args[k].(error); ok {
			return &wrapError{msg, e}
		}
	}
	return errors.New(msg)
}

// Out receives what the program prints to standard output.
var Out []string

func emit(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok {
		if f == os.Stdout {
			Out = append(Out, s)
		}
		return len(s), nil
	}
	return w.Write([]byte(s))
}

// discards says whether what is written to w is ignored.
func discards(w io.Writer) bool {
	if f, ok := w.(*os.File); ok {
		return f == os.Stderr
	}
	d, ok := w.(interface{ Discards() bool })
	return ok && d.Discards()
}

//model:fmt.Fprintf
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	if discards(w) {
		return 0, nil
	}
	return emit(w, Sprintf(format, args...))
}

func sprint(args []any, ln bool) string {
	s := ""
	for i, a := range args {
		if i > 0 && ln {
			s += " "
		}
		s += text(a, 'v')
	}
	if ln {
		s += "\n"
	}
	return s
}

//model:fmt.Fprintln
func Fprintln(w io.Writer, args ...any) (int, error) {
	if discards(w) {
		return 0, nil
	}
	return emit(w, sprint(args, true))
}

//model:fmt.Fprint
func Fprint(w io.Writer, args ...any) (int, error) {
	if discards(w) {
		return 0, nil
	}
	return emit(w, sprint(args, false))
}

//model:fmt.Printf
func Printf(format string, args ...any) (int, error) {
	return emit(os.Stdout, Sprintf(format, args...))
}

//model:fmt.Println
func Println(args ...any) (int, error) { return emit(os.Stdout, sprint(args, true)) }

//model:fmt.Print
func Print(args ...any) (int, error) { return emit(os.Stdout, sprint(args, false)) }

//model:fmt.Sprint
func Sprint(args ...any) string { return sprint(args, false) }

//model:fmt.Sprintln
func Sprintln(args ...any) string { return sprint(args, true) }

// Clock is the time returned by time.Now when a harness sets it.
var Clock = time.Unix(1700000000, 0).UTC()

//model:time.Now
func Now() time.Time { return Clock }
