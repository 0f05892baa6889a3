package models

import (
	"errors"
	"io"
	"time"
)

//model:github.com/urfave/cli/v2.compileTime
func CliCompileTime() time.Time { return time.Unix(1700000000, 0) }

// The usage text goes to the real standard output and is not looked at.
//
//model:github.com/urfave/cli/v2.printHelp
func CliPrintHelp(out io.Writer, templ string, data interface{}) {}

//model:github.com/urfave/cli/v2.printHelpCustom
func CliPrintHelpCustom(out io.Writer, templ string, data interface{}, funcs map[string]interface{}) {
}

// The environment is empty at first.
var environment [][2]string

//model:os.LookupEnv
func OsLookupEnv(key string) (string, bool) {
	for i := range environment {
		if environment[i][0] == key {
			return environment[i][1], true
		}
	}
	return "", false
}

//model:syscall.Getenv
func SyscallGetenv(key string) (string, bool) { return OsLookupEnv(key) }

//model:os.Getenv
func OsGetenv(key string) string {
	v, _ := OsLookupEnv(key)
	return v
}

//model:os.Unsetenv
func OsUnsetenv(key string) error {
	var rest [][2]string
	for i := range environment {
		if environment[i][0] != key {
			rest = append(rest, environment[i])
		}
	}
	environment = rest
	return nil
}

//model:os.Setenv
func OsSetenv(key, value string) error {
	OsUnsetenv(key)
	environment = append(environment, [2]string{key, value})
	return nil
}

func parseFloat(s string, bits int) (float64, bool) { return 0, false }

//model:strconv.ParseFloat
func StrconvParseFloat(s string, bits int) (float64, error) {
	f, ok := parseFloat(s, bits)
	if !ok {
		return f, errors.New("strconv.ParseFloat: invalid")
	}
	return f, nil
}

// Lists of strings through JSON, as the flag library passes them around.
//
//model:encoding/json.Marshal
func JsonMarshal(v any) ([]byte, error) {
	l, ok := v.([]string)
	if !ok {
		Unmodelled("json.Marshal")
	}
	if l == nil {
		return []byte("null"), nil
	}
	out := []byte("[")
	for i, s := range l {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, '"')
		for j := 0; j < len(s); j++ {
			if s[j] == '"' || s[j] == '\\' {
				out = append(out, '\\')
			}
			out = append(out, s[j])
		}
		out = append(out, '"')
	}
	return append(out, ']'), nil
}

//model:encoding/json.Unmarshal
func JsonUnmarshal(data []byte, v any) error {
	l, ok := v.(*[]string)
	if !ok {
		Unmodelled("json.Unmarshal")
	}
	*l = nil
	if len(data) == 0 || data[0] != '[' {
		return nil
	}
	*l = []string{}
	for i := 1; i < len(data) && data[i] == '"'; i++ {
		var s []byte
		for i++; data[i] != '"'; i++ {
			if data[i] == '\\' {
				i++
			}
			s = append(s, data[i])
		}
		*l = append(*l, string(s))
		i++
	}
	return nil
}

//model:github.com/urfave/cli/v2.FlagNames
func CliFlagNames(name string, aliases []string) []string {
	out := append([]string{name}, aliases...)
	for i, s := range out {
		for j := 0; j < len(s); j++ {
			if s[j] == ',' || s[j] == ' ' {
				out[i] = s[:j]
				break
			}
		}
	}
	return out
}
