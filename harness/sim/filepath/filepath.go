// Package filepath is package path/filepath over the simulated file system.
package filepath

import (
	"path/filepath"

	"verif/harness/sim/faultos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var ErrBadPattern = filepath.ErrBadPattern

func Join(e ...string) string         { return filepath.Join(e...) }
func Base(p string) string            { return filepath.Base(p) }
func Dir(p string) string             { return filepath.Dir(p) }
func Ext(p string) string             { return filepath.Ext(p) }
func Clean(p string) string           { return filepath.Clean(p) }
func IsAbs(p string) bool             { return filepath.IsAbs(p) }
func Split(p string) (string, string) { return filepath.Split(p) }
func VolumeName(p string) string      { return "" }
func ToSlash(p string) string         { return p }
func FromSlash(p string) string       { return p }
func Rel(a, b string) (string, error) { return filepath.Rel(a, b) }
func Match(p, n string) (bool, error) { return filepath.Match(p, n) }
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/work", p), nil
}
func EvalSymlinks(p string) (string, error) {
	q := faultos.Resolve(p)
	if _, ok := faultos.Get(q); !ok {
		return "", &faultos.PathError{Op: "lstat", Path: p, Err: faultos.ErrNotExist}
	}
	return q, nil
}
