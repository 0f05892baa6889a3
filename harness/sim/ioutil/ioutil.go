// Package ioutil is package io/ioutil over the simulated file system.
package ioutil

import (
	"io"

	"verif/harness/sim/faultos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                    { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)                      { return faultos.ReadFile(p) }
func WriteFile(p string, d []byte, m faultos.FileMode) error { return faultos.WriteFile(p, d, m) }
func TempFile(dir, pattern string) (*faultos.File, error)    { return faultos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)            { return faultos.MkdirTemp(dir, pattern) }
func NopCloser(r io.Reader) io.ReadCloser                    { return io.NopCloser(r) }
