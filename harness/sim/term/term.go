// Package term is a simulated terminal.
package term

import (
	"errors"

	"verif/harness/sim/faultos"
)

type State struct{}

var ErrNone = errors.New("not a terminal")

// Typed are the passwords entered.
var Typed []string

// Given are the slices they were returned in.
var Given [][]byte

func IsTerminal(fd int) bool { return faultos.IsTerminal() }
func GetState(fd int) (*State, error) {
	if !faultos.IsTerminal() {
		return nil, ErrNone
	}
	return &State{}, nil
}
func MakeRaw(fd int) (*State, error)   { return GetState(fd) }
func Restore(fd int, s *State) error   { return nil }
func GetSize(fd int) (int, int, error) { return 80, 25, nil }
func ReadPassword(fd int) ([]byte, error) {
	if len(Typed) == 0 {
		return nil, ErrNone
	}
	p := Typed[0]
	Typed = Typed[1:]
	b := []byte(p)
	Given = append(Given, b)
	return b, nil
}
