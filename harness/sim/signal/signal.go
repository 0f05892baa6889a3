// Package signal: no signal ever arrives.
package signal

import "verif/harness/sim/faultos"

func Notify(c chan<- faultos.Signal, s ...faultos.Signal) {}
func Stop(c chan<- faultos.Signal)                        {}
func Ignore(s ...faultos.Signal)                          {}
func Reset(s ...faultos.Signal)                           {}
