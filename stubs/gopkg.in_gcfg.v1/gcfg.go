// Package gcfg declares the part of gopkg.in/gcfg.v1 that gotetra calls, for
// type checking only: nothing is assumed about its behaviour.
package gcfg

func ReadFileInto(config interface{}, filename string) error
