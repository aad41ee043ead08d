// Package zerolog is an offline stand-in: the repository only ever asks for a logger that drops everything.
package zerolog

// Logger drops everything.
type Logger struct{}

// Nop returns a Logger that drops everything.
func Nop() Logger { return Logger{} }
