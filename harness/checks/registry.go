package checks

import (
	"os"

	"verif/harness/vk"
)

// All maps a property id to its check.
var All = map[string]func(*vk.C){}

// Stdout is the file standing in for standard output while a check runs.
var Stdout *os.File

// Child runs an auxiliary mode in a fresh process.
func Child(args []string) int {
	if f, ok := children[args[0]]; ok {
		return f(args[1:])
	}
	return 2
}

var children = map[string]func([]string) int{}

// stdoutSize returns how many bytes the library has written to standard output.
func stdoutSize() int64 {
	if Stdout == nil {
		return 0
	}
	st, err := Stdout.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}
