// Package fmt is fmt, printing to the simulated standard output.
package fmt

import (
	std "fmt"

	simos "verif.local/sim/simos"
)

type (
	Stringer   = std.Stringer
	GoStringer = std.GoStringer
	Formatter  = std.Formatter
	State      = std.State
	Scanner    = std.Scanner
	ScanState  = std.ScanState
)

var (
	Errorf       = std.Errorf
	Sprint       = std.Sprint
	Sprintf      = std.Sprintf
	Sprintln     = std.Sprintln
	Fprint       = std.Fprint
	Fprintf      = std.Fprintf
	Fprintln     = std.Fprintln
	Append       = std.Append
	Appendf      = std.Appendf
	Appendln     = std.Appendln
	Fscan        = std.Fscan
	Fscanf       = std.Fscanf
	Fscanln      = std.Fscanln
	Sscan        = std.Sscan
	Sscanf       = std.Sscanf
	Sscanln      = std.Sscanln
	FormatString = std.FormatString
)

// Print and friends write to the simulated process's output.
func Print(a ...interface{}) (int, error) { return std.Fprint(simos.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) {
	return std.Fprintf(simos.Stdout, f, a...)
}
func Println(a ...interface{}) (int, error) { return std.Fprintln(simos.Stdout, a...) }

// Scan and friends find no input.
func Scan(a ...interface{}) (int, error)            { return std.Sscan("", a...) }
func Scanln(a ...interface{}) (int, error)          { return std.Sscanln("", a...) }
func Scanf(f string, a ...interface{}) (int, error) { return std.Sscanf("", f, a...) }
