// Package unix is the part of golang.org/x/sys/unix that the storage
// library's lock file uses, on the simulated file system.
package unix

import (
	"syscall"

	os "verif.local/sim/simos"
)

// Flags.
const (
	LOCK_SH = syscall.LOCK_SH
	LOCK_EX = syscall.LOCK_EX
	LOCK_NB = syscall.LOCK_NB
	LOCK_UN = syscall.LOCK_UN
)

// Stat_t is the result of Stat.
type Stat_t = syscall.Stat_t

// Flock locks an open file.
func Flock(fd int, how int) error { return os.Flock(fd, how) }

// Fstat describes an open file.
func Fstat(fd int, st *Stat_t) error {
	ino, err := os.InoOf(fd)
	if err != nil {
		return err
	}
	st.Ino = ino
	return nil
}

// Stat describes a path.
func Stat(path string, st *Stat_t) error {
	fi, err := os.Stat(path)
	if err != nil {
		return err
	}
	st.Ino = fi.Sys().(*syscall.Stat_t).Ino
	return nil
}
