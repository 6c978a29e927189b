// Package mmap replaces golang.org/x/exp/mmap on the simulated file
// system: a mapping reads the live content of the file.
package mmap

import (
	"errors"
	"io"

	"verif.local/sim/simfs"
	os "verif.local/sim/simos"
)

// ReaderAt reads a memory-mapped file.
type ReaderAt struct {
	n    *simfs.Inode
	size int
}

// Open maps the named file.
func Open(filename string) (*ReaderAt, error) {
	f, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	return &ReaderAt{f.Inode(), int(fi.Size())}, nil
}

// Close closes the reader.
func (r *ReaderAt) Close() error { r.n = nil; return nil }

// Len returns the mapped length.
func (r *ReaderAt) Len() int { return r.size }

// At returns the byte at index i.
func (r *ReaderAt) At(i int) byte { return r.n.Data[i] }

// ReadAt implements io.ReaderAt.
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.n == nil {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(r.size) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	d := r.n.Data
	if len(d) > r.size {
		d = d[:r.size]
	}
	n := 0
	if off < int64(len(d)) {
		n = copy(p, d[off:])
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
