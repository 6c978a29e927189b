// Package ioutil is the simulated replacement of io/ioutil.
package ioutil

import (
	"io/fs"
	"sort"

	os "verif.local/sim/simos"
)

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// ReadDir lists a directory.
func ReadDir(dirname string) ([]fs.FileInfo, error) {
	f, err := os.Open(dirname)
	if err != nil {
		return nil, err
	}
	list, err := f.Readdir(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Name() < list[j].Name() })
	return list, nil
}

// TempFile creates a temporary file.
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }

// TempDir creates a temporary directory.
func TempDir(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
