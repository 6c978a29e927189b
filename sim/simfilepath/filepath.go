// Package filepath is the simulated replacement of path/filepath: the
// functions that touch the file system use the simulated one.
package filepath

import (
	"io/fs"
	std "path/filepath"
	"sort"
	"strings"

	os "verif.local/sim/simos"
)

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

// Glob mirrors the standard implementation.
func Glob(pattern string) (matches []string, err error) { return glob(pattern, 0) }

func glob(pattern string, depth int) (matches []string, err error) {
	if depth == 10000 {
		return nil, std.ErrBadPattern
	}
	if _, err := std.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err = os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := std.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !hasMeta(dir) {
		return globDir(dir, file, nil)
	}
	if dir == pattern {
		return nil, std.ErrBadPattern
	}
	m, err := glob(dir, depth+1)
	if err != nil {
		return nil, err
	}
	for _, d := range m {
		matches, err = globDir(d, file, matches)
		if err != nil {
			return
		}
	}
	return
}

func globDir(dir, pattern string, matches []string) (m []string, e error) {
	m = matches
	fi, err := os.Stat(dir)
	if err != nil {
		return
	}
	if !fi.IsDir() {
		return
	}
	d, err := os.Open(dir)
	if err != nil {
		return
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	sort.Strings(names)
	for _, n := range names {
		matched, err := std.Match(pattern, n)
		if err != nil {
			return m, err
		}
		if matched {
			m = append(m, std.Join(dir, n))
		}
	}
	return
}

// Walk mirrors the standard implementation.
func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func readDirNames(dirname string) ([]string, error) {
	f, err := os.Open(dirname)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := readDirNames(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		f := std.Join(path, name)
		fi, err := os.Lstat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else if err = walk(f, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir mirrors the standard implementation.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(std.Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// EvalSymlinks cleans only; the simulated systems use no links in paths.
func EvalSymlinks(path string) (string, error) {
	if _, err := os.Stat(path); err != nil {
		return "", err
	}
	return std.Clean(path), nil
}

// Abs uses the simulated working directory.
func Abs(path string) (string, error) {
	if std.IsAbs(path) {
		return std.Clean(path), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return std.Join(wd, path), nil
}
