// Package os is the simulated replacement of the standard os package:
// every path-touching operation works on the file system of the
// current world, is a scheduling point, and may be made to fail by
// the fault decisions of the run.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	std "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// ErrNoSim is returned for path operations outside of a simulation.
var ErrNoSim = errors.New("simos: no simulation is running")

// Args replaces os.Args.
var Args = append([]string{}, std.Args...)

// Standard streams; they go to the real ones.
var (
	Stdin  = &File{real: std.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: std.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: std.Stderr, name: "/dev/stderr"}
)

// Captured receives what simulated processes write to the standard
// streams, if set.
var Captured func(p *simrt.Proc, fd int, b []byte)

// FSOf returns the file system of the world.
func FSOf(w *simrt.World) *simfs.FS { return w.Ext.Get("fs").(*simfs.FS) }

type sys struct {
	t  *simrt.Task
	fs *simfs.FS
	p  string
}

func abs(t *simrt.Task, p string) string {
	if path.IsAbs(p) || p == "" {
		return p
	}
	cwd := "/"
	if t.Proc != nil {
		if c, ok := t.Proc.Env.Get("cwd").(string); ok {
			cwd = c
		}
	}
	return cwd + "/" + p
}

// do runs fn as one atomic device operation.
func do(kind, p string, fn func(s *sys) error) error {
	t := simrt.Cur()
	if t == nil {
		return ErrNoSim
	}
	if p == "" {
		return syscall.ENOENT
	}
	var err error
	t.Do("fs."+kind, func() {
		s := &sys{t: t, fs: FSOf(t.World()), p: abs(t, p)}
		if err = fault(t, kind, s.p); err != nil {
			return
		}
		err = fn(s)
		if h := t.World().OnOp; h != nil {
			h(t, kind, s.p, err)
		}
	})
	return err
}

// fault decides whether the operation fails.
func fault(t *simrt.Task, kind, p string) error {
	w := t.World()
	if t.Proc == nil || t.Proc.Env.Get("faults") == nil {
		return nil
	}
	if w.FaultPath != nil && !w.FaultPath(kind, p) {
		return nil
	}
	if w.Fault(t, "F.eio", 2, kind+" "+p) != 0 {
		return syscall.EIO
	}
	switch kind {
	case "create", "write", "mkdir", "rename", "symlink", "link", "truncate":
		if w.Fault(t, "F.enospc", 2, kind+" "+p) != 0 {
			return syscall.ENOSPC
		}
		if (kind == "create" || kind == "write") && w.Ext.Get("full") != nil {
			return syscall.ENOSPC
		}
	case "open":
		if w.Fault(t, "F.emfile", 2, kind+" "+p) != 0 {
			return syscall.EMFILE
		}
	}
	if w.Ext.Get("broken") != nil {
		return syscall.EIO
	}
	return nil
}

func perr(opn, p string, err error) error {
	if err == nil {
		return nil
	}
	return &std.PathError{Op: opn, Path: p, Err: err}
}

// File is a simulated open file.
type File struct {
	n      *simfs.Inode
	name   string
	path   string
	flag   int
	off    int64
	closed bool
	real   *std.File
	dirpos int
	w      *simrt.World
	proc   *simrt.Proc
}

// Inode exposes the inode to the advisory lock shim.
func (f *File) Inode() *simfs.Inode { return f.n }

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	}
	var f *File
	err := do(kind, name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, true)
		if err == syscall.ENOENT && flag&O_CREATE != 0 {
			if strings.HasSuffix(s.p, "/") {
				return syscall.EISDIR
			}
			n, err = s.fs.Create(s.p, false, perm&0777&^umask)
			if err != nil {
				return err
			}
		} else if err != nil {
			return err
		} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return syscall.EEXIST
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return syscall.EISDIR
		}
		if flag&O_TRUNC != 0 && !n.Dir {
			n.Data = nil
		}
		f = &File{n: n, name: name, path: s.p, flag: flag, w: s.t.World(), proc: s.t.Proc}
		return nil
	})
	if err != nil {
		return nil, perr("open", name, err)
	}
	return f, nil
}

const umask = 0022

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

// NewFile is os.NewFile for the standard streams.
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) check(opn string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(opn, f.name, ErrClosed)
	}
	return nil
}

func (f *File) do(kind, opn string, fn func(s *sys) error) error {
	if err := f.check(opn); err != nil {
		return err
	}
	err := do(kind, f.path, fn)
	if err == io.EOF {
		return err
	}
	return perr(opn, f.name, err)
}

// Name is (*os.File).Name.
func (f *File) Name() string { return f.name }

// Fd is (*os.File).Fd.
func (f *File) Fd() uintptr {
	if f.real != nil {
		return f.real.Fd()
	}
	if f.n == nil {
		return ^uintptr(0)
	}
	l, _ := f.w.Ext.Get("fds").([]*File)
	for i, x := range l {
		if x == f {
			return uintptr(1000 + i)
		}
	}
	f.w.Ext.Set("fds", append(l, f))
	return uintptr(1000 + len(l))
}

func fdFile(fd int) *File {
	t := simrt.Cur()
	if t == nil {
		return nil
	}
	l, _ := t.World().Ext.Get("fds").([]*File)
	if fd < 1000 || fd-1000 >= len(l) || l[fd-1000].closed {
		return nil
	}
	return l[fd-1000]
}

// Flock is flock(2) on a simulated descriptor.
func Flock(fd int, how int) error {
	f := fdFile(fd)
	if f == nil {
		return syscall.EBADF
	}
	free := func() bool {
		o, _ := f.n.Lock.(*File)
		return o == nil || o == f || o.closed || o.proc != nil && o.proc.Dead
	}
	if how&syscall.LOCK_UN != 0 {
		return do("flock", f.path, func(s *sys) error {
			if o, _ := f.n.Lock.(*File); o == f {
				f.n.Lock = nil
			}
			return nil
		})
	}
	if how&syscall.LOCK_NB == 0 {
		simrt.Cur().WaitFor("flock", free)
	}
	return do("flock", f.path, func(s *sys) error {
		if !free() {
			return syscall.EWOULDBLOCK
		}
		f.n.Lock = f
		return nil
	})
}

// InoOf is the inode number of an open descriptor.
func InoOf(fd int) (uint64, error) {
	f := fdFile(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	return uint64(f.n.ID), nil
}

// Read is (*os.File).Read.
func (f *File) Read(b []byte) (int, error) {
	if f.real != nil {
		return f.real.Read(b)
	}
	if len(b) == 0 {
		return 0, f.check("read")
	}
	n := 0
	err := f.do("read", "read", func(s *sys) error {
		if f.n.Dir {
			return syscall.EISDIR
		}
		if f.off >= int64(len(f.n.Data)) {
			return io.EOF
		}
		n = copy(b, f.n.Data[f.off:])
		f.off += int64(n)
		return nil
	})
	return n, err
}

// ReadAt is (*os.File).ReadAt.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	n := 0
	err := f.do("read", "read", func(s *sys) error {
		if off >= int64(len(f.n.Data)) {
			return io.EOF
		}
		n = copy(b, f.n.Data[off:])
		if n < len(b) {
			return io.EOF
		}
		return nil
	})
	return n, err
}

// Write is (*os.File).Write.
func (f *File) Write(b []byte) (int, error) {
	if f.real != nil {
		if t := simrt.Cur(); t != nil {
			if Captured != nil {
				t.Do("std.write", func() {
					fd := 1
					if f == Stderr {
						fd = 2
					}
					Captured(t.Proc, fd, b)
				})
				return len(b), nil
			}
		}
		return f.real.Write(b)
	}
	n := 0
	err := f.do("write", "write", func(s *sys) error {
		if f.flag&(O_WRONLY|O_RDWR) == 0 {
			return syscall.EBADF
		}
		l := len(b)
		short := false
		if l > 0 && s.t.Proc != nil && s.t.Proc.Env.Get("faults") != nil && (s.t.World().FaultPath == nil || s.t.World().FaultPath("write", s.p)) {
			if v := s.t.World().Fault(s.t, "F.short", l+1, "write "+s.p); v != 0 {
				l = v - 1
				short = true
			}
		}
		off := f.off
		if f.flag&O_APPEND != 0 {
			off = int64(len(f.n.Data))
		}
		writeAt(f.n, b[:l], off)
		f.off = off + int64(l)
		n = l
		if short {
			return syscall.ENOSPC
		}
		return nil
	})
	return n, err
}

func writeAt(n *simfs.Inode, b []byte, off int64) {
	end := off + int64(len(b))
	d := make([]byte, max(int64(len(n.Data)), end))
	copy(d, n.Data)
	copy(d[off:], b)
	n.Data = d
}

// WriteAt is (*os.File).WriteAt.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	err := f.do("write", "write", func(s *sys) error {
		if f.flag&(O_WRONLY|O_RDWR) == 0 {
			return syscall.EBADF
		}
		writeAt(f.n, b, off)
		return nil
	})
	if err != nil {
		return 0, err
	}
	return len(b), nil
}

// WriteString is (*os.File).WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom is (*os.File).ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo is (*os.File).WriteTo.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// Seek is (*os.File).Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.Seek(off, whence)
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

// Close is (*os.File).Close.
func (f *File) Close() error {
	if f != nil && f.real != nil {
		return nil
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.n.Lock == f {
		f.n.Lock = nil
	}
	return nil
}

// Sync is (*os.File).Sync.
func (f *File) Sync() error {
	if f.real != nil {
		return nil
	}
	return f.do("sync", "sync", func(s *sys) error {
		if s.t.World().Ext.Get("lostsync") != nil {
			return nil
		}
		s.fs.SyncFile(f.n)
		return nil
	})
}

// Truncate is (*os.File).Truncate.
func (f *File) Truncate(size int64) error {
	return f.do("truncate", "truncate", func(s *sys) error {
		trunc(f.n, size)
		return nil
	})
}

func trunc(n *simfs.Inode, size int64) {
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
}

// Chmod is (*os.File).Chmod.
func (f *File) Chmod(mode FileMode) error {
	return f.do("chmod", "chmod", func(s *sys) error { chmod(f.n, mode); return nil })
}

func chmod(n *simfs.Inode, mode FileMode) { n.Mode = n.Mode&^0777 | mode&0777 }

// Chown is (*os.File).Chown.
func (f *File) Chown(uid, gid int) error { return f.check("chown") }

// Chdir is (*os.File).Chdir.
func (f *File) Chdir() error { return Chdir(f.path) }

// SetDeadline is (*os.File).SetDeadline.
func (f *File) SetDeadline(t time.Time) error { return ErrNoDeadline }

// SetReadDeadline is (*os.File).SetReadDeadline.
func (f *File) SetReadDeadline(t time.Time) error { return ErrNoDeadline }

// SetWriteDeadline is (*os.File).SetWriteDeadline.
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

// SyscallConn is not available.
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, ErrInvalid }

type finfo struct {
	name string
	size int64
	mode FileMode
	mt   time.Time
	n    *simfs.Inode
}

func info(name string, n *simfs.Inode) FileInfo {
	return &finfo{name: path.Base(name), size: int64(len(n.Data)), mode: n.Mode, mt: n.MTime, n: n}
}

func (i *finfo) Name() string               { return i.name }
func (i *finfo) Size() int64                { return i.size }
func (i *finfo) Mode() FileMode             { return i.mode }
func (i *finfo) ModTime() time.Time         { return i.mt }
func (i *finfo) IsDir() bool                { return i.mode.IsDir() }
func (i *finfo) Sys() interface{}           { return &syscall.Stat_t{Ino: uint64(i.n.ID)} }
func (i *finfo) Type() FileMode             { return i.mode.Type() }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }
func (i *finfo) String() string             { return i.name }

// Stat is (*os.File).Stat.
func (f *File) Stat() (FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	var fi FileInfo
	err := f.do("stat", "stat", func(s *sys) error { fi = info(f.name, f.n); return nil })
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (f *File) list(n int) ([]FileInfo, error) {
	var out []FileInfo
	err := f.do("readdir", "readdirent", func(s *sys) error {
		if !f.n.Dir {
			return syscall.ENOTDIR
		}
		names := f.n.Names()
		for f.dirpos < len(names) && (n <= 0 || len(out) < n) {
			nm := names[f.dirpos]
			f.dirpos++
			out = append(out, info(nm, f.n.Child(nm)))
		}
		if n > 0 && len(out) == 0 {
			return io.EOF
		}
		return nil
	})
	return out, err
}

// Readdir is (*os.File).Readdir.
func (f *File) Readdir(n int) ([]FileInfo, error) { return f.list(n) }

// Readdirnames is (*os.File).Readdirnames.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.list(n)
	out := make([]string, 0, len(l))
	for _, i := range l {
		out = append(out, i.Name())
	}
	return out, err
}

// ReadDir is (*os.File).ReadDir.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := f.list(n)
	out := make([]DirEntry, 0, len(l))
	for _, i := range l {
		out = append(out, i.(*finfo))
	}
	return out, err
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func stat(opn, name string, follow bool) (FileInfo, error) {
	var fi FileInfo
	err := do("stat", name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, follow)
		if err != nil {
			return err
		}
		fi = info(name, n)
		return nil
	})
	if err != nil {
		return nil, perr(opn, name, err)
	}
	return fi, nil
}

// Stat is os.Stat.
func Stat(name string) (FileInfo, error) { return stat("stat", name, true) }

// Lstat is os.Lstat.
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }

// SameFile is os.SameFile.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.n == y.n
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, do("mkdir", name, func(s *sys) error {
		_, err := s.fs.Create(s.p, true, perm&0777&^umask)
		return err
	}))
}

// MkdirAll is os.MkdirAll.
func MkdirAll(p string, perm FileMode) error {
	fi, err := Stat(p)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	q := strings.TrimRight(p, "/")
	if i := strings.LastIndex(q, "/"); i > 0 {
		if err := MkdirAll(q[:i], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		fi, err1 := Lstat(p)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	return perr("remove", name, do("remove", name, func(s *sys) error { return s.fs.Unlink(s.p) }))
}

// RemoveAll is os.RemoveAll.
func RemoveAll(p string) error {
	fi, err := Lstat(p)
	if err != nil {
		if IsNotExist(err) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		l, err := ReadDir(p)
		if err != nil && !IsNotExist(err) {
			return err
		}
		for _, e := range l {
			if err := RemoveAll(p + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	err = Remove(p)
	if err != nil && IsNotExist(err) {
		return nil
	}
	return err
}

// Rename is os.Rename.
func Rename(a, b string) error {
	err := do("rename", a, func(s *sys) error {
		if b == "" {
			return syscall.ENOENT
		}
		bb := abs(s.t, b)
		if xdev(s.p) != xdev(bb) {
			return syscall.EXDEV
		}
		return s.fs.Rename(s.p, bb)
	})
	if err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}

// The temporary directory is a file system of its own.
func xdev(p string) bool {
	p = path.Clean(p)
	return p == "/tmp" || strings.HasPrefix(p, "/tmp/")
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if len(buf) < 1<<16 {
			buf = make([]byte, len(buf)*8)
		}
	}
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	n, err := f.Write(data)
	if err == nil && n < len(data) {
		err = io.ErrShortWrite
	}
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Chmod is os.Chmod.
func Chmod(name string, mode FileMode) error {
	return perr("chmod", name, do("chmod", name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, true)
		if err == nil {
			chmod(n, mode)
		}
		return err
	}))
}

// Chown is os.Chown.
func Chown(name string, uid, gid int) error {
	_, err := Stat(name)
	return err
}

// Lchown is os.Lchown.
func Lchown(name string, uid, gid int) error {
	_, err := Lstat(name)
	return err
}

// Chtimes is os.Chtimes.
func Chtimes(name string, at, mt time.Time) error {
	return perr("chtimes", name, do("chtimes", name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, true)
		if err == nil {
			n.MTime = mt
		}
		return err
	}))
}

// Truncate is os.Truncate.
func Truncate(name string, size int64) error {
	return perr("truncate", name, do("truncate", name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, true)
		if err == nil {
			trunc(n, size)
		}
		return err
	}))
}

// Link is os.Link.
func Link(a, b string) error {
	return perr("link", a, do("link", a, func(s *sys) error { return s.fs.LinkTo(s.p, abs(s.t, b)) }))
}

// Symlink is os.Symlink.
func Symlink(a, b string) error {
	return perr("symlink", b, do("symlink", b, func(s *sys) error { return s.fs.Symlink(a, s.p) }))
}

// Readlink is os.Readlink.
func Readlink(name string) (string, error) {
	out := ""
	err := do("readlink", name, func(s *sys) error {
		n, err := s.fs.Walk(s.p, false)
		if err != nil {
			return err
		}
		if n.Link == "" {
			return syscall.EINVAL
		}
		out = n.Link
		return nil
	})
	return out, perr("readlink", name, err)
}

// Getwd is os.Getwd.
func Getwd() (string, error) {
	t := simrt.Cur()
	if t != nil && t.Proc != nil {
		if c, ok := t.Proc.Env.Get("cwd").(string); ok {
			return c, nil
		}
	}
	return "/", nil
}

// Chdir is os.Chdir.
func Chdir(p string) error {
	fi, err := Stat(p)
	if err != nil {
		return err
	}
	if !fi.IsDir() {
		return perr("chdir", p, syscall.ENOTDIR)
	}
	t := simrt.Cur()
	t.Proc.Env.Set("cwd", path.Clean(abs(t, p)))
	return nil
}

// Silence redirects what processes print.
func Silence(f *std.File) { Stdout.real, Stderr.real = f, f }

// TempDir is os.TempDir.
func TempDir() string { return "/tmp" }

// UserHomeDir is os.UserHomeDir.
func UserHomeDir() (string, error) { return "/root", nil }

// UserCacheDir is os.UserCacheDir.
func UserCacheDir() (string, error) { return "/root/.cache", nil }

// UserConfigDir is os.UserConfigDir.
func UserConfigDir() (string, error) { return "/root/.config", nil }

// Hostname is os.Hostname.
func Hostname() (string, error) { return "simhost", nil }

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// Exit ends the simulated process.
func Exit(code int) {
	t := simrt.Cur()
	if t == nil {
		std.Exit(code)
	}
	t.Do("exit", func() {
		if t.Proc != nil {
			t.Proc.Exit(code)
		}
	})
	t.CheckDead()
	panic("unreachable")
}

func randName(t *simrt.Task) string {
	n := t.Inc("rnd")
	return fmt.Sprintf("%09d", t.World().Rand(t.Name, "tmpname", n)%1000000000)
}

func pattern(t *simrt.Task, pat string) (string, error) {
	if strings.Contains(pat, "/") {
		return "", errors.New("pattern contains path separator")
	}
	r := randName(t)
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		return pat[:i] + r + pat[i+1:], nil
	}
	return pat + r, nil
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pat string) (*File, error) {
	t := simrt.Cur()
	if t == nil {
		return nil, ErrNoSim
	}
	if dir == "" {
		dir = TempDir()
	}
	for try := 0; ; try++ {
		nm, err := pattern(t, pat)
		if err != nil {
			return nil, perr("createtemp", pat, err)
		}
		f, err := OpenFile(path.Join(dir, nm), O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 100 {
			continue
		}
		return f, err
	}
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pat string) (string, error) {
	t := simrt.Cur()
	if t == nil {
		return "", ErrNoSim
	}
	if dir == "" {
		dir = TempDir()
	}
	for try := 0; ; try++ {
		nm, err := pattern(t, pat)
		if err != nil {
			return "", perr("mkdirtemp", pat, err)
		}
		p := path.Join(dir, nm)
		err = Mkdir(p, 0700)
		if IsExist(err) && try < 100 {
			continue
		}
		if err != nil {
			return "", err
		}
		return p, nil
	}
}

// Pipe is not available in the simulation.
func Pipe() (*File, *File, error) { return nil, nil, syscall.ENOSYS }

// FindProcess is not available in the simulation.
func FindProcess(pid int) (*Process, error) { return nil, syscall.ESRCH }

// StartProcess is not available in the simulation.
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	return nil, perr("fork/exec", name, syscall.ENOENT)
}

type dirFS string

// DirFS is os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
