// Package simfs is an in-memory file system with an explicit model of
// what survives a crash.  It is only ever touched by the scheduler
// goroutine.
//
// A killed process loses nothing that it handed to the kernel.  A
// power loss loses directory changes and file contents that were not
// made durable:
//
//   - Journal mode (ext4-like): directory operations are logged in
//     one global order and a crash keeps a prefix of that log that
//     contains everything up to the last fsync of anything.
//   - Strict mode (POSIX): a directory operation is durable once that
//     directory is fsynced; of the others any subset that respects
//     the order per name may survive.  In relaxed strict mode fsync
//     of a file also makes its own creation durable.
//
// File contents are durable once the file is fsynced; otherwise the
// old contents, the new contents or a prefix of an append survives.
package simfs

import (
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file or directory.
type Inode struct {
	ID      int
	Dir     bool
	Link    string
	Mode    os.FileMode
	Data    []byte
	durData []byte
	durSet  bool
	durMode os.FileMode
	ents    []ent // volatile entries
	durEnts []ent // durable entries
	MTime   time.Time
	parent  *Inode
	Lock    interface{} // advisory lock owner
	nopen   int
	size0   int
}

type ent struct {
	name string
	ino  *Inode
}

// op is one directory operation that is not durable yet.
type op struct {
	seq   int
	dir   *Inode
	name  string
	ino   *Inode // nil: removed
	dir2  *Inode // rename source
	name2 string
	group int // ops of one rename share a group
}

// FS is a file system.
type FS struct {
	Root    *Inode
	nextID  int
	seq     int
	pend    []op
	Strict  bool // POSIX mode
	Relaxed bool // strict, but fsync of a file persists its creation
	Limit   int  // max total bytes, 0: none
	used    int
	Now     func() time.Time
}

// New returns an empty file system with the usual directories.
func New() *FS {
	f := &FS{}
	f.Root = f.inode(true, 0755)
	f.Root.parent = f.Root
	f.Root.durMode = 0755
	return f
}

func (f *FS) inode(dir bool, mode os.FileMode) *Inode {
	f.nextID++
	n := &Inode{ID: f.nextID, Dir: dir, Mode: mode, durMode: mode}
	if dir {
		n.Mode |= os.ModeDir
	}
	if f.Now != nil {
		n.MTime = f.Now()
	}
	return n
}

func find(es []ent, name string) *Inode {
	for i := range es {
		if es[i].name == name {
			return es[i].ino
		}
	}
	return nil
}

func set(es []ent, name string, ino *Inode) []ent {
	for i := range es {
		if es[i].name == name {
			if ino == nil {
				return append(es[:i:i], es[i+1:]...)
			}
			n := append([]ent(nil), es...)
			n[i].ino = ino
			return n
		}
	}
	if ino == nil {
		return es
	}
	n := append(append([]ent(nil), es...), ent{name, ino})
	sort.Slice(n, func(i, j int) bool { return n[i].name < n[j].name })
	return n
}

// Names lists a directory in name order.
func (n *Inode) Names() []string {
	var s []string
	for _, e := range n.ents {
		s = append(s, e.name)
	}
	return s
}

// Child returns a directory entry.
func (n *Inode) Child(name string) *Inode { return find(n.ents, name) }

func split(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// Walk resolves an absolute path.
func (f *FS) Walk(p string, follow bool) (*Inode, error) {
	return f.walk(p, follow, 0)
}

func (f *FS) walk(p string, follow bool, depth int) (*Inode, error) {
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, syscall.EINVAL
	}
	if len(p) > 4095 {
		return nil, syscall.ENAMETOOLONG
	}
	cur := f.Root
	cs := split(p)
	for i, c := range cs {
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		if !cur.Dir {
			return nil, syscall.ENOTDIR
		}
		if c == ".." {
			cur = cur.parent
			continue
		}
		n := cur.Child(c)
		if n == nil {
			return nil, syscall.ENOENT
		}
		if n.Link != "" && (follow || i < len(cs)-1) {
			t := n.Link
			if !path.IsAbs(t) {
				t = "/" + strings.Join(cs[:i], "/") + "/" + t
			}
			m, err := f.walk(t, true, depth+1)
			if err != nil {
				return nil, err
			}
			n = m
		}
		cur = n
	}
	if len(cs) > 0 && strings.HasSuffix(p, "/") && !cur.Dir {
		return nil, syscall.ENOTDIR
	}
	return cur, nil
}

// Parent resolves the directory of p and returns the last component.
func (f *FS) Parent(p string) (*Inode, string, error) {
	cs := split(p)
	if len(cs) == 0 {
		return nil, "", syscall.EEXIST
	}
	last := cs[len(cs)-1]
	if last == ".." {
		return nil, "", syscall.EINVAL
	}
	if len(last) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	d, err := f.Walk("/"+strings.Join(cs[:len(cs)-1], "/"), true)
	if err != nil {
		return nil, "", err
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, last, nil
}

func (f *FS) dirop(dir *Inode, name string, ino *Inode, group int) {
	f.seq++
	if group == 0 {
		group = f.seq
	}
	f.pend = append(f.pend, op{seq: f.seq, dir: dir, name: name, ino: ino, group: group})
	dir.ents = set(dir.ents, name, ino)
	if ino != nil && ino.Dir {
		ino.parent = dir
	}
	if f.Now != nil {
		dir.MTime = f.Now()
	}
}

// Create makes a new file, directory or symlink.
func (f *FS) Create(p string, dir bool, mode os.FileMode) (*Inode, error) {
	d, name, err := f.Parent(p)
	if err != nil {
		return nil, err
	}
	if d.Child(name) != nil {
		return nil, syscall.EEXIST
	}
	n := f.inode(dir, mode)
	n.parent = d
	f.dirop(d, name, n, 0)
	return n, nil
}

// Symlink creates a symbolic link.
func (f *FS) Symlink(target, p string) error {
	n, err := f.Create(p, false, 0777)
	if err != nil {
		return err
	}
	n.Link = target
	n.Mode = 0777 | os.ModeSymlink
	return nil
}

// LinkTo creates a hard link.
func (f *FS) LinkTo(old, p string) error {
	n, err := f.Walk(old, false)
	if err != nil {
		return err
	}
	if n.Dir {
		return syscall.EPERM
	}
	d, name, err := f.Parent(p)
	if err != nil {
		return err
	}
	if d.Child(name) != nil {
		return syscall.EEXIST
	}
	f.dirop(d, name, n, 0)
	return nil
}

// Unlink removes a file or an empty directory.
func (f *FS) Unlink(p string) error {
	d, name, err := f.Parent(p)
	if err != nil {
		if err == syscall.EEXIST {
			return syscall.EBUSY
		}
		return err
	}
	n := d.Child(name)
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir && len(n.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	f.dirop(d, name, nil, 0)
	return nil
}

// Rename moves a file or directory.
func (f *FS) Rename(a, b string) error {
	da, na, err := f.Parent(a)
	if err != nil {
		return err
	}
	n := da.Child(na)
	if n == nil {
		return syscall.ENOENT
	}
	db, nb, err := f.Parent(b)
	if err != nil {
		return err
	}
	t := db.Child(nb)
	if t == n {
		return nil
	}
	if t != nil {
		if t.Dir && !n.Dir {
			return syscall.EISDIR
		}
		if !t.Dir && n.Dir {
			return syscall.ENOTDIR
		}
		if t.Dir && len(t.ents) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	for x := db; ; x = x.parent {
		if x == n {
			return syscall.EINVAL
		}
		if x == f.Root {
			break
		}
	}
	g := f.seq + 1
	f.dirop(da, na, nil, g)
	f.dirop(db, nb, n, g)
	return nil
}

// Used is the number of content bytes reachable from the root.
func (f *FS) Used() int { return used(f.Root) }

func used(n *Inode) int {
	s := len(n.Data)
	for _, e := range n.ents {
		s += used(e.ino)
	}
	return s
}

// SyncFile makes the content of a file durable.
func (f *FS) SyncFile(n *Inode) {
	if n.Dir {
		f.SyncDir(n)
		return
	}
	n.durData = append([]byte(nil), n.Data...)
	n.durSet = true
	n.durMode = n.Mode
	n.size0 = len(n.Data)
	if !f.Strict {
		f.commit(len(f.pend))
		return
	}
	if f.Relaxed {
		// The creation of the file, and of the directories above
		// it, becomes durable with it.
		keep := map[int]bool{}
		need := map[*Inode]bool{n: true}
		for i := len(f.pend) - 1; i >= 0; i-- {
			o := f.pend[i]
			if o.ino != nil && need[o.ino] {
				keep[o.group] = true
				need[o.dir] = true
			}
		}
		f.commitIf(func(o op) bool { return keep[o.group] })
	}
}

// SyncDir makes the entries of a directory durable.
func (f *FS) SyncDir(n *Inode) {
	if !f.Strict {
		f.commit(len(f.pend))
		return
	}
	groups := map[int]bool{}
	for _, o := range f.pend {
		if o.dir == n {
			groups[o.group] = true
		}
	}
	f.commitIf(func(o op) bool { return groups[o.group] })
}

func (f *FS) apply(o op) {
	o.dir.durEnts = set(o.dir.durEnts, o.name, o.ino)
}

func (f *FS) commit(n int) {
	for _, o := range f.pend[:n] {
		f.apply(o)
	}
	f.pend = append([]op(nil), f.pend[n:]...)
}

// commitIf commits the chosen operations and everything before them
// on the same directory entry.
func (f *FS) commitIf(c func(op) bool) {
	var rest []op
	pick := make([]bool, len(f.pend))
	for i := len(f.pend) - 1; i >= 0; i-- {
		o := f.pend[i]
		p := c(o)
		if !p {
			for j := i + 1; j < len(f.pend); j++ {
				if pick[j] && f.pend[j].dir == o.dir && f.pend[j].name == o.name {
					p = true
				}
			}
		}
		pick[i] = p
	}
	for i, o := range f.pend {
		if pick[i] {
			f.apply(o)
		} else {
			rest = append(rest, o)
		}
	}
	f.pend = rest
}

// Pending is the number of directory changes not yet durable.
func (f *FS) Pending() int { return len(f.pend) }

// Settle makes everything durable, as a clean shutdown of the machine
// does.
func (f *FS) Settle() {
	f.commit(len(f.pend))
	settle(f.Root)
}

func settle(n *Inode) {
	n.durData = append([]byte(nil), n.Data...)
	n.durSet = true
	n.durMode = n.Mode
	n.size0 = len(n.Data)
	for _, e := range n.ents {
		settle(e.ino)
	}
}

// PowerLoss replaces the volatile state by a state that may survive a
// loss of power.  choose(kind, n) returns a number in [0,n); 0 stands
// for the most benign choice (everything survives).
func (f *FS) PowerLoss(choose func(kind string, n int) int) {
	if !f.Strict {
		n := len(f.pend)
		if n > 0 {
			f.commit(n - choose("P.dir", n+1))
		}
	} else {
		// Any subset that is closed under per-entry order.
		lost := map[int]bool{}
		type key struct {
			d *Inode
			n string
		}
		dropped := map[key]bool{}
		for _, o := range f.pend {
			k := key{o.dir, o.name}
			if _, done := lost[o.group]; !done {
				lost[o.group] = choose("P.dir", 2) == 1
			}
			if dropped[k] {
				lost[o.group] = true
			}
			if lost[o.group] {
				dropped[k] = true
			}
		}
		// A rename survives as a whole or not at all.
		for changed := true; changed; {
			changed = false
			for _, o := range f.pend {
				k := key{o.dir, o.name}
				if lost[o.group] && !dropped[k] {
					dropped[k] = true
					changed = true
				}
			}
			seen := map[key]bool{}
			for _, o := range f.pend {
				k := key{o.dir, o.name}
				if lost[o.group] {
					seen[k] = true
				} else if seen[k] {
					lost[o.group] = true
					changed = true
				}
			}
		}
		f.commitIf(func(o op) bool { return !lost[o.group] })
	}
	f.pend = nil
	visited := map[*Inode]bool{}
	f.revert(f.Root, choose, visited)
}

func (f *FS) revert(n *Inode, choose func(string, int) int, visited map[*Inode]bool) {
	if visited[n] {
		return
	}
	visited[n] = true
	n.Lock = nil
	n.nopen = 0
	if n.Dir {
		n.ents = append([]ent(nil), n.durEnts...)
		for _, e := range n.ents {
			e.ino.parent = n
			f.revert(e.ino, choose, visited)
		}
		return
	}
	old := n.durData
	if !n.durSet {
		old = nil
	}
	if string(old) != string(n.Data) || !n.durSet {
		var keep []byte
		c := choose("P.data", 4)
		switch {
		case c == 0:
			keep = n.Data
		case c == 1:
			keep = old
		default:
			// A torn state: a prefix of the new content, possibly
			// over the old one.
			l := len(n.Data)
			cut := 0
			if l > 0 {
				cut = choose("P.cut", l+1)
				cut = l - cut
			}
			if len(n.Data) >= len(old) && string(n.Data[:len(old)]) == string(old) {
				// Append only: the old part is intact.
				if cut < len(old) {
					cut = len(old)
				}
				keep = n.Data[:cut]
			} else if c == 2 {
				keep = n.Data[:cut]
			} else {
				keep = append(append([]byte(nil), n.Data[:cut]...), tail(old, cut)...)
			}
		}
		n.Data = append([]byte(nil), keep...)
	}
	n.durData = append([]byte(nil), n.Data...)
	n.durSet = true
	if n.Mode != n.durMode && choose("P.mode", 2) == 1 {
		n.Mode = n.durMode
	}
	n.durMode = n.Mode
}

func tail(b []byte, n int) []byte {
	if n >= len(b) {
		return nil
	}
	return b[n:]
}

// ReleaseLocks drops the advisory locks held by owner.
func (f *FS) ReleaseLocks(owner interface{}) { release(f.Root, owner) }

func release(n *Inode, owner interface{}) {
	if n.Lock == owner {
		n.Lock = nil
	}
	for _, e := range n.ents {
		release(e.ino, owner)
	}
}

// Entry is one line of a Dump.
type Entry struct {
	Path string
	Dir  bool
	Mode os.FileMode
	Data string
}

// Dump lists every file and directory.
func (f *FS) Dump(root string) []Entry {
	n, err := f.Walk(root, true)
	if err != nil {
		return nil
	}
	var out []Entry
	dump(root, n, &out)
	return out
}

func dump(p string, n *Inode, out *[]Entry) {
	*out = append(*out, Entry{p, n.Dir, n.Mode, string(n.Data)})
	for _, e := range n.ents {
		dump(path.Join(p, e.name), e.ino, out)
	}
}

// MustMkdirAll is a set-up helper.
func (f *FS) MustMkdirAll(p string) {
	cs := split(p)
	for i := range cs {
		q := "/" + strings.Join(cs[:i+1], "/")
		if _, err := f.Walk(q, true); err != nil {
			if _, err := f.Create(q, true, 0755); err != nil {
				panic(err)
			}
		}
	}
}

// MustWrite is a set-up helper.
func (f *FS) MustWrite(p string, data []byte, mode os.FileMode) {
	n, err := f.Walk(p, true)
	if err != nil {
		f.MustMkdirAll(path.Dir(p))
		n, err = f.Create(p, false, mode)
		if err != nil {
			panic(err)
		}
	}
	n.Data = append([]byte(nil), data...)
	n.Mode = mode
}
