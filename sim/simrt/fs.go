package simrt

import (
	"path"
	"sort"
	"strings"
	"syscall"
)

// FS is the simulated disk: it survives process restarts. No symbolic links.
type FS struct {
	root  *inode
	Clock int64
	inos  int
}

type inode struct {
	dir   bool
	data  []byte
	kids  map[string]*inode
	mode  uint32
	mtime int64
	ino   int
	nlink int
}

func NewFS() *FS {
	f := &FS{}
	f.root = f.mk(true, 0o755)
	return f
}

func (f *FS) mk(dir bool, mode uint32) *inode {
	f.inos++
	n := &inode{dir: dir, mode: mode, ino: f.inos, mtime: f.Clock, nlink: 1}
	if dir {
		n.kids = map[string]*inode{}
	}
	return n
}

func split(p string) []string {
	p = strings.Trim(path.Clean(p), "/")
	if p == "" || p == "." {
		return nil
	}
	return strings.Split(p, "/")
}

func (f *FS) lookup(p string) (*inode, syscall.Errno) {
	n := f.root
	for _, c := range split(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		k := n.kids[c]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, 0
}

func (f *FS) parent(p string) (*inode, string, syscall.Errno) {
	cs := split(p)
	if len(cs) == 0 {
		return nil, "", syscall.EINVAL
	}
	n, e := f.lookup("/" + strings.Join(cs[:len(cs)-1], "/"))
	if e != 0 {
		return nil, "", e
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	if len(cs[len(cs)-1]) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return n, cs[len(cs)-1], 0
}

func (f *FS) mkdirAll(p string, mode uint32) bool {
	n := f.root
	made := false
	for _, c := range split(p) {
		k := n.kids[c]
		if k == nil {
			k = f.mk(true, mode)
			n.kids[c] = k
			made = true
		}
		if !k.dir {
			return made
		}
		n = k
	}
	return made
}

// ---- harness access (not part of any simulated process)

// Put writes a file, creating directories.
func (f *FS) Put(p string, data []byte) {
	f.mkdirAll(path.Dir(p), 0o755)
	d, name, e := f.parent(p)
	if e != 0 {
		panic("simfs.Put " + p + ": " + e.Error())
	}
	if k := d.kids[name]; k != nil && k.dir {
		return
	}
	n := f.mk(false, 0o644)
	n.data = append([]byte{}, data...)
	d.kids[name] = n
}

func (f *FS) MkdirP(p string) { f.mkdirAll(p, 0o755) }

// Get returns the content of a file and whether it exists as one.
func (f *FS) Get(p string) ([]byte, bool) {
	n, e := f.lookup(p)
	if e != 0 || n.dir {
		return nil, false
	}
	return n.data, true
}

// Del removes a file.
func (f *FS) Del(p string) {
	if d, name, e := f.parent(p); e == 0 {
		delete(d.kids, name)
	}
}

// Files is a copy of the disk: path -> content; directories appear with a trailing slash.
func (f *FS) Files() map[string][]byte {
	m := map[string][]byte{}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		if !n.dir {
			m[p] = append([]byte{}, n.data...)
			return
		}
		if p != "" {
			m[p+"/"] = nil
		}
		for c, k := range n.kids {
			walk(p+"/"+c, k)
		}
	}
	walk("", f.root)
	return m
}

// Clone is a deep copy.
func (f *FS) Clone() *FS {
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		c := *n
		if n.dir {
			c.kids = make(map[string]*inode, len(n.kids))
			for a, b := range n.kids {
				c.kids[a] = cp(b)
			}
		} else {
			c.data = append([]byte{}, n.data...)
		}
		return &c
	}
	return &FS{root: cp(f.root), Clock: f.Clock, inos: f.inos}
}

// ---------------------------------------------------------------- kernel operations

func (k *Kernel) abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	return path.Clean(p)
}

// record logs an operation and applies the fault plan; it returns the error to inject, if any.
func (k *Kernel) record(kind, p string) (*FSOp, *Fault) {
	t := k.cur
	k.ops = append(k.ops, FSOp{N: len(k.ops), Task: t.ID, Call: t.Call, Kind: kind, Path: p})
	op := &k.ops[len(k.ops)-1]
	for i := range k.spec.Faults {
		f := &k.spec.Faults[i]
		if f.Kind != kind || !k.scopeOK(f, t) {
			continue
		}
		k.fcnt[i]++
		if k.fcnt[i] == f.Nth {
			k.stats.Faults[kind+":"+f.Mode]++
			op.Fault = f.Mode
			return op, f
		}
	}
	return op, nil
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"EROFS": syscall.EROFS, "EINTR": syscall.EINTR, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT,
	"ENOMEM": syscall.ENOMEM, "EBUSY": syscall.EBUSY, "ESTALE": syscall.ESTALE,
}

func errnoOf(f *Fault) syscall.Errno {
	if e, ok := errnos[f.Mode]; ok {
		return e
	}
	return syscall.EIO
}

// Handle is an open file description.
type Handle struct {
	n       *inode
	path    string
	off     int64
	flags   int
	closed  bool
	dirRead int
}

const eDead = syscall.ECANCELED

const (
	oAccMode = 3
	oWronly  = 1
	oRdwr    = 2
	oCreat   = 0x40
	oExcl    = 0x80
	oTrunc   = 0x200
	oAppend  = 0x400
)

func valid(p string) syscall.Errno {
	if p == "" {
		return syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return syscall.EINVAL
	}
	return 0
}

//go:noinline
func Open(name string, flags int, mode uint32) (*Handle, syscall.Errno) {
	var h *Handle
	e := eDead
	kind := "open"
	if flags&oAccMode != 0 {
		kind = "openw"
	}
	do1(kind, name, func() { h, e = K.open(kind, name, flags, mode) })
	return h, e
}

func (k *Kernel) open(kind, name string, flags int, mode uint32) (*Handle, syscall.Errno) {
	if e := valid(name); e != 0 {
		k.record(kind, name)
		return nil, e
	}
	p := k.abs(name)
	op, f := k.record(kind, p)
	if f != nil {
		op.Err = f.Mode
		return nil, errnoOf(f)
	}
	n, e := k.FS.lookup(p)
	if e == syscall.ENOENT && flags&oCreat != 0 {
		d, base, e2 := k.FS.parent(p)
		if e2 != 0 {
			op.Err = e2.Error()
			return nil, e2
		}
		n = k.FS.mk(false, mode)
		n.mtime = k.clock
		d.kids[base] = n
		d.mtime = k.clock
		op.Mut = true
	} else if e != 0 {
		op.Err = e.Error()
		return nil, e
	} else {
		if flags&(oCreat|oExcl) == oCreat|oExcl {
			op.Err = "EEXIST"
			return nil, syscall.EEXIST
		}
		if n.dir && flags&oAccMode != 0 {
			op.Err = "EISDIR"
			return nil, syscall.EISDIR
		}
		if flags&oTrunc != 0 && flags&oAccMode != 0 {
			// O_TRUNC on an existing file is a modification (mtime) even when it was empty
			op.Mut = true
			n.data = nil
			n.mtime = k.clock
		}
	}
	k.handles++
	return &Handle{n: n, path: p, flags: flags}, 0
}

func (h *Handle) Path() string { return h.path }

//go:noinline
func (h *Handle) Close() syscall.Errno {
	e := eDead
	do1("close", h.path, func() {
		k := K
		if h.closed {
			e = syscall.EBADF
			return
		}
		op, f := k.record("close", h.path)
		h.closed = true
		k.handles--
		e = 0
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
		}
	})
	return e
}

// Read reads at off (or at the handle's offset when off < 0).
//
//go:noinline
func (h *Handle) Read(b []byte, off int64) (int, syscall.Errno) {
	n, e := 0, eDead
	seq := off < 0
	do("read", h.path, nil, func() bool {
		k := K
		if h.closed {
			e = syscall.EBADF
			return true
		}
		op, f := k.record("read", h.path)
		if f != nil && f.Mode != "short" {
			op.Err = f.Mode
			e = errnoOf(f)
			return true
		}
		if h.flags&oAccMode == oWronly {
			e = syscall.EBADF
			return true
		}
		if h.n.dir {
			e = syscall.EISDIR
			return true
		}
		o := off
		if seq {
			o = h.off
		}
		e = 0
		if o >= int64(len(h.n.data)) {
			return true
		}
		src := h.n.data[o:]
		lim := len(b)
		if c := k.chunk(len(h.n.data)); c > 0 && k.spec.ShortRd && lim > c {
			lim = c
		}
		if f != nil && lim > 1 { // a legal short read
			lim = 1 + f.Arg%lim
		}
		n = copy(b[:lim], src)
		op.Len = n
		if seq {
			h.off += int64(n)
		}
		return true
	})
	return n, e
}

// chunk is the Chunk knob, raised for large transfers so that they take a bounded number of steps.
func (k *Kernel) chunk(total int) int {
	if k.spec.Chunk == 0 {
		return 0
	}
	return max(k.spec.Chunk, total/200)
}

// Write writes at off (or at the handle's offset / end of file when off < 0). Large writes are
// visible in pieces when the Chunk knob is set.
//
//go:noinline
func (h *Handle) Write(b []byte, off int64) (int, syscall.Errno) {
	n, e := 0, eDead
	seq := off < 0
	first := true
	var fault *Fault
	limit := len(b)
	do("write", h.path, nil, func() bool {
		k := K
		if first {
			first = false
			if h.closed || h.flags&oAccMode == 0 {
				e = syscall.EBADF
				return true
			}
			op, f := k.record("write", h.path)
			op.Len = len(b)
			fault = f
			if f != nil {
				op.Err = f.Mode
				limit = 0
				if f.Arg > 0 && len(b) > 0 { // torn: part of the data reaches the file
					limit = f.Arg % len(b)
				}
			}
			if limit > 0 {
				op.Mut = true
			}
		}
		e = 0
		c := limit - n
		if m := k.chunk(len(b)); h.flags&oAppend == 0 && m > 0 && c > m {
			c = m
		}
		o := off + int64(n)
		if seq {
			if h.flags&oAppend != 0 {
				h.off = int64(len(h.n.data))
			}
			o = h.off
		}
		if c > 0 {
			need := int(o) + c
			if need > len(h.n.data) {
				if need > cap(h.n.data) {
					nd := make([]byte, need, need*2)
					copy(nd, h.n.data)
					h.n.data = nd
				} else {
					old := len(h.n.data)
					h.n.data = h.n.data[:need]
					for i := old; i < need; i++ {
						h.n.data[i] = 0
					}
				}
			}
			copy(h.n.data[o:], b[n:n+c])
			h.n.mtime = k.clock
			n += c
			if seq {
				h.off = o + int64(c)
			}
		}
		if n < limit {
			return false
		}
		if fault != nil {
			e = errnoOf(fault)
			if fault.Mode == "short" || fault.Mode == "torn" {
				e = syscall.ENOSPC
			}
		}
		return true
	})
	return n, e
}

//go:noinline
func (h *Handle) Seek(off int64, whence int) (int64, syscall.Errno) {
	var r int64
	e := eDead
	do1("seek", h.path, func() {
		k := K
		if h.closed {
			e = syscall.EBADF
			return
		}
		op, f := k.record("seek", h.path)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		switch whence {
		case 0:
			r = off
		case 1:
			r = h.off + off
		case 2:
			r = int64(len(h.n.data)) + off
		}
		if r < 0 {
			e = syscall.EINVAL
			return
		}
		h.off = r
		h.dirRead = 0
		e = 0
	})
	return r, e
}

//go:noinline
func (h *Handle) Truncate(size int64) syscall.Errno {
	e := eDead
	do1("truncate", h.path, func() {
		k := K
		if h.closed || h.flags&oAccMode == 0 {
			e = syscall.EBADF
			return
		}
		op, f := k.record("truncate", h.path)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		op.Mut = true
		h.n.trunc(size, k.clock)
		e = 0
	})
	return e
}

func (n *inode) trunc(size, clock int64) {
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	n.mtime = clock
}

// Stat is the result of stat(2).
type Stat struct {
	Name  string
	Size  int64
	Dir   bool
	Mode  uint32
	MTime int64
	Ino   int
}

func (n *inode) stat(p string) Stat {
	s := Stat{Name: path.Base(p), Size: int64(len(n.data)), Dir: n.dir, Mode: n.mode, MTime: n.mtime, Ino: n.ino}
	if n.dir {
		s.Size = 4096
	}
	return s
}

//go:noinline
func (h *Handle) Stat() (Stat, syscall.Errno) {
	var s Stat
	e := eDead
	do1("fstat", h.path, func() {
		if h.closed {
			e = syscall.EBADF
			return
		}
		op, f := K.record("fstat", h.path)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		s, e = h.n.stat(h.path), 0
	})
	return s, e
}

//go:noinline
func (h *Handle) Sync() syscall.Errno {
	e := eDead
	do1("fsync", h.path, func() {
		op, f := K.record("fsync", h.path)
		e = 0
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
		}
	})
	return e
}

// ReadDir returns up to n entries (all when n <= 0), in directory order decided by the seed.
//
//go:noinline
func (h *Handle) ReadDir(n int) ([]Stat, syscall.Errno) {
	var out []Stat
	e := eDead
	do1("readdir", h.path, func() {
		k := K
		op, f := k.record("readdir", h.path)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		if !h.n.dir {
			e = syscall.ENOTDIR
			return
		}
		e = 0
		var names []string
		for c := range h.n.kids {
			names = append(names, c)
		}
		sort.Strings(names)
		for i := len(names) - 1; i > 0; i-- { // raw directory order is arbitrary
			j := int((uint64(h.n.ino)*2654435761 + uint64(i)*40503) % uint64(i+1))
			names[i], names[j] = names[j], names[i]
		}
		for _, c := range names[min(h.dirRead, len(names)):] {
			if n > 0 && len(out) == n {
				break
			}
			out = append(out, h.n.kids[c].stat(c))
		}
		h.dirRead += len(out)
	})
	return out, e
}

//go:noinline
func StatPath(name string) (Stat, syscall.Errno) {
	var s Stat
	e := eDead
	do1("stat", name, func() {
		if e = valid(name); e != 0 {
			return
		}
		p := K.abs(name)
		op, f := K.record("stat", p)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		n, e2 := K.FS.lookup(p)
		e = e2
		if e == 0 {
			s = n.stat(p)
		}
	})
	return s, e
}

func mutate(kind, name string, fn func(k *Kernel, p string, op *FSOp) syscall.Errno) syscall.Errno {
	e := eDead
	do1(kind, name, func() {
		if e = valid(name); e != 0 {
			return
		}
		p := K.abs(name)
		op, f := K.record(kind, p)
		if f != nil {
			op.Err = f.Mode
			e = errnoOf(f)
			return
		}
		e = fn(K, p, op)
		if e != 0 {
			op.Err = e.Error()
		} else {
			op.Mut = true
		}
	})
	return e
}

//go:noinline
func Mkdir(name string, mode uint32) syscall.Errno {
	return mutate("mkdir", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		d, base, e := k.FS.parent(p)
		if e == syscall.EINVAL {
			return syscall.EEXIST
		}
		if e != 0 {
			return e
		}
		if d.kids[base] != nil {
			return syscall.EEXIST
		}
		d.kids[base] = k.FS.mk(true, mode)
		return 0
	})
}

// Remove is unlink(2) or rmdir(2).
//
//go:noinline
func Remove(name string) syscall.Errno {
	return mutate("remove", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		d, base, e := k.FS.parent(p)
		if e != 0 {
			return e
		}
		n := d.kids[base]
		if n == nil {
			return syscall.ENOENT
		}
		if n.dir && len(n.kids) > 0 {
			return syscall.ENOTEMPTY
		}
		delete(d.kids, base)
		return 0
	})
}

//go:noinline
func RemoveAll(name string) syscall.Errno {
	return mutate("removeall", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		d, base, e := k.FS.parent(p)
		if e == syscall.ENOENT {
			return 0
		}
		if e != 0 {
			return e
		}
		delete(d.kids, base)
		return 0
	})
}

//go:noinline
func Rename(from, to string) syscall.Errno {
	return mutate("rename", to, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		sd, sb, e := k.FS.parent(k.abs(from))
		if e != 0 {
			return e
		}
		dd, db, e := k.FS.parent(p)
		if e != 0 {
			return e
		}
		n := sd.kids[sb]
		if n == nil {
			return syscall.ENOENT
		}
		if o := dd.kids[db]; o != nil && o.dir != n.dir {
			if o.dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		delete(sd.kids, sb)
		dd.kids[db] = n
		return 0
	})
}

//go:noinline
func Link(from, to string) syscall.Errno {
	return mutate("link", to, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		n, e := k.FS.lookup(k.abs(from))
		if e != 0 {
			return e
		}
		dd, db, e := k.FS.parent(p)
		if e != 0 {
			return e
		}
		if dd.kids[db] != nil {
			return syscall.EEXIST
		}
		dd.kids[db] = n
		return 0
	})
}

//go:noinline
func TruncatePath(name string, size int64) syscall.Errno {
	return mutate("truncate", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		n, e := k.FS.lookup(p)
		if e != 0 {
			return e
		}
		if n.dir {
			return syscall.EISDIR
		}
		n.trunc(size, k.clock)
		return 0
	})
}

//go:noinline
func Chmod(name string, mode uint32) syscall.Errno {
	return mutate("chmod", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		n, e := k.FS.lookup(p)
		if e != 0 {
			return e
		}
		n.mode = mode
		return 0
	})
}

//go:noinline
func Chtimes(name string, t int64) syscall.Errno {
	return mutate("chtimes", name, func(k *Kernel, p string, op *FSOp) syscall.Errno {
		n, e := k.FS.lookup(p)
		if e != 0 {
			return e
		}
		n.mtime = t
		return 0
	})
}
