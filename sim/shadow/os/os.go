// Package os shadows the standard package: same API, simulated disk, environment and exit.
package os

import (
	"errors"
	"io"
	"io/fs"
	ros "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	PathError    = fs.PathError
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm

	PathSeparator     = ros.PathSeparator
	PathListSeparator = ros.PathListSeparator
	DevNull           = ros.DevNull
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone

	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}

	Interrupt = ros.Interrupt
	Kill      = ros.Kill

	Args = []string{"/tmp/go-build1/b001/pkg.test"}
)

func perr(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &PathError{Op: op, Path: p, Err: e}
}

// File is an open file of the simulated process.
type File struct {
	name string
	h    *simrt.Handle
	std  int
	app  bool
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, e := simrt.Open(name, flag, uint32(perm))
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{name: name, h: h, app: flag&O_APPEND != 0}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func NewFile(fd uintptr, name string) *File { return &File{name: name, std: int(fd) + 1} }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) chk(op string) error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func closedErr(op, name string, e syscall.Errno) error {
	if e == syscall.EBADF {
		return &PathError{Op: op, Path: name, Err: ErrClosed}
	}
	return perr(op, name, e)
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := f.h.Read(b, -1)
	if e != 0 {
		return n, closedErr("read", f.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	tot := 0
	for len(b) > 0 {
		n, e := f.h.Read(b, off)
		if e != 0 {
			return tot, closedErr("read", f.name, e)
		}
		if n == 0 {
			return tot, io.EOF
		}
		tot += n
		off += int64(n)
		b = b[n:]
	}
	return tot, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		simrt.WriteStd(f.std == 3, b)
		return len(b), nil
	}
	n, e := f.h.Write(b, -1)
	if e != 0 {
		return n, closedErr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	n, e := f.h.Write(b, off)
	if e != 0 {
		return n, closedErr("write", f.name, e)
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	n, e := f.h.Seek(off, whence)
	if e != 0 {
		return 0, closedErr("seek", f.name, e)
	}
	return n, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if e := f.h.Truncate(size); e != 0 {
		return closedErr("truncate", f.name, e)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, f.h.Sync())
}

func (f *File) Close() error {
	if err := f.chk("close"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if e := f.h.Close(); e != 0 {
		return closedErr("close", f.name, e)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	s, e := f.h.Stat()
	if e != 0 {
		return nil, closedErr("stat", f.name, e)
	}
	s.Name = path.Base(f.name)
	return info{s}, nil
}

func (f *File) Chmod(mode FileMode) error { return Chmod(f.name, mode) }
func (f *File) Chdir() error              { return Chdir(f.name) }
func (f *File) SetDeadline(time.Time) error {
	return ErrNoDeadline
}
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.chk("readdir"); err != nil {
		return nil, err
	}
	ss, e := f.h.ReadDir(n)
	var out []DirEntry
	for _, s := range ss {
		out = append(out, fs.FileInfoToDirEntry(info{s}))
	}
	if e != 0 {
		return out, closedErr("readdir", f.name, e)
	}
	if n > 0 && len(out) == 0 {
		return out, io.EOF
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	ds, err := f.ReadDir(n)
	var out []FileInfo
	for _, d := range ds {
		i, _ := d.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	ds, err := f.ReadDir(n)
	var out []string
	for _, d := range ds {
		out = append(out, d.Name())
	}
	return out, err
}

type info struct{ s simrt.Stat }

func (i info) Name() string       { return i.s.Name }
func (i info) Size() int64        { return i.s.Size }
func (i info) ModTime() time.Time { return time.Unix(1_700_000_000, i.s.MTime).UTC() }
func (i info) IsDir() bool        { return i.s.Dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() FileMode {
	m := FileMode(i.s.Mode) & ModePerm
	if i.s.Dir {
		m |= ModeDir
	}
	return m
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.s.Ino == y.s.Ino
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if i, err := f.Stat(); err == nil {
		size = int(i.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error) {
	s, e := simrt.StatPath(name)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return info{s}, nil
}

func Lstat(name string) (FileInfo, error) {
	s, e := simrt.StatPath(name)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	return info{s}, nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ds, err := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, err
}

func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, simrt.Mkdir(name, uint32(perm)))
}

func MkdirAll(p string, perm FileMode) error {
	d, err := Stat(p)
	if err == nil {
		if d.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	i := len(p)
	for i > 0 && p[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && p[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(p[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		d, err1 := Lstat(p)
		if err1 == nil && d.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error    { return perr("remove", name, simrt.Remove(name)) }
func RemoveAll(name string) error { return perr("unlinkat", name, simrt.RemoveAll(name)) }
func Rename(a, b string) error {
	if e := simrt.Rename(a, b); e != 0 {
		return &LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	return nil
}
func Link(a, b string) error {
	if e := simrt.Link(a, b); e != 0 {
		return &LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	return nil
}
func Symlink(a, b string) error {
	return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }
func Truncate(name string, size int64) error {
	return perr("truncate", name, simrt.TruncatePath(name, size))
}
func Chmod(name string, mode FileMode) error {
	return perr("chmod", name, simrt.Chmod(name, uint32(mode)))
}
func Chown(name string, uid, gid int) error { return nil }
func Chtimes(name string, a, m time.Time) error {
	return perr("chtimes", name, simrt.Chtimes(name, m.Sub(time.Unix(1_700_000_000, 0)).Nanoseconds()))
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		f, err := OpenFile(temp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) && i < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		n := temp(dir, pattern)
		err := Mkdir(n, 0o700)
		if IsExist(err) && i < 1000 {
			continue
		}
		return n, err
	}
}

func temp(dir, pattern string) string {
	r := strconv.FormatUint(simrt.RandU64()%4294967296, 10)
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return strings.TrimSuffix(dir, "/") + "/" + pre + r + suf
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func Getwd() (string, error) { return simrt.Getwd(), nil }
func Chdir(d string) error {
	if err := simrt.Chdir(d); err != nil {
		return &PathError{Op: "chdir", Path: d, Err: err}
	}
	return nil
}

func Getenv(k string) string            { v, _ := simrt.LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) { return simrt.LookupEnv(k) }
func Setenv(k, v string) error          { simrt.Setenv(k, v); return nil }
func Unsetenv(k string) error           { simrt.Unsetenv(k); return nil }
func Environ() []string                 { return simrt.Environ() }
func Clearenv() {
	for _, e := range Environ() {
		simrt.Unsetenv(e[:strings.IndexByte(e, '=')])
	}
}
func ExpandEnv(s string) string                     { return ros.Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return ros.Expand(s, m) }
func Exit(code int)                                 { simrt.Exit(code) }
func Getpid() int                                   { return 4242 }
func Getppid() int                                  { return 4241 }
func Getuid() int                                   { return 1000 }
func Geteuid() int                                  { return 1000 }
func Getgid() int                                   { return 1000 }
func Getegid() int                                  { return 1000 }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return Args[0], nil }
func UserHomeDir() (string, error)                  { return "/home/sim", nil }
func UserCacheDir() (string, error)                 { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)                { return "/home/sim/.config", nil }
func IsExist(err error) bool                        { return ros.IsExist(err) }
func IsNotExist(err error) bool                     { return ros.IsNotExist(err) }
func IsPermission(err error) bool                   { return ros.IsPermission(err) }
func IsTimeout(err error) bool                      { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func NewSyscallError(s string, err error) error     { return ros.NewSyscallError(s, err) }

// DirFS is the simulated disk below dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	return Open(string(d) + "/" + name)
}
func (d dirFS) ReadFile(name string) ([]byte, error)    { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (FileInfo, error)      { return Stat(string(d) + "/" + name) }
