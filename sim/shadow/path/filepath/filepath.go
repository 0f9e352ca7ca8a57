package filepath

import (
	"io/fs"
	rfp "path/filepath"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/shadow/os"
)

const (
	Separator     = rfp.Separator
	ListSeparator = rfp.ListSeparator
)

var (
	ErrBadPattern = rfp.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = rfp.WalkFunc

func Base(p string) string              { return rfp.Base(p) }
func Clean(p string) string             { return rfp.Clean(p) }
func Dir(p string) string               { return rfp.Dir(p) }
func Ext(p string) string               { return rfp.Ext(p) }
func FromSlash(p string) string         { return rfp.FromSlash(p) }
func ToSlash(p string) string           { return rfp.ToSlash(p) }
func IsAbs(p string) bool               { return rfp.IsAbs(p) }
func IsLocal(p string) bool             { return rfp.IsLocal(p) }
func Localize(p string) (string, error) { return rfp.Localize(p) }
func Join(e ...string) string           { return rfp.Join(e...) }
func Match(a, b string) (bool, error)   { return rfp.Match(a, b) }
func Rel(a, b string) (string, error)   { return rfp.Rel(a, b) }
func Split(p string) (string, string)   { return rfp.Split(p) }
func SplitList(p string) []string       { return rfp.SplitList(p) }
func VolumeName(p string) string        { return rfp.VolumeName(p) }
func HasPrefix(a, b string) bool        { return strings.HasPrefix(a, b) }
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	d, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(d, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}

func Glob(pat string) ([]string, error) {
	if _, err := Match(pat, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pat, "*?[\\") {
		if _, err := os.Lstat(pat); err != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, base := Split(pat)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = strings.TrimSuffix(dir, "/")
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := Match(base, e.Name()); ok {
				out = append(out, Join(d, e.Name()))
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

func WalkDir(root string, f fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = f(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), f)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, f fs.WalkDirFunc) error {
	if err := f(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(p)
	if err != nil {
		if err = f(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(Join(p, e.Name()), e, f); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, f WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return f(p, i, err)
	})
}
