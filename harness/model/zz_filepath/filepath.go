// Package filepath is a model of package path/filepath: everything but the walks is the library's.
package filepath

import (
	"errors"
	"path/filepath"
	"strings"

	os "github.com/cespare/goclj/zz_os"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	SkipDir = filepath.SkipDir
	SkipAll = errors.New("skip everything and stop the walk")
)

type (
	WalkFunc    = func(path string, info os.FileInfo, err error) error
	WalkDirFunc = func(path string, d os.DirEntry, err error) error
)

func Join(elem ...string) string                         { return filepath.Join(elem...) }
func Ext(path string) string                             { return filepath.Ext(path) }
func Base(path string) string                            { return filepath.Base(path) }
func Dir(path string) string                             { return filepath.Dir(path) }
func Clean(path string) string                           { return filepath.Clean(path) }
func Split(path string) (dir, file string)               { return filepath.Split(path) }
func Rel(basepath, targpath string) (string, error)      { return filepath.Rel(basepath, targpath) }
func ToSlash(path string) string                         { return path }
func FromSlash(path string) string                       { return path }
func IsAbs(path string) bool                             { return filepath.IsAbs(path) }
func Abs(path string) (string, error)                    { return filepath.Clean(path), nil }
func Match(pattern, name string) (matched bool, e error) { return filepath.Match(pattern, name) }
func EvalSymlinks(path string) (string, error)           { return os.EvalSymlinks(path) }
func VolumeName(path string) string                      { return "" }

// Walk is the library's algorithm on the model's file system.
func Walk(root string, fn func(path string, info os.FileInfo, err error) error) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll || err == filepath.SkipAll {
		return nil
	}
	return err
}

func readDirNames(dirname string) ([]string, error) {
	f, err := os.Open(dirname)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	for i := 1; i < len(names); i++ {
		for k := i; k > 0 && names[k] < names[k-1]; k-- {
			names[k], names[k-1] = names[k-1], names[k]
		}
	}
	return names, nil
}

func walk(path string, info os.FileInfo, fn func(path string, info os.FileInfo, err error) error) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := readDirNames(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		filename := filepath.Join(path, name)
		fi, err := os.Lstat(filename)
		if err != nil {
			if err := fn(filename, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(filename, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir is the library's algorithm on the model's file system.
func WalkDir(root string, fn func(path string, d os.DirEntry, err error) error) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, info.(os.DirEntry), fn)
	}
	if err == SkipDir || err == SkipAll || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d os.DirEntry, fn func(path string, d os.DirEntry, err error) error) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ds, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range ds {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func SplitList(path string) []string  { return filepath.SplitList(path) }
func HasPrefix(p, prefix string) bool { return strings.HasPrefix(p, prefix) }
func IsLocal(path string) bool        { return filepath.IsLocal(path) }
