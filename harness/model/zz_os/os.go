// Package os is a model of the parts of package os that the command may use: a small file system, the standard
// streams, the environment and process exit, with optional failures and crashes at every operation.
package os

import (
	"errors"
	"io"
	"io/fs"
	stdos "os"
	"strings"
	"time"

	vrt "github.com/cespare/goclj/zz_vrt"
)

type (
	FileMode = stdos.FileMode
	FileInfo = stdos.FileInfo
	DirEntry = interface {
		Name() string
		IsDir() bool
		Type() FileMode
		Info() (FileInfo, error)
	}
)

const (
	O_RDONLY = stdos.O_RDONLY
	O_WRONLY = stdos.O_WRONLY
	O_RDWR   = stdos.O_RDWR
	O_APPEND = stdos.O_APPEND
	O_CREATE = stdos.O_CREATE
	O_EXCL   = stdos.O_EXCL
	O_SYNC   = stdos.O_SYNC
	O_TRUNC  = stdos.O_TRUNC

	ModeDir       = stdos.ModeDir
	ModeSymlink   = stdos.ModeSymlink
	ModeNamedPipe = stdos.ModeNamedPipe
	ModeType      = stdos.ModeType
	ModePerm      = stdos.ModePerm

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed

	errIO     = errors.New("input/output error")
	errIsDir  = errors.New("is a directory")
	errNotDir = errors.New("not a directory")
	errLoop   = errors.New("too many levels of symbolic links")
	errEmpty  = errors.New("directory not empty")
)

// PathError is os.PathError.
type PathError = fs.PathError

type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

func cause(err error) error {
	switch e := err.(type) {
	case *PathError:
		return e.Err
	case *LinkError:
		return e.Err
	}
	return err
}

func IsNotExist(err error) bool   { return cause(err) == ErrNotExist }
func IsExist(err error) bool      { return cause(err) == ErrExist }
func IsPermission(err error) bool { return cause(err) == ErrPermission }

// ---- the world ----

// An Entry is a file, directory or symbolic link. Paths are relative and clean.
type Entry struct {
	Path   string
	Mode   FileMode
	Data   string
	Target string
}

func (e *Entry) isDir() bool  { return e.Mode&ModeDir != 0 }
func (e *Entry) isLink() bool { return e.Mode&ModeSymlink != 0 }

// World is everything outside the process.
type World struct {
	Entries []*Entry
	Env     [][2]string
	In      string
	Out     string
	Err     string

	Faults  int      // operations that may still fail
	Failed  []string // operations that failed
	Crash   bool     // the process may stop at any change of a file
	Crashed bool
	Changes []string // changes of files
	Exited  bool
	Status  int
	Open    int // files that are open

	dead  bool
	inPos int
	temp  int
}

// W is the current world.
var W = new(World)

// Reset makes w the current world.
func Reset(w *World, args []string) {
	W = w
	Args = args
	stdin = File{name: "/dev/stdin", std: 1}
	stdout = File{name: "/dev/stdout", std: 2}
	stderr = File{name: "/dev/stderr", std: 3}
	Stdin, Stdout, Stderr = &stdin, &stdout, &stderr
}

type exitPanic struct{}

// Run runs a program in the current world and returns its status.
func Run(f func()) (status int) {
	defer func() {
		r := recover()
		if _, ok := r.(exitPanic); r != nil && !ok {
			panic(r)
		}
		status = W.Status
	}()
	f()
	return W.Status
}

// Exit ends the program.
func Exit(code int) {
	if !W.dead {
		W.Exited, W.Status, W.dead = true, code, true
	}
	panic(exitPanic{})
}

// fault decides whether an operation fails.
func fault(op, path string) error {
	alive()
	if W.Faults == 0 {
		return nil
	}
	k := vrt.Choice(3)
	if k == 0 {
		return nil
	}
	W.Faults--
	W.Failed = append(W.Failed, op+" "+path)
	if k == 2 {
		switch op {
		case "open", "stat", "lstat":
			W.Failed[len(W.Failed)-1] += " (missing)"
			return &PathError{op, path, ErrNotExist}
		}
		return &PathError{op, path, ErrPermission}
	}
	return &PathError{op, path, errIO}
}

// alive stops a program that has exited or crashed but runs deferred functions.
func alive() {
	if W.dead {
		panic(exitPanic{})
	}
}

// change notes a change of a file; the process may stop right before it.
func change(what string) {
	alive()
	if W.Crash && vrt.Choice(2) == 1 {
		W.Crashed, W.dead = true, true
		panic(exitPanic{})
	}
	W.Changes = append(W.Changes, what)
}

func find(path string) *Entry {
	for _, e := range W.Entries {
		if e.Path == path {
			return e
		}
	}
	return nil
}

var root = &Entry{Path: ".", Mode: ModeDir | 0755}

func join(dir, name string) string {
	if dir == "." {
		return name
	}
	return dir + "/" + name
}

// resolve finds the clean path of a name; the entry is nil if only the last element does not exist.
func resolve(name string, follow bool) (string, *Entry, error) {
	if name == "" || strings.HasPrefix(name, "/") {
		return "", nil, ErrNotExist
	}
	return walk(".", name, follow, 0)
}

func walk(dir, name string, follow bool, depth int) (string, *Entry, error) {
	if depth > 8 {
		return "", nil, errLoop
	}
	cur := root
	if dir != "." {
		cur = find(dir)
	}
	for name != "" {
		var el string
		i := strings.IndexByte(name, '/')
		if i < 0 {
			el, name = name, ""
		} else {
			el, name = name[:i], name[i+1:]
		}
		last := i < 0
		if !last {
			for strings.HasPrefix(name, "/") {
				name = name[1:]
			}
		}
		if el == "." || el == "" {
			continue
		}
		if el == ".." {
			k := strings.LastIndexByte(dir, '/')
			switch {
			case dir == ".":
				return "", nil, ErrNotExist
			case k < 0:
				dir, cur = ".", root
			default:
				dir = dir[:k]
				cur = find(dir)
			}
			continue
		}
		path := join(dir, el)
		e := find(path)
		if e == nil {
			if last {
				return path, nil, nil
			}
			return "", nil, ErrNotExist
		}
		if e.isLink() && (follow || !last) {
			p, t, err := walk(dir, e.Target, true, depth+1)
			if err != nil {
				return "", nil, err
			}
			if t == nil {
				if last {
					return p, nil, nil
				}
				return "", nil, ErrNotExist
			}
			path, e = p, t
		}
		if !last && !e.isDir() {
			return "", nil, errNotDir
		}
		dir, cur = path, e
	}
	return dir, cur, nil
}

func parentIsDir(path string) bool {
	i := strings.LastIndexByte(path, '/')
	if i < 0 {
		return true
	}
	p := find(path[:i])
	return p != nil && p.isDir()
}

// ---- files ----

type info struct {
	name string
	mode FileMode
	size int64
}

func (i *info) Name() string            { return i.name }
func (i *info) Size() int64             { return i.size }
func (i *info) Mode() FileMode          { return i.mode }
func (i *info) Type() FileMode          { return i.mode & ModeType }
func (i *info) ModTime() time.Time      { return time.Time{} }
func (i *info) IsDir() bool             { return i.mode&ModeDir != 0 }
func (i *info) Sys() interface{}        { return nil }
func (i *info) Info() (FileInfo, error) { return i, nil }

func base(name string) string {
	for len(name) > 1 && strings.HasSuffix(name, "/") {
		name = name[:len(name)-1]
	}
	if i := strings.LastIndexByte(name, '/'); i >= 0 && len(name) > 1 {
		name = name[i+1:]
	}
	return name
}

func infoOf(name string, e *Entry) *info {
	return &info{base(name), e.Mode, int64(len(e.Data))}
}

func stat(op, name string, follow bool) (FileInfo, error) {
	if err := fault(op, name); err != nil {
		return nil, err
	}
	_, e, err := resolve(name, follow)
	if err == nil && e == nil {
		err = ErrNotExist
	}
	if err != nil {
		return nil, &PathError{op, name, err}
	}
	return infoOf(name, e), nil
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }

// A File is an open file.
type File struct {
	name   string
	std    int
	e      *Entry
	flag   int
	off    int
	list   bool // directory entries read
	closed bool
}

// The streams stay the same files, as packages may refer to them from the beginning.
var (
	stdin, stdout, stderr File

	Args   = []string{"cljfmt"}
	Stdin  = &stdin
	Stdout = &stdout
	Stderr = &stderr
)

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := fault("open", name); err != nil {
		return nil, err
	}
	path, e, err := resolve(name, true)
	fail := func(err error) (*File, error) { return nil, &PathError{"open", name, err} }
	if err != nil {
		return fail(err)
	}
	write := flag&(O_WRONLY|O_RDWR) != 0
	switch {
	case e == nil:
		if flag&O_CREATE == 0 || !parentIsDir(path) {
			return fail(ErrNotExist)
		}
		change("create " + path)
		e = &Entry{Path: path, Mode: perm & 0777}
		W.Entries = append(W.Entries, e)
	case flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return fail(ErrExist)
	case e.isDir() && (write || flag&O_CREATE != 0):
		return fail(errIsDir)
	case flag&O_TRUNC != 0 && write && !e.isDir():
		change("truncate " + path)
		e.Data = ""
	}
	W.Open++
	return &File{name: name, e: e, flag: flag}, nil
}

func (f *File) bad(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{op, f.name, ErrClosed}
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Sync() error  { return f.bad("sync") }
func (f *File) Fd() uintptr  { return uintptr(f.std - 1) }

func (f *File) Read(b []byte) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := fault("read", f.name); err != nil {
		return 0, err
	}
	data, off := "", f.off
	switch {
	case f.std == 1:
		data, off = W.In, W.inPos
	case f.std > 1 || f.flag&O_WRONLY != 0:
		return 0, &PathError{"read", f.name, errors.New("bad file descriptor")}
	case f.e.isDir():
		return 0, &PathError{"read", f.name, errIsDir}
	default:
		data = f.e.Data
	}
	if off >= len(data) {
		return 0, io.EOF
	}
	n := copy(b, data[off:])
	if f.std == 1 {
		W.inPos += n
	} else {
		f.off += n
	}
	return n, nil
}

func (f *File) put(b string) error {
	switch f.std {
	case 0:
	case 2:
		W.Out += b
		return nil
	case 3:
		W.Err += b
		return nil
	default:
		return &PathError{"write", f.name, errors.New("bad file descriptor")}
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return &PathError{"write", f.name, errors.New("bad file descriptor")}
	}
	if b == "" {
		return nil
	}
	change("write " + f.e.Path)
	if f.flag&O_APPEND != 0 {
		f.off = len(f.e.Data)
	}
	d := f.e.Data
	for len(d) < f.off {
		d += "\x00"
	}
	rest := ""
	if f.off+len(b) < len(d) {
		rest = d[f.off+len(b):]
	}
	f.e.Data = d[:f.off] + b + rest
	f.off += len(b)
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.std != 3 {
		if err := fault("write", f.name); err != nil {
			n := 0
			if len(b) > 1 && vrt.Choice(2) == 1 {
				n = len(b) / 2
				if err := f.put(string(b[:n])); err != nil {
					return 0, err
				}
			}
			return n, err
		}
	}
	if W.Crash && f.std == 0 && len(b) > 1 { // a crash in the middle of a write
		n := len(b) / 2
		if err := f.put(string(b[:n])); err != nil {
			return 0, err
		}
		if err := f.put(string(b[n:])); err != nil {
			return n, err
		}
		return len(b), nil
	}
	if err := f.put(string(b)); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	if err := f.bad("close"); err != nil {
		return err
	}
	f.closed = true
	if f.std == 0 {
		W.Open--
	}
	if f.flag&(O_WRONLY|O_RDWR) != 0 || f.std == 2 {
		return fault("close", f.name)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	if err := fault("stat", f.name); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return &info{base(f.name), ModeNamedPipe | 0600, 0}, nil
	}
	return infoOf(f.name, f.e), nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = int(offset)
	case io.SeekCurrent:
		f.off += int(offset)
	case io.SeekEnd:
		f.off = len(f.e.Data) + int(offset)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	return truncate(f.name, f.e, int(size))
}

func Truncate(name string, size int64) error {
	_, e, err := resolve(name, true)
	if err == nil && e == nil {
		err = ErrNotExist
	}
	if err != nil {
		return &PathError{"truncate", name, err}
	}
	return truncate(name, e, int(size))
}

func truncate(name string, e *Entry, n int) error {
	if err := fault("truncate", name); err != nil {
		return err
	}
	change("truncate " + e.Path)
	for len(e.Data) < n {
		e.Data += "\x00"
	}
	e.Data = e.Data[:n]
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if err := f.bad("chmod"); err != nil {
		return err
	}
	if err := fault("chmod", f.name); err != nil {
		return err
	}
	f.e.Mode = f.e.Mode&^0777 | mode&0777
	return nil
}

func Chmod(name string, mode FileMode) error {
	f, err := Open(name)
	if err != nil {
		return err
	}
	return f.Chmod(mode)
}

// ---- directories ----

func names(dir string) []*Entry {
	var out []*Entry
	for _, e := range W.Entries {
		i := strings.LastIndexByte(e.Path, '/')
		if i < 0 && dir == "." || i >= 0 && e.Path[:i] == dir {
			out = append(out, e)
		}
	}
	return out
}

func (f *File) entries(n int) ([]*info, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	if err := fault("readdir", f.name); err != nil {
		return nil, err
	}
	if f.e == nil || !f.e.isDir() {
		return nil, &PathError{"readdir", f.name, errNotDir}
	}
	if f.list {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.list = true
	var out []*info
	for _, e := range names(f.e.Path) {
		out = append(out, infoOf(e.Path, e))
	}
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.entries(n)
	var out []string
	for _, e := range es {
		out = append(out, e.name)
	}
	return out, err
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.entries(n)
	var out []FileInfo
	for _, e := range es {
		out = append(out, e)
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	es, err := f.entries(n)
	var out []DirEntry
	for _, e := range es {
		out = append(out, e)
	}
	return out, err
}

// List returns the entries of a directory in order.
func List(name string) ([]FileInfo, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	es, err := f.Readdir(-1)
	f.Close()
	for i := 1; i < len(es); i++ {
		for k := i; k > 0 && es[k].Name() < es[k-1].Name(); k-- {
			es[k], es[k-1] = es[k-1], es[k]
		}
	}
	return es, err
}

func ReadDir(name string) ([]DirEntry, error) {
	es, err := List(name)
	var out []DirEntry
	for _, e := range es {
		out = append(out, e.(DirEntry))
	}
	return out, err
}

func Mkdir(name string, perm FileMode) error {
	if err := fault("mkdir", name); err != nil {
		return err
	}
	path, e, err := resolve(name, true)
	if err == nil && e != nil {
		err = ErrExist
	}
	if err != nil {
		return &PathError{"mkdir", name, err}
	}
	change("mkdir " + path)
	W.Entries = append(W.Entries, &Entry{Path: path, Mode: ModeDir | perm&0777})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if _, e, err := resolve(name, true); err == nil && e != nil && e.isDir() {
		return nil
	}
	if i := strings.LastIndexByte(name, '/'); i > 0 {
		if err := MkdirAll(name[:i], perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func drop(e *Entry) {
	var out []*Entry
	for _, x := range W.Entries {
		if x != e {
			out = append(out, x)
		}
	}
	W.Entries = out
}

func Remove(name string) error {
	if err := fault("remove", name); err != nil {
		return err
	}
	path, e, err := resolve(name, false)
	if err == nil && e == nil {
		err = ErrNotExist
	}
	if err == nil && e.isDir() && len(names(path)) > 0 {
		err = errEmpty
	}
	if err != nil {
		return &PathError{"remove", name, err}
	}
	change("remove " + path)
	drop(e)
	return nil
}

func RemoveAll(name string) error {
	path, e, err := resolve(name, false)
	if err != nil || e == nil {
		return nil
	}
	for _, k := range names(path) {
		if err := RemoveAll(k.Path); err != nil {
			return err
		}
	}
	return Remove(name)
}

func Rename(from, to string) error {
	if err := fault("rename", from); err != nil {
		return err
	}
	_, e, err := resolve(from, false)
	if err == nil && e == nil {
		err = ErrNotExist
	}
	path, old, err2 := resolve(to, false)
	if err == nil {
		err = err2
	}
	if err == nil && !parentIsDir(path) {
		err = ErrNotExist
	}
	if err == nil && old != nil && old.isDir() {
		err = ErrExist
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	if old == e {
		return nil
	}
	change("rename to " + path)
	if old != nil {
		drop(old)
	}
	e.Path = path
	return nil
}

func Readlink(name string) (string, error) {
	_, e, err := resolve(name, false)
	if err == nil && (e == nil || !e.isLink()) {
		err = ErrInvalid
	}
	if err != nil {
		return "", &PathError{"readlink", name, err}
	}
	return e.Target, nil
}

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(name string) (string, error) {
	if err := fault("lstat", name); err != nil {
		return "", err
	}
	path, e, err := resolve(name, true)
	if err == nil && e == nil {
		err = ErrNotExist
	}
	if err != nil {
		return "", &PathError{"lstat", name, err}
	}
	return path, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "tmp"
	}
	for {
		W.temp++
		r := string(rune('0' + W.temp%10))
		name := pattern + r
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			name = pattern[:i] + r + pattern[i+1:]
		}
		f, err := OpenFile(join(dir, name), O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && W.temp < 30 {
			continue
		}
		return f, err
	}
}

func TempDir() string { return "tmp" }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func SameFile(a, b FileInfo) bool { return a == b }

// ---- environment ----

func LookupEnv(k string) (string, bool) {
	for _, e := range W.Env {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func ExpandEnv(s string) string                       { return stdos.Expand(s, Getenv) }
func Expand(s string, get func(string) string) string { return stdos.Expand(s, get) }

func Environ() []string {
	var out []string
	for _, e := range W.Env {
		out = append(out, e[0]+"="+e[1])
	}
	return out
}

func IsTimeout(err error) bool                   { return false }
func IsPathSeparator(c uint8) bool               { return c == '/' }
func Chtimes(string, time.Time, time.Time) error { return nil }

func Getwd() (string, error) { return ".", nil }
func Getpid() int            { return 1 }
func Executable() (string, error) {
	return "cljfmt", nil
}
