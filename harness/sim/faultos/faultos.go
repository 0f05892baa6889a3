// Package faultos stands in for package os in the code under test: an in-memory
// file system whose operations fail, or at which the process dies, according to
// a plan chosen by the harness.
package faultos

import (
	"errors"
	"io"
	"io/fs"
	"strings"
	"syscall"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

type Signal interface {
	String() string
	Signal()
}

type sig int

func (s sig) String() string { return "signal" }
func (s sig) Signal()        {}

var (
	Interrupt Signal = sig(2)
	Kill      Signal = sig(9)
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = errors.New("file type does not support deadline")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("os: process already finished")
	ErrIO               = errors.New("input/output error")
)

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm       = fs.ModePerm
	ModeDir        = fs.ModeDir
	ModeSymlink    = fs.ModeSymlink
	ModeCharDevice = fs.ModeCharDevice
	ModeNamedPipe  = fs.ModeNamedPipe

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
)

// The process.
var (
	Args   []string
	Stdin  *File
	Stdout *File
	Stderr *File
)

type inode struct {
	data []byte
	mode FileMode
}

type entry struct {
	path string
	n    *inode
	dest string // symbolic link
}

// A Plan says which operations fail. Operations are numbered from 0 from Arm on.
type Plan struct {
	Fail    int  // the operation that fails, -1 for none
	Also    int  // another operation that fails, if Fail comes before
	Sticky  bool // all later ones fail as well (except closing and removing)
	Short   bool // a failing write writes half of its bytes
	Crash   int  // the process dies at this operation, -1 for never
	Half    bool // having done half of it, if it is a write
	NoSpace bool // only writes fail (the disk is full); Fail counts writes then
}

var (
	table  []entry
	plan   Plan
	ops    int
	writes int
	armed  bool
	dead   bool
	temps  int
	home   string
	tty    bool
	kinds  []string
	failed string
	mute   bool
	hear   bool // somebody looks at standard error
)

type crashed struct{}
type exited struct{ code int }

// Reset gives an empty file system and new standard streams.
func Reset() {
	table = nil
	plan = Plan{Fail: -1, Crash: -1}
	ops, writes, armed, dead, temps = 0, 0, false, false, 0
	home, tty = "/home/op", false
	mute, hear = false, false
	kinds = nil
	Args = []string{"krypto431"}
	Stdin = &File{name: "/dev/stdin", n: &inode{}, r: true}
	Stdout = &File{name: "/dev/stdout", n: &inode{}, w: true, std: 1}
	Stderr = &File{name: "/dev/stderr", n: &inode{}, w: true, std: 2}
}

// Arm starts counting operations under a plan; Disarm ends it.
func Arm(p Plan) { plan, ops, writes, armed, kinds, failed = p, 0, 0, true, nil, "" }
func Disarm()    { armed, dead = false, false }

// Ops returns how many operations were performed since Arm.
func Ops() int { return ops }

// Failed returns the first operation that failed since Arm, "" if none did.
func Failed() string { return failed }

// Kinds returns the operations performed since Arm.
func Kinds() []string { return kinds }

// Terminal makes standard input a terminal.
func Terminal(b bool)  { tty = b }
func IsTerminal() bool { return tty }

// Mute makes standard output fail.
func Mute(b bool) { mute = b }

// Home sets the home directory, "" for none.
func Home(dir string) { home = dir }

// Put stores a file, Get returns one, Mode its mode, Paths all file names.
func Put(path string, data []byte, mode FileMode) {
	table = append(without(path), entry{path: path, n: &inode{data: append([]byte(nil), data...), mode: mode}})
}

func Get(path string) ([]byte, bool) {
	if e := find(path); e != nil && e.n != nil {
		return append([]byte(nil), e.n.data...), true
	}
	return nil, false
}

func Mode(path string) FileMode {
	if e := find(path); e != nil && e.n != nil {
		return e.n.mode
	}
	return 0
}

func Paths() []string {
	var out []string
	for i := range table {
		out = append(out, table[i].path)
	}
	return out
}

// Link stores a symbolic link.
func Link(dest, path string) { table = append(without(path), entry{path: path, dest: dest}) }

// Type sets what standard input delivers.
func Type(text string) { Stdin.n.data = []byte(text); Stdin.pos = 0 }

// Printed returns what went to standard output.
func Printed() string { return string(Stdout.n.data) }

// Hear keeps what goes to standard error.
func Hear() { hear = true }

// Told returns what went to standard error.
func Told() string { return string(Stderr.n.data) }

// Process runs f as the process: it reports the exit code and whether it died.
func Process(f func()) (code int, died bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashed); ok {
				died = true
				return
			}
			if e, ok := r.(exited); ok {
				code = e.code
				return
			}
			panic(r)
		}
	}()
	f()
	return 0, false
}

func Exit(code int) { panic(exited{code}) }

func find(path string) *entry {
	for i := range table {
		if table[i].path == path {
			return &table[i]
		}
	}
	return nil
}

func without(path string) []entry {
	var out []entry
	for i := range table {
		if table[i].path != path {
			out = append(out, table[i])
		}
	}
	return out
}

// Resolve follows symbolic links.
func Resolve(path string) string {
	for i := 0; i < 8; i++ {
		e := find(path)
		if e == nil || e.dest == "" {
			return path
		}
		path = e.dest
	}
	return path
}

// op counts an operation: it says whether it fails and whether half of it is done.
func op(kind string, write, close bool) (fail, half bool) {
	if dead {
		return true, false
	}
	if !armed {
		return false, false
	}
	n := ops
	ops++
	kinds = append(kinds, kind)
	if n == plan.Crash {
		if write && plan.Half {
			return true, true
		}
		die()
	}
	if plan.NoSpace {
		if !write {
			return false, false
		}
		n = writes
		writes++
	}
	if plan.Fail >= 0 && (n == plan.Fail || n == plan.Also && n > plan.Fail || plan.Sticky && n > plan.Fail && !close) {
		if failed == "" {
			failed = kind
		}
		return true, write && plan.Short
	}
	return false, false
}

func die() {
	dead = true
	panic(crashed{})
}

func bad(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// A File is an open file.
type File struct {
	name   string
	n      *inode
	pos    int
	r, w   bool
	app    bool
	closed bool
	std    int
}

// Discards tells that nobody looks at what is written to standard error.
func (f *File) Discards() bool { return f.std == 2 && !hear }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.std) }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, bad("read", f.name, ErrClosed)
	}
	if !f.r {
		return 0, bad("read", f.name, syscall.EBADF)
	}
	if fail, _ := op("read", false, false); fail {
		return 0, bad("read", f.name, ErrIO)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) put(p []byte) {
	if f.app {
		f.pos = len(f.n.data)
	}
	d := f.n.data
	for len(d) < f.pos {
		d = append(d, 0)
	}
	k := len(d) - f.pos
	if k > len(p) {
		k = len(p)
	}
	for i := 0; i < k; i++ {
		d[f.pos+i] = p[i]
	}
	f.n.data = append(d, p[k:]...)
	f.pos += len(p)
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std == 1 && mute {
		return 0, bad("write", f.name, ErrIO)
	}
	if f.std != 0 {
		f.n.data = append(f.n.data, p...)
		return len(p), nil
	}
	if f.closed {
		return 0, bad("write", f.name, ErrClosed)
	}
	if !f.w {
		return 0, bad("write", f.name, syscall.EBADF)
	}
	fail, half := op("write", true, false)
	if half {
		f.put(p[:len(p)/2])
		if ops-1 == plan.Crash {
			die()
		}
		return len(p) / 2, bad("write", f.name, syscall.ENOSPC)
	}
	if fail {
		return 0, bad("write", f.name, syscall.ENOSPC)
	}
	f.put(p)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = int(offset)
	case 1:
		f.pos += int(offset)
	default:
		f.pos = len(f.n.data) + int(offset)
	}
	return int64(f.pos), nil
}

func (f *File) Truncate(size int64) error {
	if fail, _ := op("truncate", false, false); fail {
		return bad("truncate", f.name, ErrIO)
	}
	if int(size) <= len(f.n.data) {
		f.n.data = f.n.data[:size]
	}
	return nil
}

func (f *File) Sync() error {
	if f.closed {
		return bad("sync", f.name, ErrClosed)
	}
	if fail, _ := op("sync", false, false); fail {
		return bad("sync", f.name, ErrIO)
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if fail, _ := op("chmod", false, false); fail {
		return bad("chmod", f.name, ErrIO)
	}
	f.n.mode = mode
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if fail, _ := op("stat", false, false); fail {
		return nil, bad("stat", f.name, ErrIO)
	}
	return &info{base(f.name), f.n, false}, nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return bad("close", f.name, ErrClosed)
	}
	f.closed = true
	if fail, _ := op("close", false, true); fail {
		return bad("close", f.name, ErrIO)
	}
	return nil
}

type info struct {
	name string
	n    *inode
	link bool
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.n.data)) }
func (i *info) Mode() FileMode {
	if i.link {
		return ModeSymlink | 0o777
	}
	return i.n.mode
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.n.mode&ModeDir != 0 }
func (i *info) Sys() any           { return nil }

func Stat(path string) (FileInfo, error) {
	if fail, _ := op("stat", false, false); fail {
		return nil, bad("stat", path, ErrIO)
	}
	e := find(Resolve(path))
	if e == nil || e.n == nil {
		return nil, bad("stat", path, syscall.ENOENT)
	}
	return &info{base(path), e.n, false}, nil
}

func Lstat(path string) (FileInfo, error) {
	if fail, _ := op("lstat", false, false); fail {
		return nil, bad("lstat", path, ErrIO)
	}
	e := find(path)
	if e == nil {
		return nil, bad("lstat", path, syscall.ENOENT)
	}
	if e.n == nil {
		return &info{base(path), &inode{}, true}, nil
	}
	return &info{base(path), e.n, false}, nil
}

func Readlink(path string) (string, error) {
	e := find(path)
	if e == nil {
		return "", bad("readlink", path, syscall.ENOENT)
	}
	if e.dest == "" {
		return "", bad("readlink", path, syscall.EINVAL)
	}
	return e.dest, nil
}

func OpenFile(path string, flag int, perm FileMode) (*File, error) {
	if fail, _ := op("open", false, false); fail {
		return nil, bad("open", path, ErrIO)
	}
	p := Resolve(path)
	if strings.HasSuffix(p, "/") || p == "" {
		return nil, bad("open", path, syscall.ENOENT)
	}
	e := find(p)
	if e == nil {
		if flag&O_CREATE == 0 {
			return nil, bad("open", path, syscall.ENOENT)
		}
		table = append(table, entry{path: p, n: &inode{mode: perm & 0o7777 &^ 0o022}})
		e = find(p)
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, bad("open", path, syscall.EEXIST)
	}
	if e.n.mode&ModeDir != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, bad("open", path, syscall.EISDIR)
	}
	w := flag&(O_WRONLY|O_RDWR) != 0
	if w && flag&O_TRUNC != 0 {
		e.n.data = nil
	}
	return &File{name: path, n: e.n, r: flag&O_WRONLY == 0, w: w, app: flag&O_APPEND != 0}, nil
}

func Open(path string) (*File, error)   { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	temps++
	i := strings.LastIndex(pattern, "*")
	n := string(rune('0'+temps/10)) + string(rune('0'+temps%10))
	if i < 0 {
		pattern += n
	} else {
		pattern = pattern[:i] + n + pattern[i+1:]
	}
	if !strings.HasSuffix(dir, "/") {
		dir += "/"
	}
	if dir == "./" {
		dir = ""
	}
	return OpenFile(dir+pattern, O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func Rename(from, to string) error {
	if fail, _ := op("rename", false, false); fail {
		return &LinkError{"rename", from, to, ErrIO}
	}
	e := find(from)
	if e == nil {
		return &LinkError{"rename", from, to, syscall.ENOENT}
	}
	n, d := e.n, e.dest
	if from == to {
		return nil
	}
	table = without(to)
	table = without(from)
	table = append(table, entry{path: to, n: n, dest: d})
	return nil
}

func Remove(path string) error {
	if fail, _ := op("remove", false, true); fail {
		return bad("remove", path, ErrIO)
	}
	if find(path) == nil {
		return bad("remove", path, syscall.ENOENT)
	}
	table = without(path)
	return nil
}

func RemoveAll(path string) error {
	Remove(path)
	return nil
}

func Chmod(path string, mode FileMode) error {
	if fail, _ := op("chmod", false, false); fail {
		return bad("chmod", path, ErrIO)
	}
	e := find(Resolve(path))
	if e == nil || e.n == nil {
		return bad("chmod", path, syscall.ENOENT)
	}
	e.n.mode = mode
	return nil
}

func Truncate(path string, size int64) error {
	f, err := OpenFile(path, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(path string, data []byte, perm FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(path string, perm FileMode) error    { return nil }
func MkdirAll(path string, perm FileMode) error { return nil }
func MkdirTemp(dir, pattern string) (string, error) {
	temps++
	return "/tmp/dir" + string(rune('0'+temps)), nil
}

func UserHomeDir() (string, error) {
	if home == "" {
		return "", errors.New("$HOME is not defined")
	}
	return home, nil
}

func TempDir() string                     { return "/tmp" }
func Getwd() (string, error)              { return "/work", nil }
func Getenv(key string) string            { return "" }
func LookupEnv(key string) (string, bool) { return "", false }
func Setenv(key, value string) error      { return nil }
func Unsetenv(key string) error           { return nil }
func Environ() []string                   { return nil }
func Getpid() int                         { return 1 }
func Getuid() int                         { return 1000 }
func Geteuid() int                        { return 1000 }
func Hostname() (string, error)           { return "host", nil }
func IsNotExist(err error) bool           { return errors.Is(err, fs.ErrNotExist) }
func IsExist(err error) bool              { return errors.Is(err, fs.ErrExist) }
func IsPermission(err error) bool         { return errors.Is(err, fs.ErrPermission) }
func IsPathSeparator(c uint8) bool        { return c == '/' }
func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

// Clear forgets what was written.
func (f *File) Clear() { f.n.data = nil }
