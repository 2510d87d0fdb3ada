// Package simos is the simulated os package: every file operation goes to the disk of
// the running task's World; everything that touches no file is the real os package.
package simos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"syscall"
	"time"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// File is os.File.
type File struct {
	h    *simrt.Handle
	name string
	std  int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

// Capture adds to what the code wrote.
func Capture(s string) {
	if len(Captured) < 64<<20 {
		Captured = append(Captured, s...)
	}
}

// Captured is what the code wrote to its standard streams.
var Captured []byte

// foul records an attempt to change something outside the model.
func foul(op, name string) {
	if w := simrt.Cur(); w != nil {
		w.Foul(op, name)
	}
}

// Real tells that file operations outside a run reach the real disk (they do not).
func noWorld(op string) error { return &fs.PathError{Op: op, Path: "", Err: syscall.ENOSYS} }

func Getwd() (string, error) {
	w := simrt.Cur()
	if w == nil {
		return "", noWorld("getwd")
	}
	d, e := w.Getwd()
	if e != 0 {
		return "", os.NewSyscallError("getwd", e)
	}
	return d, nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := simrt.Cur()
	if w == nil {
		return nil, noWorld("open")
	}
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		foul("write", name)
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	h, e := w.OpenFile(name)
	if e != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: e}
	}
	return &File{h: h, name: name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, _ []byte, _ os.FileMode) error {
	foul("writefile", name)
	return &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
}
func Remove(name string) error {
	foul("remove", name)
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.EROFS}
}
func RemoveAll(name string) error {
	foul("removeall", name)
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.EROFS}
}
func Rename(a, _ string) error {
	foul("rename", a)
	return &fs.PathError{Op: "rename", Path: a, Err: syscall.EROFS}
}
func Truncate(a string, _ int64) error {
	foul("truncate", a)
	return &fs.PathError{Op: "truncate", Path: a, Err: syscall.EROFS}
}
func Mkdir(a string, _ os.FileMode) error {
	foul("mkdir", a)
	return &fs.PathError{Op: "mkdir", Path: a, Err: syscall.EROFS}
}
func MkdirAll(a string, _ os.FileMode) error {
	foul("mkdirall", a)
	return &fs.PathError{Op: "mkdir", Path: a, Err: syscall.EROFS}
}
func Chmod(a string, _ os.FileMode) error {
	foul("chmod", a)
	return &fs.PathError{Op: "chmod", Path: a, Err: syscall.EROFS}
}
func Chdir(a string) error {
	foul("chdir", a)
	return &fs.PathError{Op: "chdir", Path: a, Err: syscall.EROFS}
}
func MkdirTemp(a, _ string) (string, error) {
	foul("mkdirtemp", a)
	return "", &fs.PathError{Op: "mkdirtemp", Path: a, Err: syscall.EROFS}
}
func CreateTemp(a, _ string) (*File, error) {
	foul("createtemp", a)
	return nil, &fs.PathError{Op: "createtemp", Path: a, Err: syscall.EROFS}
}
func Symlink(a, _ string) error {
	foul("symlink", a)
	return &fs.PathError{Op: "symlink", Path: a, Err: syscall.EROFS}
}
func Link(a, _ string) error {
	foul("link", a)
	return &fs.PathError{Op: "link", Path: a, Err: syscall.EROFS}
}
func Readlink(a string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: a, Err: syscall.EINVAL}
}

// The environment belongs to the process.
func Setenv(k, _ string) error { foul("setenv", k); return nil }
func Unsetenv(k string) error  { foul("unsetenv", k); return nil }
func Clearenv()                { foul("clearenv", "") }

func Pipe() (r *File, w *File, err error)  { return nil, nil, syscall.ENOSYS }
func NewFile(_ uintptr, name string) *File { return &File{name: name, std: 9} }
func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.path == y.path
}

type info struct {
	path string
	size int64
	dir  bool
}

func (i info) Name() string { return path.Base(i.path) }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	w := simrt.Cur()
	if w == nil {
		return nil, noWorld("stat")
	}
	n, d, e := w.Stat(name)
	if e != 0 {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: e}
	}
	return info{name, n, d}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]os.DirEntry, error) {
	w := simrt.Cur()
	if w == nil {
		return nil, noWorld("open")
	}
	names, e := w.List(name)
	if e != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: e}
	}
	var out []os.DirEntry
	for _, n := range names {
		fi, err := Stat(path.Join(name, n))
		if err != nil {
			return nil, err
		}
		out = append(out, fs.FileInfoToDirEntry(fi))
	}
	return out, nil
}

// Exit is os.Exit: in a run it ends the task, recorded as the end of the process.
func Exit(code int) {
	if simrt.On() {
		panic(simrt.ExitCalled{Code: code})
	}
	os.Exit(code)
}

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	return &fs.PathError{Op: op, Path: f.name, Err: syscall.EBADF}
}

func (f *File) Name() string { return f.name }

func (f *File) Read(b []byte) (int, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("read")
	}
	n, eof, e := simrt.Cur().Read(f.h, b)
	if e == syscall.EBADF {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if e != 0 {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: e}
	}
	if eof {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("read")
	}
	old, e := simrt.Cur().Seek(f.h, 0, 1)
	if e != 0 {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: e}
	}
	defer simrt.Cur().Seek(f.h, old, 0)
	if _, e = simrt.Cur().Seek(f.h, off, 0); e != 0 {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: e}
	}
	return io.ReadFull(f, b)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && (f.std == 2 || f.std == 3) {
		if len(Captured) < 64<<20 {
			Captured = append(Captured, b...)
		}
		return len(b), nil
	}
	return 0, f.bad("write")
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("seek")
	}
	n, e := simrt.Cur().Seek(f.h, off, whence)
	if e == syscall.EBADF {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: os.ErrClosed}
	}
	if e != 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: e}
	}
	return n, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h == nil {
		return nil
	}
	e := simrt.Cur().Close(f.h)
	if e == syscall.EBADF {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	if e != 0 {
		return &fs.PathError{Op: "close", Path: f.name, Err: e}
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if f == nil || f.h == nil {
		return nil, f.bad("stat")
	}
	return Stat(f.h.Path)
}
func (f *File) Sync() error { return nil }
func (f *File) Fd() uintptr { return 3 }
