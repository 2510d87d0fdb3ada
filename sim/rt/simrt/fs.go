package simrt

import (
	"encoding/json"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"
)

// FS is the simulated disk: files with successive contents, directories, a working
// directory, and edits another process makes at chosen instants.
type FS struct {
	Cwd     string
	CwdGone bool
	inodes  map[string]*Inode
	dirs    map[string]bool
	IO      int // number of I/O operations so far: the clock of Muts
	Muts    []Mut
	OpenH   int // handles open now
	MaxOpen int
	Handles []*Handle
	Fouls   []string // attempts to change the disk or the process
	Limit   int      // most handles open at once (EMFILE beyond); 0 = none
}

// Inode is the content of a file.
type Inode struct {
	Data []byte
	Ver  int
}

// Mut is an edit by another process: just before I/O operation number At, Path gets
// content Data (a new inode: handles opened before keep the old content, unless InPlace).
type Mut struct {
	At      int    `json:"at"`
	Path    string `json:"path"`
	Data    string `json:"data"`
	Delete  bool   `json:"delete,omitempty"`
	InPlace bool   `json:"inplace,omitempty"`
	Chdir   bool   `json:"chdir,omitempty"` // the process changes its working directory to Path
}

type mutJSON Mut

func (m Mut) MarshalJSON() ([]byte, error) {
	j := struct {
		mutJSON
		B []byte `json:"b,omitempty"`
	}{mutJSON: mutJSON(m)}
	if !utf8.ValidString(m.Data) {
		j.B, j.Data = []byte(m.Data), ""
	}
	return json.Marshal(j)
}

func (m *Mut) UnmarshalJSON(b []byte) error {
	var j struct {
		mutJSON
		B []byte `json:"b,omitempty"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*m = Mut(j.mutJSON)
	if j.B != nil {
		m.Data = string(j.B)
	}
	return nil
}

// Handle is an open file.
type Handle struct {
	Path   string
	ino    *Inode
	isDir  bool
	off    int64
	Closes int
	Reads  int
	Ver    int
	fs     *FS
}

// NewFS makes a disk.
func NewFS(files map[string]string, cwd string) *FS {
	fs := &FS{Cwd: cwd, inodes: map[string]*Inode{}, dirs: map[string]bool{"/": true}}
	for p, c := range files {
		fs.Put(p, c)
	}
	for d := cwd; d != "/" && d != "" && d != "."; d = dirOf(d) {
		fs.dirs[d] = true
	}
	return fs
}

func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

// Put writes a file (new inode).
func (fs *FS) Put(p, c string) {
	v := 0
	if o := fs.inodes[p]; o != nil {
		v = o.Ver + 1
	}
	fs.inodes[p] = &Inode{Data: []byte(c), Ver: v}
	for d := dirOf(p); ; d = dirOf(d) {
		fs.dirs[d] = true
		if d == "/" {
			break
		}
	}
}

// Delete removes a file.
func (fs *FS) Delete(p string) { delete(fs.inodes, p) }

// Read returns the current content.
func (fs *FS) Read(p string) (string, bool) {
	i := fs.inodes[p]
	if i == nil {
		return "", false
	}
	return string(i.Data), true
}

// Paths lists the files.
func (fs *FS) Paths() []string {
	var out []string
	for p := range fs.inodes {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// tick advances the clock of the disk and applies the edits that are due.
func (w *World) tick(op, path string) int {
	fs := w.FS
	n := fs.IO
	fs.IO++
	for _, m := range fs.Muts {
		if m.At == n {
			switch {
			case m.Chdir:
				fs.Cwd = m.Path
				w.Fire("chdir")
				w.Event("other: chdir %s", m.Path)
			case m.Delete:
				fs.Delete(m.Path)
				w.Fire("file-deleted")
				w.Event("other: delete %s", m.Path)
			case m.InPlace:
				if i := fs.inodes[m.Path]; i != nil {
					i.Data = []byte(m.Data)
					i.Ver++
					w.Fire("file-overwritten-in-place")
					w.Event("other: overwrite %s len=%d", m.Path, len(m.Data))
				}
			default:
				fs.Put(m.Path, m.Data)
				w.Fire("file-replaced")
				w.Event("other: replace %s len=%d", m.Path, len(m.Data))
			}
		}
	}
	w.Now += 1000
	return n
}

func (w *World) note(op, path string, n int, eof bool) {
	w.IOOps = append(w.IOOps, IOOp{op, path, n, eof, w.FS.IO - 1})
}

// What the operations fail with.
var (
	openErrs = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENFILE, syscall.ELOOP,
		syscall.EPERM, syscall.ENOMEM, syscall.ETIMEDOUT, syscall.ESTALE, syscall.ENAMETOOLONG}
	readErrs = []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.ENOMEM, syscall.ETIMEDOUT, syscall.EINVAL,
		syscall.EAGAIN, syscall.ENXIO, syscall.EACCES, syscall.ENODATA}
	seekErrs  = []syscall.Errno{syscall.EIO, syscall.ESPIPE, syscall.EINVAL}
	closeErrs = []syscall.Errno{syscall.EIO, syscall.EINTR, syscall.ENOSPC, syscall.EDQUOT, syscall.ESTALE}
	wdErrs    = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.ENOMEM}
)

// IOValues are the numbers of ways in which operations fail.
var IOValues = map[string]int{"open": len(openErrs), "stat": len(openErrs), "read": len(readErrs), "seek": len(seekErrs),
	"getwd": len(wdErrs), "list": 1, "close": len(closeErrs)}

// clean is a lexical normalisation that also resolves "..": the simulated disk has no links.
func clean(p string) string {
	parts := strings.Split(p, "/")
	var out []string
	for _, s := range parts {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func (w *World) abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = w.FS.Cwd + "/" + name
	}
	return clean(name)
}

// Getwd is os.Getwd.
func (w *World) Getwd() (string, syscall.Errno) {
	w.tick("getwd", "")
	e := w.Choose("io", 1+len(wdErrs))
	w.note("getwd", "", 0, false)
	if e == 0 && w.FS.CwdGone {
		e = 1
	}
	if e != 0 {
		w.Fire("getwd-" + wdErrs[e-1].Error())
		w.Event("getwd: fault %d", int(wdErrs[e-1]))
		return "", wdErrs[e-1]
	}
	w.Event("getwd: %s", w.FS.Cwd)
	return w.FS.Cwd, 0
}

// OpenFile is os.OpenFile for reading.
func (w *World) OpenFile(name string) (*Handle, syscall.Errno) {
	fs := w.FS
	p := w.abs(name)
	w.tick("open", p)
	e := w.Choose("io", 1+len(openErrs))
	w.note("open", p, 0, false)
	if e != 0 {
		w.Fire("open-" + openErrs[e-1].Error())
		w.Event("open %s: fault %v", p, int(openErrs[e-1]))
		return nil, openErrs[e-1]
	}
	if fs.Limit > 0 && fs.OpenH >= fs.Limit {
		w.Fire("open-limit")
		w.Event("open %s: EMFILE", p)
		return nil, syscall.EMFILE
	}
	ino := fs.inodes[p]
	if ino == nil && !fs.dirs[p] {
		for d := dirOf(p); d != "/"; d = dirOf(d) {
			if fs.inodes[d] != nil {
				w.Event("open %s: ENOTDIR", p)
				return nil, syscall.ENOTDIR
			}
		}
		w.Event("open %s: ENOENT", p)
		return nil, syscall.ENOENT
	}
	h := &Handle{Path: p, ino: ino, isDir: ino == nil, fs: fs}
	if ino != nil {
		h.Ver = ino.Ver
	}
	fs.OpenH++
	if fs.OpenH > fs.MaxOpen {
		fs.MaxOpen = fs.OpenH
	}
	fs.Handles = append(fs.Handles, h)
	w.Event("open %s: ok v%d", p, h.Ver)
	return h, 0
}

// Read is File.Read: n bytes, end of file, or an error (never both bytes and an error,
// as with os.File).
func (w *World) Read(h *Handle, b []byte) (int, bool, syscall.Errno) {
	w.tick("read", h.Path)
	if h.Closes > 0 {
		w.Event("read %s: closed", h.Path)
		return 0, false, syscall.EBADF
	}
	e := w.Choose("io", 1+len(readErrs))
	if e != 0 {
		en := readErrs[e-1]
		w.note("read", h.Path, 0, false)
		w.Fire("read-" + en.Error())
		w.Event("read %s: fault %d", h.Path, int(en))
		return 0, false, en
	}
	if h.isDir {
		w.note("read", h.Path, 0, false)
		w.Event("read %s: EISDIR", h.Path)
		return 0, false, syscall.EISDIR
	}
	if len(b) == 0 {
		return 0, false, 0
	}
	h.Reads++
	data := h.ino.Data
	if h.off >= int64(len(data)) {
		w.note("read", h.Path, 0, true)
		w.Event("read %s: EOF", h.Path)
		return 0, true, 0
	}
	n := len(data) - int(h.off)
	if n > len(b) {
		n = len(b)
	}
	if c := w.Choose("chunk", 0); c != 0 && n > 1 {
		m := n
		switch c % 4 {
		case 0:
			m = 1
		case 1:
			m = 1 + (c/4)%7
		case 2:
			m = 1 + (c/4)%n
		case 3:
			// up to and including (or just before) the first line break
			for i := 0; i < n; i++ {
				if data[int(h.off)+i] == '\n' {
					m = i + (c/4)%2
					break
				}
			}
		}
		if m < 1 {
			m = 1
		}
		if m < n {
			n = m
			w.Fire("short-read")
		}
	}
	copy(b, data[h.off:int(h.off)+n])
	h.off += int64(n)
	w.note("read", h.Path, n, false)
	w.Event("read %s: %d", h.Path, n)
	return n, false, 0
}

// Seek is File.Seek.
func (w *World) Seek(h *Handle, off int64, whence int) (int64, syscall.Errno) {
	w.tick("seek", h.Path)
	if h.Closes > 0 {
		return 0, syscall.EBADF
	}
	e := w.Choose("io", 1+len(seekErrs))
	w.note("seek", h.Path, 0, false)
	if e != 0 {
		w.Fire("seek-" + seekErrs[e-1].Error())
		w.Event("seek %s: fault %d", h.Path, int(seekErrs[e-1]))
		return 0, seekErrs[e-1]
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		if h.ino != nil {
			off += int64(len(h.ino.Data))
		}
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.off = off
	w.Event("seek %s: %d", h.Path, off)
	return off, 0
}

// Close is File.Close: the handle is released even if an error is reported.
func (w *World) Close(h *Handle) syscall.Errno {
	w.tick("close", h.Path)
	h.Closes++
	if h.Closes > 1 {
		w.Event("close %s: again", h.Path)
		return syscall.EBADF
	}
	h.fs.OpenH--
	e := w.Choose("close", 1+len(closeErrs))
	if e != 0 {
		w.Fire("close-" + closeErrs[e-1].Error())
		w.Event("close %s: fault %d", h.Path, int(closeErrs[e-1]))
		return closeErrs[e-1]
	}
	w.Event("close %s: ok", h.Path)
	return 0
}

// Stat is os.Stat.
func (w *World) Stat(name string) (size int64, isDir bool, en syscall.Errno) {
	p := w.abs(name)
	w.tick("stat", p)
	e := w.Choose("io", 1+len(openErrs))
	w.note("stat", p, 0, false)
	if e != 0 {
		w.Fire("stat-" + openErrs[e-1].Error())
		w.Event("stat %s: fault %d", p, int(openErrs[e-1]))
		return 0, false, openErrs[e-1]
	}
	if i := w.FS.inodes[p]; i != nil {
		return int64(len(i.Data)), false, 0
	}
	if w.FS.dirs[p] {
		return 0, true, 0
	}
	return 0, false, syscall.ENOENT
}

// Foul records an attempt to change the disk or the process.
func (w *World) Foul(op, name string) {
	if len(w.FS.Fouls) < 100 {
		w.FS.Fouls = append(w.FS.Fouls, op+" "+name)
	}
	w.Event("%s %s: refused", op, name)
}

// List lists the names in a directory.
func (w *World) List(name string) ([]string, syscall.Errno) {
	p := w.abs(name)
	w.tick("list", p)
	e := w.Choose("io", 2)
	w.note("list", p, 0, false)
	if e != 0 {
		w.Fire("list-error")
		w.Event("list %s: fault", p)
		return nil, syscall.EIO
	}
	if !w.FS.dirs[p] {
		return nil, syscall.ENOENT
	}
	set := map[string]bool{}
	pre := p
	if pre != "/" {
		pre += "/"
	}
	for f := range w.FS.inodes {
		if strings.HasPrefix(f, pre) {
			r := f[len(pre):]
			if i := strings.IndexByte(r, '/'); i >= 0 {
				r = r[:i]
			}
			set[r] = true
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out, 0
}

// Fork is a view of the same files with a clock, edits and handles of its own: the disk
// of one task. The contents are shared and not changed while tasks run.
func (fs *FS) Fork() *FS {
	return &FS{Cwd: fs.Cwd, CwdGone: fs.CwdGone, inodes: fs.inodes, dirs: fs.dirs, Limit: fs.Limit}
}
