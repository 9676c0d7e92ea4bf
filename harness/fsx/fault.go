// Package fsx holds the file systems the checks run the code under test on: a
// vroot.Fs over *os.Root whose every call passes a hook (fault injection, crash
// points, recording), plus tree snapshots and generators.
package fsx

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// ErrInjected is the root of every error the harness injects.
var (
	ErrInjected = errors.New("injected fault")
	ErrCrash    = fmt.Errorf("%w: crashed", ErrInjected)
)

// Op is one call as the file system sees it.
type Op struct {
	Kind   string // method name; file methods are "File.Write" and so on
	Path   string
	Path2  string
	Flag   int
	N      int  // bytes for reads and writes
	Mutate bool // the call can change what is stored
}

func (o Op) String() string {
	s := o.Kind + "(" + o.Path
	if o.Path2 != "" {
		s += "," + o.Path2
	}
	if o.Kind == "OpenFile" {
		s += fmt.Sprintf(",%#x", o.Flag)
	}
	if o.N > 0 {
		s += fmt.Sprintf(",n=%d", o.N)
	}
	return s + ")"
}

// Verdict is what a hook decides about a call. A non-nil Err fails it before it
// has an effect, except that a write first writes Partial bytes, and that After
// fails it once it has had its effect, and that a listing still gives the first
// Partial entries by name.
type Verdict struct {
	Err     error
	Partial int
	After   bool
}

// FS is a vroot.Fs[vroot.File] over a directory.
type FS struct {
	root *os.Root
	name string

	mu   sync.Mutex
	hook func(Op) Verdict
	// stepwise makes RemoveAll and MkdirAll a sequence of single mutations.
	Stepwise bool
	open     int
	handles  map[*File]string
}

var _ vroot.Fs[vroot.File] = (*FS)(nil)

// New opens dir.
func New(dir string) (*FS, error) {
	r, err := os.OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return &FS{root: r, name: dir, handles: map[*File]string{}}, nil
}

// OpenRoot opens a sub-root, without hook.
func (f *FS) OpenRoot(name string) (*FS, error) {
	r, err := f.root.OpenRoot(name)
	if err != nil {
		return nil, err
	}
	return &FS{root: r, name: name, handles: map[*File]string{}}, nil
}

// SetHook replaces the hook; nil lets everything through.
func (f *FS) SetHook(h func(Op) Verdict) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.hook = h
}

// OpenHandles lists the handles that were opened and not closed.
func (f *FS) OpenHandles() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var out []string
	for _, v := range f.handles {
		out = append(out, v)
	}
	return out
}

func (f *FS) ask(o Op) Verdict {
	f.mu.Lock()
	h := f.hook
	f.mu.Unlock()
	if h == nil {
		return Verdict{}
	}
	return h(o)
}

func (f *FS) do(o Op, run func() error) error {
	v := f.ask(o)
	if v.Err != nil && !v.After {
		return perr(o, v.Err)
	}
	err := run()
	if v.Err != nil {
		return perr(o, v.Err)
	}
	return err
}

func perr(o Op, err error) error {
	if o.Path2 != "" {
		return &os.LinkError{Op: strings.ToLower(o.Kind), Old: o.Path, New: o.Path2, Err: err}
	}
	return &fs.PathError{Op: strings.ToLower(o.Kind), Path: o.Path, Err: err}
}

func (f *FS) Chmod(name string, mode fs.FileMode) error {
	return f.do(Op{Kind: "Chmod", Path: name, Mutate: true}, func() error { return f.root.Chmod(name, mode) })
}

func (f *FS) Chown(name string, uid, gid int) error {
	return f.do(Op{Kind: "Chown", Path: name, Mutate: true}, func() error { return f.root.Chown(name, uid, gid) })
}

func (f *FS) Chtimes(name string, a, m time.Time) error {
	return f.do(Op{Kind: "Chtimes", Path: name, Mutate: true}, func() error { return f.root.Chtimes(name, a, m) })
}

func (f *FS) Close() error { return f.root.Close() }

func (f *FS) Create(name string) (vroot.File, error) {
	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (f *FS) Lchown(name string, uid, gid int) error {
	return f.do(Op{Kind: "Lchown", Path: name, Mutate: true}, func() error { return f.root.Lchown(name, uid, gid) })
}

func (f *FS) Link(o, n string) error {
	return f.do(Op{Kind: "Link", Path: o, Path2: n, Mutate: true}, func() error { return f.root.Link(o, n) })
}

func (f *FS) Lstat(name string) (fi fs.FileInfo, err error) {
	err = f.do(Op{Kind: "Lstat", Path: name}, func() (err error) { fi, err = f.root.Lstat(name); return })
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (f *FS) Mkdir(name string, perm fs.FileMode) error {
	return f.do(Op{Kind: "Mkdir", Path: name, Mutate: true}, func() error { return f.root.Mkdir(name, perm) })
}

func (f *FS) MkdirAll(name string, perm fs.FileMode) error {
	if !f.Stepwise {
		return f.do(Op{Kind: "MkdirAll", Path: name, Mutate: true}, func() error { return f.root.MkdirAll(name, perm) })
	}
	var cur string
	for _, c := range strings.Split(path.Clean(name), "/") {
		cur = path.Join(cur, c)
		if cur == "." {
			continue
		}
		if err := f.Mkdir(cur, perm); err != nil {
			if errors.Is(err, ErrInjected) {
				return err
			}
			if fi, serr := f.root.Stat(cur); serr == nil && fi.IsDir() {
				continue
			}
			return err
		}
	}
	return nil
}

func (f *FS) Name() string { return f.name }

func (f *FS) Open(name string) (vroot.File, error) { return f.OpenFile(name, os.O_RDONLY, 0) }

func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	var file *os.File
	o := Op{Kind: "OpenFile", Path: name, Flag: flag, Mutate: flag&(os.O_CREATE|os.O_TRUNC) != 0}
	err := f.do(o, func() (err error) { file, err = f.root.OpenFile(name, flag, perm); return })
	if err != nil {
		if file != nil {
			_ = file.Close()
		}
		return nil, err
	}
	h := &File{f: file, fs: f, name: name}
	f.mu.Lock()
	f.handles[h] = o.String()
	f.mu.Unlock()
	return h, nil
}

func (f *FS) ReadLink(name string) (t string, err error) {
	err = f.do(Op{Kind: "ReadLink", Path: name}, func() (err error) { t, err = f.root.Readlink(name); return })
	if err != nil {
		return "", err
	}
	return t, nil
}

func (f *FS) Remove(name string) error {
	return f.do(Op{Kind: "Remove", Path: name, Mutate: true}, func() error { return f.root.Remove(name) })
}

func (f *FS) RemoveAll(name string) error {
	if !f.Stepwise {
		return f.do(Op{Kind: "RemoveAll", Path: name, Mutate: true}, func() error { return f.root.RemoveAll(name) })
	}
	fi, err := f.root.Lstat(name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		d, err := f.root.Open(name)
		if err != nil {
			return err
		}
		names, err := d.Readdirnames(-1)
		_ = d.Close()
		if err != nil {
			return err
		}
		for _, n := range names {
			if err := f.RemoveAll(path.Join(name, n)); err != nil {
				return err
			}
		}
	}
	return f.Remove(name)
}

func (f *FS) Rename(o, n string) error {
	return f.do(Op{Kind: "Rename", Path: o, Path2: n, Mutate: true}, func() error { return f.root.Rename(o, n) })
}

func (f *FS) Stat(name string) (fi fs.FileInfo, err error) {
	err = f.do(Op{Kind: "Stat", Path: name}, func() (err error) { fi, err = f.root.Stat(name); return })
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (f *FS) Symlink(o, n string) error {
	return f.do(Op{Kind: "Symlink", Path: o, Path2: n, Mutate: true}, func() error { return f.root.Symlink(o, n) })
}

// File is a handle of FS.
type File struct {
	f    *os.File
	fs   *FS
	name string
}

func (h *File) op(kind string, n int, mutate bool) Op {
	return Op{Kind: "File." + kind, Path: h.name, N: n, Mutate: mutate}
}

func (h *File) Chmod(mode fs.FileMode) error {
	return h.fs.do(h.op("Chmod", 0, true), func() error { return h.f.Chmod(mode) })
}

func (h *File) Chown(uid, gid int) error {
	return h.fs.do(h.op("Chown", 0, true), func() error { return h.f.Chown(uid, gid) })
}

// Close always releases the handle, also when told to fail.
func (h *File) Close() error {
	h.fs.mu.Lock()
	delete(h.fs.handles, h)
	h.fs.mu.Unlock()
	o := h.op("Close", 0, false)
	v := h.fs.ask(o)
	err := h.f.Close()
	if v.Err != nil {
		return perr(o, v.Err)
	}
	return err
}

func (h *File) Fd() uintptr  { return h.f.Fd() }
func (h *File) Name() string { return h.f.Name() }

func (h *File) Read(b []byte) (n int, err error) {
	err = h.fs.do(h.op("Read", len(b), false), func() (err error) { n, err = h.f.Read(b); return })
	return n, unwrapEOF(err)
}

func (h *File) ReadAt(b []byte, off int64) (n int, err error) {
	err = h.fs.do(h.op("ReadAt", len(b), false), func() (err error) { n, err = h.f.ReadAt(b, off); return })
	return n, unwrapEOF(err)
}

func unwrapEOF(err error) error {
	if err == io.EOF {
		return io.EOF
	}
	return err
}

func (h *File) ReadDir(n int) (out []fs.DirEntry, err error) {
	o := h.op("ReadDir", 0, false)
	v := h.fs.ask(o)
	if v.Err == nil {
		return h.f.ReadDir(n)
	}
	if v.Partial > 0 {
		out, _ = h.f.ReadDir(-1)
		slices.SortFunc(out, func(a, b fs.DirEntry) int { return strings.Compare(a.Name(), b.Name()) })
		out = out[:min(v.Partial, len(out))]
	}
	return out, perr(o, v.Err)
}

func (h *File) Readdir(n int) (out []fs.FileInfo, err error) {
	err = h.fs.do(h.op("Readdir", 0, false), func() (err error) { out, err = h.f.Readdir(n); return })
	return out, err
}

func (h *File) Readdirnames(n int) (out []string, err error) {
	err = h.fs.do(h.op("Readdirnames", 0, false), func() (err error) { out, err = h.f.Readdirnames(n); return })
	return out, err
}

func (h *File) Seek(off int64, whence int) (n int64, err error) {
	err = h.fs.do(h.op("Seek", 0, false), func() (err error) { n, err = h.f.Seek(off, whence); return })
	return n, err
}

func (h *File) Stat() (fi fs.FileInfo, err error) {
	err = h.fs.do(h.op("Stat", 0, false), func() (err error) { fi, err = h.f.Stat(); return })
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (h *File) Sync() error {
	return h.fs.do(h.op("Sync", 0, false), func() error { return h.f.Sync() })
}

func (h *File) Truncate(size int64) error {
	return h.fs.do(h.op("Truncate", 0, true), func() error { return h.f.Truncate(size) })
}

func (h *File) Write(b []byte) (int, error) {
	o := h.op("Write", len(b), true)
	v := h.fs.ask(o)
	if v.Err != nil && !v.After {
		n := 0
		if v.Partial > 0 {
			n, _ = h.f.Write(b[:min(v.Partial, len(b))])
		}
		return n, perr(o, v.Err)
	}
	n, err := h.f.Write(b)
	if v.Err != nil {
		return n, perr(o, v.Err)
	}
	return n, err
}

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	o := h.op("WriteAt", len(b), true)
	v := h.fs.ask(o)
	if v.Err != nil && !v.After {
		n := 0
		if v.Partial > 0 {
			n, _ = h.f.WriteAt(b[:min(v.Partial, len(b))], off)
		}
		return n, perr(o, v.Err)
	}
	return h.f.WriteAt(b, off)
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
