package vroott

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"syscall"
	"testing"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/vt"
)

// shaky is a view that fails at one of the calls made to it.
type shaky struct {
	synthfs.FileView
	calls, failAt int
	failed        string
	handles       int
	closed        int
}

func (s *shaky) call(what string) error {
	s.calls++
	if s.calls == s.failAt {
		s.failed = what
		return errView
	}
	return nil
}

func (s *shaky) Open(flag int) (vroot.File, error) {
	if err := s.call("open"); err != nil {
		return nil, err
	}
	f, err := s.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	s.handles++
	return &shakyFile{File: f, s: s}, nil
}

func (s *shaky) Stat() (fs.FileInfo, error) {
	if err := s.call("stat"); err != nil {
		return nil, err
	}
	return s.FileView.Stat()
}

func (s *shaky) Close() error {
	s.closed++
	return s.FileView.Close()
}

type shakyFile struct {
	vroot.File
	s      *shaky
	closed bool
}

func (f *shakyFile) Stat() (fs.FileInfo, error) {
	if err := f.s.call("h.stat"); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *shakyFile) ReadAt(p []byte, off int64) (int, error) {
	if err := f.s.call("h.readat"); err != nil {
		return 0, err
	}
	return f.File.ReadAt(p, off)
}

func (f *shakyFile) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.s.handles--
	return f.File.Close()
}

// A range of a view shows those bytes or the view's error, and leaves none of
// the view's handles open; what is no file makes no view.
func TestC25_Views(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "a range of a view that fails at a generated call, made, put in a tree, opened, looked at, read and removed; views of entries of all kinds of an fs.FS; non-trivial: the failing call was met", func(rt *rapid.T, c *vt.Case) {
		size := vt.Of(rt, "size", 1, 10, 300, 5000)
		all := make([]byte, size)
		for i := range all {
			all[i] = byte(i*7 + i>>8)
		}
		mt := fsmodel.Stamp(7)
		var under synthfs.FileView = synthfs.NewBytesView(all, 0o640, mt)
		if vt.Chance(rt, 2, "that is written") {
			var err error
			if under, err = synthfs.NewMemAllocator(nil).Allocate("u", 0o640); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			w, err := under.Open(os.O_RDWR)
			if err == nil {
				_, err = w.Write(all)
			}
			if err != nil || w.Close() != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			fi, err := under.Stat()
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			mt = fi.ModTime()
		}
		s := &shaky{FileView: under, failAt: vt.Pick(rt, 12, "fail at")}
		off := int64(vt.Of(rt, "off", 0, 0, 0, 1%size, size/2, size/2, size/3, size-1, -1, -1<<63))
		n := int64(vt.Of(rt, "n", size, size, size, 1, size/2, size/3, size/2, 0, -1, -1<<63))
		if off >= 0 && n > int64(size)-off {
			n = int64(size) - off
		}
		c.Log("range %d+%d of %d, failing at %d", off, n, size, s.failAt)
		met := func(what string, err error, as string) bool { // what came of a call
			c.Log("%s: %v", what, err)
			if s.failed == "" {
				if err != nil {
					rt.Fatalf("%s: %v", what, err)
				}
				return true
			}
			c.NonTrivial()
			if s.failed == as {
				s.failed = "" // and once told it is over
				if !errors.Is(err, errView) {
					rt.Fatalf("%s: %v, the view failed", what, err)
				}
				return false
			}
			s.failed = ""
			if err != nil && !errors.Is(err, errView) {
				rt.Fatalf("%s: %v", what, err)
			}
			return err == nil
		}
		v, err := synthfs.NewRangedView(s, off, n)
		if off < 0 || n <= 0 {
			if err == nil {
				rt.Fatalf("a range %d+%d is made", off, n)
			}
			if s.handles != 0 {
				rt.Fatalf("%d handles are left", s.handles)
			}
			return
		}
		ok := met("NewRangedView", err, "open")
		if s.handles != 0 {
			rt.Fatalf("NewRangedView leaves %d handles", s.handles)
		}
		if !ok {
			return
		}
		want := all[off : off+n]
		root := synthfs.NewRoot("r", nil)
		if !met("AddFile", root.AddFile("f", v, nil), "stat") {
			if _, err := root.Lstat("f"); !errors.Is(err, fs.ErrNotExist) {
				rt.Fatalf("a view that was not added is there: %v", err)
			}
			return
		}
		for range vt.Int(rt, 1, 3, "opens") {
			if flag := vt.Of(rt, "flag", 0, os.O_WRONLY, os.O_RDWR, os.O_WRONLY|os.O_TRUNC); flag != 0 {
				f, err := root.OpenFile("f", flag, 0)
				if err == nil || f != nil || !errors.Is(err, errdef.EROFS) && s.failed == "" {
					rt.Fatalf("a view that is only read opened with %#x: %v, %v", flag, f, err)
				}
				s.failed = ""
				if s.handles != 0 {
					rt.Fatalf("refused to open, it leaves %d handles", s.handles)
				}
				continue
			}
			before := s.calls
			f, err := root.Open("f")
			if !met("open", err, "open") {
				if f != nil || s.handles != 0 {
					rt.Fatalf("failed to open after %d calls, it gives %v and leaves %d handles", s.calls-before, f, s.handles)
				}
				continue
			}
			fi, err := f.Stat()
			if met("stat of the handle", err, "h.stat") && (fi.Size() != n || fi.Mode() != 0o640 || !fi.ModTime().Equal(mt)) {
				rt.Fatalf("stat of the handle: %d bytes, %v, %v", fi.Size(), fi.Mode(), fi.ModTime())
			}
			for range 3 {
				at := vt.Pick(rt, int(n)+2, "at")
				p := make([]byte, vt.Of(rt, "len", 1, 10, 6000))
				k := max(min(len(p), int(n)-at), 0)
				got, err := f.ReadAt(p, int64(at))
				if s.failed == "" && err == io.EOF && k < len(p) {
					err = nil
				} else if s.failed == "" && err == nil && k < len(p) {
					rt.Fatalf("ReadAt: %d of %d without an error", got, len(p))
				}
				if met("readat", err, "h.readat") && (got != k || !bytes.Equal(p[:got], want[min(at, int(n)):][:k])) {
					rt.Fatalf("ReadAt(%d, %d): %d bytes, want %d", len(p), at, got, k)
				}
				if got > k {
					rt.Fatalf("ReadAt gives %d of %d", got, k)
				}
			}
			if b, err := io.ReadAll(f); met("read", err, "h.readat") && !bytes.Equal(b, want) {
				rt.Fatalf("read: %d bytes, want %d", len(b), n)
			}
			if err := f.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
			if s.handles != 0 {
				rt.Fatalf("closed, %d handles are left", s.handles)
			}
		}
		if f, err := v.Open(os.O_RDWR); err == nil || f != nil {
			rt.Fatalf("a range is opened to write: %v", f)
		}
		s.failed = ""
		if f, err := v.Open(os.O_RDONLY); met("open of the view", err, "open") {
			fi, err := f.Stat()
			if met("stat of its handle", err, "h.stat") && (fi.Size() != n || fi.Mode() != 0o640 || !fi.ModTime().Equal(mt)) {
				rt.Fatalf("stat of its handle: %d bytes, %v, %v", fi.Size(), fi.Mode(), fi.ModTime())
			}
			for what, do := range map[string]func() (int, error){
				"write":       func() (int, error) { return f.Write([]byte("x")) },
				"writeat":     func() (int, error) { return f.WriteAt([]byte("x"), 0) },
				"writestring": func() (int, error) { return f.WriteString("x") },
				"truncate":    func() (int, error) { return 0, f.Truncate(0) },
			} {
				if k, err := do(); k != 0 || !errors.Is(err, errdef.EROFS) {
					rt.Fatalf("%s to a range: %d, %v", what, k, err)
				}
			}
			if err := f.Close(); err != nil || s.handles != 0 {
				rt.Fatalf("close of the view's handle: %v; %d are left", err, s.handles)
			}
		} else if f != nil || s.handles != 0 {
			rt.Fatalf("failed to open, the view gives %v and leaves %d handles", f, s.handles)
		}
		fi, err := root.Stat("f")
		if met("stat", err, "stat") && (fi.Size() != n || fi.Mode() != 0o640 || !fi.ModTime().Equal(mt)) {
			rt.Fatalf("stat: %d bytes, %v, %v", fi.Size(), fi.Mode(), fi.ModTime())
		}
		if err := root.Remove("f"); err != nil || s.closed != 1 {
			rt.Fatalf("remove: %v; the view is closed %d times", err, s.closed)
		}

		// of an fs.FS
		kind := vt.Of(rt, "kind", fs.FileMode(0), fs.ModeDir, fs.ModeNamedPipe, fs.ModeDevice, fs.ModeSocket, fs.ModeDevice|fs.ModeCharDevice, fs.ModeIrregular)
		m := fstest.MapFS{"d/x": {Mode: kind | 0o644, Data: want, ModTime: mt}}
		if kind == fs.ModeDir {
			m["d/x"].Data = nil
		}
		v, err = synthfs.NewFsView(m, "d/x")
		switch {
		case kind == fs.ModeDir:
			if v != nil || !errors.Is(err, syscall.EISDIR) {
				rt.Fatalf("a view of a directory: %v, %v", v, err)
			}
		case kind != 0:
			if v != nil || err == nil {
				rt.Fatalf("a view of %v: %v", kind, v)
			}
		default:
			if err != nil {
				rt.Fatalf("NewFsView: %v", err)
			}
			if err := root.AddFile("g", v, nil); err != nil {
				rt.Fatalf("AddFile: %v", err)
			}
			if b, err := vroot.ReadFile(root, "g"); err != nil || !bytes.Equal(b, want) {
				rt.Fatalf("read of the view: %d bytes, %v", len(b), err)
			}
			delete(m, "d/x")
			if f, err := root.Open("g"); f != nil || !errors.Is(err, fs.ErrNotExist) {
				rt.Fatalf("what its file system took away is opened: %v, %v", f, err)
			}
			if err := root.Remove("g"); err != nil {
				rt.Fatalf("remove: %v", err)
			}
		}
		if v, err := synthfs.NewFsView(m, "d/none"); v != nil || !errors.Is(err, fs.ErrNotExist) {
			rt.Fatalf("a view of nothing: %v, %v", v, err)
		}
	})
}
