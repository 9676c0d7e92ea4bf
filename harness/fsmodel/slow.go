package fsmodel

import (
	"io/fs"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// Pauses is a pause that is mostly none, at times gives way to other goroutines
// and rarely sleeps, which opens the gaps between the steps of a call.
func Pauses(seed uint64) func() {
	var n atomic.Uint64
	return func() {
		x := seed + n.Add(1)*0x9e3779b97f4a7c15
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		x = (x ^ x>>27) * 0x94d049bb133111eb
		x ^= x >> 31
		switch k := x % 32; {
		case k < 8:
			for range 1 + x>>8%20 {
				runtime.Gosched()
			}
		case k == 8:
			time.Sleep(time.Duration(1+x>>8%80) * time.Microsecond)
		}
	}
}

// Slow is fsys with a pause before and after every call.
func Slow(fsys FS, pause func()) FS { return slow{fsys, pause} }

type slow struct {
	f FS
	p func()
}

func (s slow) wait() func() { s.p(); return s.p }

func (s slow) file(f vroot.File, err error) (vroot.File, error) {
	if err != nil {
		return nil, err
	}
	return SlowFile(f, s.p), nil
}

func (s slow) Chmod(name string, mode fs.FileMode) error {
	defer s.wait()()
	return s.f.Chmod(name, mode)
}
func (s slow) Chown(name string, uid, gid int) error {
	defer s.wait()()
	return s.f.Chown(name, uid, gid)
}
func (s slow) Chtimes(name string, a, m time.Time) error {
	defer s.wait()()
	return s.f.Chtimes(name, a, m)
}
func (s slow) Close() error { return s.f.Close() }
func (s slow) Create(name string) (vroot.File, error) {
	defer s.wait()()
	return s.file(s.f.Create(name))
}
func (s slow) Lchown(name string, uid, gid int) error {
	defer s.wait()()
	return s.f.Lchown(name, uid, gid)
}
func (s slow) Link(o, n string) error                 { defer s.wait()(); return s.f.Link(o, n) }
func (s slow) Lstat(name string) (fs.FileInfo, error) { defer s.wait()(); return s.f.Lstat(name) }
func (s slow) Mkdir(name string, p fs.FileMode) error { defer s.wait()(); return s.f.Mkdir(name, p) }
func (s slow) MkdirAll(name string, p fs.FileMode) error {
	defer s.wait()()
	return s.f.MkdirAll(name, p)
}
func (s slow) Name() string                         { return s.f.Name() }
func (s slow) Open(name string) (vroot.File, error) { defer s.wait()(); return s.file(s.f.Open(name)) }
func (s slow) OpenFile(name string, flag int, p fs.FileMode) (vroot.File, error) {
	defer s.wait()()
	return s.file(s.f.OpenFile(name, flag, p))
}
func (s slow) ReadLink(name string) (string, error)  { defer s.wait()(); return s.f.ReadLink(name) }
func (s slow) Remove(name string) error              { defer s.wait()(); return s.f.Remove(name) }
func (s slow) RemoveAll(name string) error           { defer s.wait()(); return s.f.RemoveAll(name) }
func (s slow) Rename(o, n string) error              { defer s.wait()(); return s.f.Rename(o, n) }
func (s slow) Stat(name string) (fs.FileInfo, error) { defer s.wait()(); return s.f.Stat(name) }
func (s slow) Symlink(o, n string) error             { defer s.wait()(); return s.f.Symlink(o, n) }

// SlowFile is f with a pause before and after every call that reads or changes
// what it holds.
func SlowFile(f vroot.File, pause func()) vroot.File { return slowFile{f, slow{p: pause}} }

type slowFile struct {
	vroot.File
	s slow
}

func (f slowFile) Close() error               { defer f.s.wait()(); return f.File.Close() }
func (f slowFile) Read(b []byte) (int, error) { defer f.s.wait()(); return f.File.Read(b) }
func (f slowFile) ReadAt(b []byte, off int64) (int, error) {
	defer f.s.wait()()
	return f.File.ReadAt(b, off)
}
func (f slowFile) ReadDir(n int) ([]fs.DirEntry, error) { defer f.s.wait()(); return f.File.ReadDir(n) }
func (f slowFile) Readdir(n int) ([]fs.FileInfo, error) { defer f.s.wait()(); return f.File.Readdir(n) }
func (f slowFile) Readdirnames(n int) ([]string, error) {
	defer f.s.wait()()
	return f.File.Readdirnames(n)
}
func (f slowFile) Seek(o int64, w int) (int64, error) { defer f.s.wait()(); return f.File.Seek(o, w) }
func (f slowFile) Stat() (fs.FileInfo, error)         { defer f.s.wait()(); return f.File.Stat() }
func (f slowFile) Truncate(size int64) error          { defer f.s.wait()(); return f.File.Truncate(size) }
func (f slowFile) Write(b []byte) (int, error)        { defer f.s.wait()(); return f.File.Write(b) }
func (f slowFile) WriteString(b string) (int, error) {
	defer f.s.wait()()
	return f.File.WriteString(b)
}
func (f slowFile) WriteAt(b []byte, o int64) (int, error) {
	defer f.s.wait()()
	return f.File.WriteAt(b, o)
}
