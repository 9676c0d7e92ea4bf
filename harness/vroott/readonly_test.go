package vroott

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// exact is a snapshot with every time and size, below a directory.
func exact(fsys fsmodel.FS) (string, error) {
	var b strings.Builder
	var walk func(p string) error
	walk = func(p string) error {
		fi, err := fsys.Lstat(p)
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%s %v %d %d", p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		switch {
		case fi.Mode().IsRegular():
			d, err := vroot.ReadFile(fsys, p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " %q", d)
		case fi.Mode()&fs.ModeSymlink != 0:
			t, err := fsys.ReadLink(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " -> %s", t)
		}
		b.WriteByte('\n')
		if !fi.IsDir() {
			return nil
		}
		es, err := vroot.ReadDir(fsys, p)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := walk(path.Join(p, e.Name())); err != nil {
				return err
			}
		}
		return nil
	}
	err := walk(".")
	return b.String(), err
}

type roView struct {
	kind  string
	view  fsmodel.FS
	inner fsmodel.FS
	root  func(name string) (fsmodel.FS, error) // nil without OpenRoot
	done  func()
}

func readonlyView(rt *rapid.T, c *vt.Case) roView {
	kind := vt.Of(rt, "kind", "ReadOnlyFs/os", "ReadOnlyFs/synth", "ReadOnlyRoot/osfs", "ReadOnlyRoot/synth", "FromIoFs/DirFS", "FromIoFs/ToIoFs", "FromIoFs/ToIoFsRoot", "Widen(ReadOnlyFs)", "ReadOnlyFs of ReadOnlyFs", "ReadOnlyFs of prefix")
	c.Label("kind %s", kind)
	c.Log("%s", kind)
	fail := func(err error) {
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
	}
	if strings.HasSuffix(kind, "/synth") {
		r := synthfs.NewRoot("mem", nil)
		fail(fsmodel.Grow(rt, c, r, fsmodel.GrowOpts{Steps: 12, Out: true}))
		v := roView{kind: kind, inner: r, done: func() {}}
		if kind == "ReadOnlyFs/synth" {
			v.view = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](r))
		} else {
			rr := asRooted[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[vroot.File](r))
			v.view, v.root = rr, rr.(rooted).openRoot
		}
		return v
	}
	dir, clear := fsx.Scratch()
	in, err := fsx.New(dir)
	fail(err)
	v := roView{kind: kind, inner: in, done: func() { _ = in.Close(); clear() }}
	fail(fsmodel.Grow(rt, c, in, fsmodel.GrowOpts{Steps: 12, Out: true}))
	switch kind {
	case "ReadOnlyFs/os":
		v.view = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](in))
	case "Widen(ReadOnlyFs)":
		f, err := osfs.NewFs(dir)
		fail(err)
		v.view = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[*osfs.File](f))
	case "ReadOnlyFs of ReadOnlyFs":
		v.view = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](in)))
	case "ReadOnlyFs of prefix":
		p, err := vroot.NewPathPrefixFs[vroot.File](in, ".")
		fail(err)
		v.view = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](p))
	case "ReadOnlyRoot/osfs":
		r, err := osfs.NewRoot(dir)
		fail(err)
		rr := asRooted[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[*osfs.File](r))
		v.view, v.root = rr, rr.(rooted).openRoot
		prev := v.done
		v.done = func() { _ = r.Close(); prev() }
	case "FromIoFs/DirFS":
		v.view = vroot.FromIoFs(os.DirFS(dir).(fs.ReadLinkFS), "io")
	case "FromIoFs/ToIoFs":
		v.view = vroot.FromIoFs(vroot.ToIoFs[vroot.File](in).(fs.ReadLinkFS), "io")
	case "FromIoFs/ToIoFsRoot":
		r, err := osfs.NewRoot(dir)
		fail(err)
		v.view = vroot.FromIoFs(vroot.ToIoFsRoot[*osfs.File](r).(fs.ReadLinkFS), "io")
		prev := v.done
		v.done = func() { _ = r.Close(); prev() }
	}
	return v
}

func TestC20_ReadOnly(t *testing.T) {
	vt.Check(t, vt.N(2500, 25000), "one generated tree behind a read-only view, and a history of 8 to 37 calls on the view, its sub-roots and its handles; non-trivial: at least four changes were asked for and refused, one of them through a handle", func(rt *rapid.T, c *vt.Case) {
		v := readonlyView(rt, c)
		defer v.done()
		before, err := exact(v.inner)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		tree, err := fsmodel.Snap(v.inner)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		paths := tree.Paths()
		somewhere := func() string {
			switch vt.Pick(rt, 8, "where") {
			case 0:
				return vt.Of(rt, "odd", "new", "../b", "nowhere/x", ".", "", "/etc/x", "a/../..")
			case 1, 2:
				return path.Join(paths[vt.Pick(rt, len(paths), "path")], vt.Of(rt, "name", "a", "b", "c", "new"))
			}
			return paths[vt.Pick(rt, len(paths), "path")]
		}
		refused, refusedF := 0, 0
		erofs := func(op string, err error) {
			c.Log("%s", op)
			if !errors.Is(err, syscall.EROFS) {
				rt.Fatalf("%s: %s: %v, want EROFS", v.kind, op, err)
			}
			refused++
		}
		eperm := func(op string, n int, err error) {
			c.Log("  %s", op)
			if !errors.Is(err, fs.ErrPermission) || n != 0 {
				rt.Fatalf("%s: handle: %s: %d, %v, want EPERM", v.kind, op, n, err)
			}
			refusedF++
		}
		view, moved := v.view, false
		useHandle := func(f vroot.File, where string) {
			defer f.Close()
			for range 1 + vt.Pick(rt, 3, "fops") {
				switch op := vt.Of(rt, "fop", "write", "writeat", "writestring", "truncate", "chmod", "chown", "sync", "types"); op {
				case "write":
					n, err := f.Write([]byte("x"))
					eperm(op, n, err)
				case "writestring":
					n, err := f.WriteString("x")
					eperm(op, n, err)
				case "writeat":
					n, err := f.WriteAt([]byte("x"), int64(vt.Of(rt, "off", 0, 1, 5)))
					eperm(op, n, err)
				case "truncate":
					eperm(op, 0, f.Truncate(int64(vt.Of(rt, "size", 0, 1, 10))))
				case "chmod":
					eperm(op, 0, f.Chmod(vt.Of(rt, "perm", fs.FileMode(0o777), 0)))
				case "chown":
					eperm(op, 0, f.Chown(os.Getuid(), os.Getgid()))
				case "sync":
					_ = f.Sync()
				case "types":
					// no way round through what the handle also is
					if rf, ok := f.(io.ReaderFrom); ok {
						n, err := rf.ReadFrom(strings.NewReader("x"))
						eperm("ReadFrom", int(n), err)
					}
				}
			}
		}
		for range 8 + vt.Pick(rt, 30, "steps") {
			p := somewhere()
			switch op := vt.Of(rt, "op", "create", "openfile", "openfile", "openfile", "open", "open", "mkdir", "mkdirall", "remove", "removeall", "rename", "link", "symlink", "chmod", "chown", "lchown", "chtimes", "writefile", "openroot", "read", "read"); op {
			case "create":
				f, err := view.Create(p)
				noHandle(rt, f, err)
				erofs("create "+p, err)
			case "writefile":
				erofs("writefile "+p, vroot.WriteFile(view, p, []byte("x"), 0o666))
			case "mkdir":
				erofs("mkdir "+p, view.Mkdir(p, 0o777))
			case "mkdirall":
				erofs("mkdirall "+p, view.MkdirAll(p, 0o777))
			case "remove":
				erofs("remove "+p, view.Remove(p))
			case "removeall":
				erofs("removeall "+p, view.RemoveAll(p))
			case "rename":
				q := somewhere()
				erofs("rename "+p+" "+q, view.Rename(p, q))
			case "link":
				q := somewhere()
				erofs("link "+p+" "+q, view.Link(p, q))
			case "symlink":
				q := somewhere()
				erofs("symlink "+p+" "+q, view.Symlink(p, q))
			case "chmod":
				erofs("chmod "+p, view.Chmod(p, 0o777))
			case "chown":
				erofs("chown "+p, view.Chown(p, os.Getuid(), os.Getgid()))
			case "lchown":
				erofs("lchown "+p, view.Lchown(p, os.Getuid(), os.Getgid()))
			case "chtimes":
				erofs("chtimes "+p, view.Chtimes(p, fsmodel.Stamp(1), fsmodel.Stamp(1)))
			case "open", "openfile":
				flag := 0
				if op == "openfile" {
					flag = vt.Of(rt, "acc", os.O_RDONLY, os.O_RDONLY, os.O_WRONLY, os.O_RDWR)
					for _, b := range []int{os.O_APPEND, os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_SYNC} {
						if vt.Chance(rt, 4, "bit") {
							flag |= b
						}
					}
				}
				var f vroot.File
				var err error
				if op == "open" {
					f, err = view.Open(p)
				} else {
					f, err = view.OpenFile(p, flag, 0o666)
				}
				noHandle(rt, f, err)
				writes := flag&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) != 0
				if writes {
					erofs(fmt.Sprintf("open %s %#x", p, flag), err)
				} else if errors.Is(err, syscall.EROFS) {
					rt.Fatalf("%s: open %s for reading: %v", v.kind, p, err)
				} else if err == nil {
					c.Log("open %s %#x", p, flag)
					useHandle(f, p)
				}
			case "openroot":
				if v.root == nil {
					break
				}
				r, err := v.root(p)
				if fi, serr := v.inner.Stat(p); err != nil && !moved && (errors.Is(err, syscall.EROFS) || serr == nil && fi.IsDir()) {
					rt.Fatalf("openroot %s: %v, stat tells %v", p, err, serr)
				}
				if err == nil {
					c.Log("openroot %s", p)
					c.Label("openroot")
					defer r.Close()
					view, moved = r, true
					if rr, ok := r.(rooted); ok {
						v.root = rr.openRoot
					}
				}
			case "read":
				if !moved {
					sameRead(rt, v, p)
				}
			}
			after, err := exact(v.inner)
			if err != nil {
				rt.Fatalf("after %s the tree can not be read: %v", p, err)
			}
			if after != before {
				rt.Fatalf("%s: what the view wraps changed from\n%s\nto\n%s", v.kind, before, after)
			}
		}
		if refused >= 4 && refusedF > 0 {
			c.NonTrivial()
		}
	})
}

func noHandle(rt *rapid.T, f vroot.File, err error) {
	if (err == nil) == (f == nil) {
		rt.Fatalf("open returned %v (%T) and %v", f, f, err)
	}
}

// sameRead compares what the view and what is behind it say about p.
func sameRead(rt *rapid.T, v roView, p string) {
	if p == "" {
		return
	}
	if c := path.Clean(p); c == ".." || strings.HasPrefix(c, "../") {
		return // some views refuse what climbs out as written, before any link is followed
	}
	a, aerr := v.view.Lstat(p)
	b, berr := v.inner.Lstat(p)
	if (aerr == nil) != (berr == nil) {
		rt.Fatalf("%s: lstat %q: %v, want %v", v.kind, p, aerr, berr)
	}
	if aerr == nil && (a.Mode() != b.Mode() || !a.ModTime().Equal(b.ModTime())) {
		rt.Fatalf("%s: lstat %q: %v %v, want %v %v", v.kind, p, a.Mode(), a.ModTime(), b.Mode(), b.ModTime())
	}
	if aerr == nil && a.Mode()&fs.ModeSymlink != 0 {
		at, aerr := v.view.ReadLink(p)
		bt, berr := v.inner.ReadLink(p)
		if at != bt || (aerr == nil) != (berr == nil) {
			rt.Fatalf("%s: readlink %q: %q %v, want %q %v", v.kind, p, at, aerr, bt, berr)
		}
	}
	if _, err := v.inner.Stat(p); err != nil {
		return // links out: some views follow them, as documented
	}
	ab, aerr := vroot.ReadFile(v.view, p)
	bb, berr := vroot.ReadFile(v.inner, p)
	if (aerr == nil) != (berr == nil) || !bytes.Equal(ab, bb) {
		rt.Fatalf("%s: read %q: %q %v, want %q %v", v.kind, p, ab, aerr, bb, berr)
	}
	ae, aerr := vroot.ReadDir(v.view, p)
	be, berr := vroot.ReadDir(v.inner, p)
	if (aerr == nil) != (berr == nil) || names(ae) != names(be) {
		rt.Fatalf("%s: list %q: %q %v, want %q %v", v.kind, p, names(ae), aerr, names(be), berr)
	}
}

func names(es []fs.DirEntry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%s:%v ", e.Name(), e.Type())
	}
	return b.String()
}
