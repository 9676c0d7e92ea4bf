package overlayt

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// An overlay is one file system that holds what its layers merge to.
func TestC27_View(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one history of 5 to 29 calls through an overlay of two to four generated layers, its sub-roots and handles, and through *os.Root over the tree they merge to; non-trivial: two or more layers contributed to what could be seen and three or more of the calls changed it", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"mem", "mem", "os"}, grow: 10, umask: true})
		defer s.release()
		w, end := start(rt, c, s, nil)
		defer end()
		_, holders, _ := s.merged()
		for range 5 + vt.Pick(rt, 25, "steps") {
			w.Step()
			if w.Parted {
				return
			}
		}
		if w.Mutated >= 3 && len(holders["."]) > 1 {
			c.NonTrivial()
		}
	})
}

// A name that is open can not be removed when the option says so.
func TestC27_OpenFileRemoval(t *testing.T) {
	vt.Check(t, vt.N(600, 6000), "one history of 10 to 29 calls through an overlay told to keep open names from being removed; non-trivial: a removal was asked for of a name, or a directory holding one, with a handle out on it", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"mem", "os"}, grow: 10})
		defer s.release()
		w, end := start(rt, c, s, &overlayfs.Option{DisableOpenFileRemoval: true})
		defer end()
		w.O.NoRename, w.O.NoLink, w.O.OpenRoot = true, true, nil
		guard := w.O.Guard
		w.O.Guard = func(w *fsmodel.World, op string, paths ...string) bool {
			if op != "remove" && op != "removeall" {
				return guard(w, op, paths...)
			}
			p := path.Clean(paths[0])
			dir, err := w.Resolved(path.Dir(p))
			if err != nil || p == "." || !filepath.IsLocal(p) {
				return guard(w, op, paths...)
			}
			full := path.Join(dir, path.Base(p))
			held := false
			for _, real := range w.Open() {
				held = held || real == full || op == "removeall" && strings.HasPrefix(real, full+"/")
			}
			if !held {
				return guard(w, op, paths...)
			}
			c.NonTrivial()
			c.Label("%s of what is open", op)
			if op == "remove" {
				err = w.Sub.Remove(p)
			} else {
				err = w.Sub.RemoveAll(p)
			}
			c.Log("%s %q, which is open: %v", op, p, err)
			if err == nil || !errors.Is(err, syscall.EINVAL) {
				rt.Fatalf("%s %q with handles on %q: %v, want it refused", op, p, w.Open(), err)
			}
			w.Compare("a refused removal")
			return false
		}
		for range 10 + vt.Pick(rt, 20, "steps") {
			w.Step()
			if w.Parted {
				return
			}
		}
	})
}

// start opens the stack next to a reference of its own.
func start(rt *rapid.T, c *vt.Case, s *stack, opt *overlayfs.Option) (*fsmodel.World, func()) {
	tree, _, err := s.merged()
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	ref, dir, done := reference(rt, tree)
	ov, err := s.open(opt)
	if err != nil {
		done()
		rt.Fatalf("the layers can not be stacked: %v", err)
	}
	w := &fsmodel.World{RT: rt, C: c, Ref: fsx.Masked{FS: ref, Umask: s.umask}, RefDir: dir, Sub: asRooted(ov), O: opts(s)}
	w.O.Crowd = 2000
	c.Log("merged: %s", tree)
	w.Start()
	return w, func() {
		w.Close()
		if err := w.Sub.Close(); err != nil {
			rt.Errorf("close: %v", err)
		}
		done()
	}
}

func opts(s *stack) fsmodel.Opts {
	lstat := func(w *fsmodel.World, p string) (fs.FileMode, bool) {
		fi, err := w.Ref.Lstat(p)
		if err != nil {
			return 0, false
		}
		return fi.Mode(), true
	}
	below := map[string]bool{} // directories opened in a lower
	return fsmodel.Opts{
		CleansPaths: true,
		ByPath:      true,
		Names:       s.names,
		Chown:       true,
		OpenRoot:    openRoot,
		Keep: func(w *fsmodel.World, p string, flag int) bool {
			if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				return true
			}
			// a handle onto a lower goes on showing what is there when the name is
			// written to in the top
			real, err := w.Resolved(p)
			if err != nil {
				return false
			}
			t, err := s.layers[0].content()
			if err != nil {
				w.RT.Fatalf("VT-ENV %v", err)
			}
			_, top := t[real]
			if m, ok := lstat(w, real); ok && m.IsDir() {
				below[p] = below[p] || !top
				return true
			}
			return top
		},
		Stale: func(w *fsmodel.World, sub fsmodel.FS, p string) {
			t, err := fsmodel.Snap(sub)
			if err != nil {
				return
			}
			want := fsmodel.Tree{}
			ref, err := fsmodel.SnapDir(w.RefDir)
			if err != nil {
				w.RT.Fatalf("VT-ENV %v", err)
			}
			for q, n := range ref {
				if r, err := filepath.Rel(p, q); err == nil && filepath.IsLocal(r) {
					want[r] = n
				}
			}
			for q := range want {
				if want[q].Mode.IsDir() {
					n, m := want[q], t[q]
					n.Mtime, m.Mtime = 0, 0
					want[q], t[q] = n, m
				}
			}
			if d := t.Diff(want); d != "" {
				w.RT.Fatalf("the sub-root of %s, which is gone or replaced, shows\n%s", p, d)
			}
		},
		Guard: func(w *fsmodel.World, op string, paths ...string) bool {
			switch op {
			case "h.stat":
				// the listing is of all layers, the stat of the one it was opened in
				return !below[paths[0]]
			case "symlink":
				// targets are read with x/.. taken out
				return !strings.Contains(strings.TrimLeft(paths[0], "./"), "..")
			case "link":
				// whether link(2) follows a final symlink is up to the platform
				m, ok := lstat(w, paths[0])
				return !ok || m&fs.ModeSymlink == 0
			case "rename":
				m, ok := lstat(w, paths[0])
				if !ok || !m.IsDir() {
					break
				}
				if n, ok := lstat(w, paths[1]); ok && n.IsDir() {
					ontoDir(w, s, paths[0], paths[1])
					return false
				}
				return renameDir(w, s, paths[0], paths[1])
			case "chmod", "chtimes", "h.fchmod":
				// an in-memory top's hard links take their own copy of mode and times
				return !s.mem() || len(w.Linked) == 0
			}
			if (op == "mkdirall" || op == "removeall") && !filepath.IsLocal(paths[0]) {
				return false
			}
			if op == "mkdirall" {
				for p := filepath.Clean(paths[0]); p != "."; p = filepath.Dir(p) {
					if m, ok := lstat(w, p); ok && m&fs.ModeSymlink != 0 {
						if _, err := w.Ref.Stat(p); err != nil {
							return false
						}
					}
				}
			}
			return true
		},
		Same: func(op, desc, ref, sub string) bool {
			refused := func(s string) bool {
				return slices.Contains([]string{"ENOTDIR", "EISDIR", "EINVAL", "EBADF", "EPERM", "EROFS", "other"}, s)
			}
			switch {
			case sub == "escapes":
				return ref != "ok" // told from the path before looking
			case refused(ref) && refused(sub):
				return true
			case op == "link" || op == "rename":
				return ref != "ok" && sub != "ok" // which of two errors comes first
			case op == "mkdirall":
				return ref == "exist" || ref == "ENOTDIR" && sub == "ENOTEMPTY"
			case op == "symlink" || strings.HasPrefix(op, "open "):
				return ref == "exist" && sub == "EINVAL" // onto "."
			}
			return false
		},
		DropMtime: func(p string, n fsmodel.Node, w *fsmodel.World) bool {
			return n.Mode.IsDir() || s.mem() && len(w.Linked) > 0
		},
	}
}

// ontoDir runs the rename of a directory onto another on the overlay alone: it
// is refused, or comes to a removal of an empty one and a rename. Replacing an
// empty directory POSIX does, Go's wrapper does not.
func ontoDir(w *fsmodel.World, s *stack, p, q string) {
	if w.RefDir == "" || !filepath.IsLocal(p) || !filepath.IsLocal(q) {
		return
	}
	pd, err1 := w.Resolved(path.Dir(path.Clean(p)))
	qd, err2 := w.Resolved(path.Dir(path.Clean(q)))
	if err1 != nil || err2 != nil || path.Clean(p) == "." || path.Clean(q) == "." {
		return
	}
	from, to := path.Join(pd, path.Base(p)), path.Join(qd, path.Base(q))
	_, holders, err := s.merged()
	if err != nil {
		w.RT.Fatalf("VT-ENV %v", err)
	}
	below := slices.ContainsFunc(holders[from], func(i int) bool { return i > 0 })
	l, err := os.ReadDir(filepath.Join(w.RefDir, to))
	if err != nil {
		w.RT.Fatalf("VT-ENV %v", err)
	}
	err = w.Sub.Rename(p, q)
	w.C.Log("rename %q onto the directory %q: %v", p, q, err)
	w.C.Label("rename onto a directory %s", fsmodel.Class(err))
	switch {
	case from == to || err != nil:
	case below && !s.layers[0].sqlite: // whose marks are not known while it is open
		w.RT.Fatalf("rename %q %q: done, though layers %v contribute to it", p, q, holders[from])
	case len(l) > 0:
		w.RT.Fatalf("rename %q %q: done, though the latter held %d names", p, q, len(l))
	case strings.HasPrefix(to, from+"/"):
		w.RT.Fatalf("rename %q %q: done, into itself", p, q)
	default:
		if err := errors.Join(os.Remove(filepath.Join(w.RefDir, to)), os.Rename(filepath.Join(w.RefDir, from), filepath.Join(w.RefDir, to))); err != nil {
			w.RT.Fatalf("VT-ENV %v", err)
		}
		w.Mutated++
	}
	w.Compare("a rename onto a directory")
}

// renameDir runs the rename of a directory lowers contribute to on the overlay
// alone, which has to refuse it.
func renameDir(w *fsmodel.World, s *stack, p, q string) bool {
	if w.RefDir == "" {
		return false
	}
	dir, err := w.Resolved(path.Dir(path.Clean(p)))
	if err != nil {
		return true // the reference tells
	}
	full := path.Join(dir, path.Base(p))
	_, holders, err := s.merged()
	if err != nil {
		w.RT.Fatalf("VT-ENV %v", err)
	}
	lower := slices.ContainsFunc(holders[full], func(i int) bool { return i > 0 })
	if !lower {
		return true
	}
	qdir, qerr := w.Resolved(path.Dir(path.Clean(q)))
	err = w.Sub.Rename(p, q)
	w.C.Log("rename %q %q, which lowers contribute to: %v", p, q, err)
	w.C.Label("rename of a merged directory")
	if err == nil && s.layers[0].sqlite && qerr == nil {
		// marks made since it was opened, which are not known, may part them from it
		if err := os.Rename(filepath.Join(w.RefDir, full), filepath.Join(w.RefDir, qdir, path.Base(q))); err != nil {
			w.RT.Fatalf("rename %q %q: done, by the reference %v", p, q, err)
		}
		w.Mutated++
		w.Compare("a rename")
		return false
	}
	if err == nil {
		w.RT.Fatalf("rename %q %q: done, though layers %v contribute to it", p, q, holders[full])
	}
	if errors.Is(err, syscall.EXDEV) {
		w.C.Label("EXDEV")
	}
	w.Compare("a refused rename")
	return false
}
