package vroott

import (
	"errors"
	"io/fs"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

func TestC24_SynthVsOS(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one history of 5 to 34 calls through an in-memory file system, its sub-roots and handles, and through *os.Root; non-trivial: four or more of them changed the tree", func(rt *rapid.T, c *vt.Case) {
		ref, dir, done := reference(rt)
		defer done()
		umask := vt.Of(rt, "umask", fs.FileMode(0), 0, 0o022, 0o077, 0o007)
		opt := &synthfs.Option{Umask: &umask, DisableOpenFileRemoval: vt.Chance(rt, 3, "held")}
		c.Log("umask %v held %v", umask, opt.DisableOpenFileRemoval)
		sub := synthfs.NewRoot("mem", opt)
		if err := ref.Chmod(".", 0o777&^umask); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		w := &fsmodel.World{RT: rt, C: c, Ref: fsx.Masked{FS: ref, Umask: umask}, RefDir: dir, Sub: sub, O: synthOpts()}
		if vt.Chance(rt, 2, "bits") {
			opt.MaskChmodMode = fsutil.MaskChmodMode
			sub = synthfs.NewRoot("mem", opt)
			w.Sub, w.O.Bits = sub, true
			c.Label("special bits")
		} else {
			w.O.Chown = true // which may clear them
		}
		w.O.OpenRoot, w.O.Crowd = openRoot, 1500
		w.O.NoLink = opt.DisableOpenFileRemoval || w.O.Bits && vt.Chance(rt, 2, "no links")
		if opt.DisableOpenFileRemoval {
			guard := w.O.Guard
			w.O.Guard = func(w *fsmodel.World, op string, paths ...string) bool {
				if op == "remove" && w.Held(paths[0]) {
					before, err := fsmodel.Snap(w.Sub)
					if err != nil {
						rt.Fatalf("%v", err)
					}
					c.Log("remove %q, which is open", paths[0])
					c.Label("remove of an open file")
					if err := w.Sub.Remove(paths[0]); !errors.Is(err, syscall.EINVAL) {
						rt.Fatalf("remove %q, which is open, with open files held: %v\n%s", paths[0], err, w.Tree)
					}
					after, err := fsmodel.Snap(w.Sub)
					if err != nil {
						rt.Fatalf("%v", err)
					}
					if d := after.Diff(before); d != "" {
						rt.Fatalf("a refused remove of %q changed\n%s", paths[0], d)
					}
					return false
				}
				return guard(w, op, paths...)
			}
		}
		w.Start()
		defer w.Close()
		for range 5 + vt.Pick(rt, 30, "steps") {
			w.Step()
			if w.Parted {
				return
			}
		}
		if w.Mutated >= 4 {
			c.NonTrivial()
		}
	})
}

// synthOpts names what synthfs documents, or a platform may do, differently.
func synthOpts() fsmodel.Opts {
	lstat := func(w *fsmodel.World, p string) (fs.FileMode, bool) {
		fi, err := w.Ref.Lstat(p)
		if err != nil {
			return 0, false
		}
		return fi.Mode(), true
	}
	return fsmodel.Opts{
		CleansPaths: true,
		Guard: func(w *fsmodel.World, op string, paths ...string) bool {
			switch op {
			case "link":
				// whether link(2) follows a final symlink is up to the platform
				m, ok := lstat(w, paths[0])
				return !ok || m&fs.ModeSymlink == 0
			case "rename":
				// replacing an empty directory: POSIX does, Go's wrapper does not
				m, ok := lstat(w, paths[0])
				n, ok2 := lstat(w, paths[1])
				return !(ok && ok2 && m.IsDir() && n.IsDir())
			case "chmod", "chtimes", "h.fchmod":
				// hard links take their own copy of mode and times
				return len(w.Linked) == 0
			}
			if (op == "mkdirall" || op == "removeall") && !filepath.IsLocal(paths[0]) {
				// refused before anything is done, where os.Root does what it can
				return false
			}
			if op == "mkdirall" {
				// os.MkdirAll refuses to make what a dangling link leads to, os.Root makes it
				for p := filepath.Clean(paths[0]); p != "."; p = filepath.Dir(p) {
					if m, ok := lstat(w, p); ok && m&fs.ModeSymlink != 0 {
						if _, err := w.Ref.Stat(p); err != nil {
							return false
						}
					}
				}
			}
			return true
		},
		Same: func(op, desc, ref, sub string) bool {
			refused := func(s string) bool {
				return slices.Contains([]string{"ENOTDIR", "EISDIR", "EINVAL", "EBADF", "EPERM", "other"}, s)
			}
			switch {
			case sub == "escapes":
				return ref != "ok" // told from the path before looking
			case refused(ref) && refused(sub):
				return true
			case op == "link" || op == "rename":
				return ref != "ok" && sub != "ok" // which of two errors comes first
			case op == "mkdirall":
				return ref == "exist" || ref == "ENOTDIR" && sub == "ENOTEMPTY"
			case op == "symlink" || strings.HasPrefix(op, "open "):
				return ref == "exist" && sub == "EINVAL" // onto "."
			}
			return false
		},
		Part: func(op, ref, sub string) bool {
			// listing a directory that was removed meanwhile
			return op == "hd.readdir" && ref == "notexist" && sub == "ok"
		},
		DropMtime: func(p string, n fsmodel.Node, w *fsmodel.World) bool {
			return n.Mode.IsDir() || len(w.Linked) > 0
		},
	}
}
