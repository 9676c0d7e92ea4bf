package vroott

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

const secret = "SECRET-OUTSIDE"

// outside fills what lies around the root with entries of the names used inside.
func outside(fsys fsmodel.FS) error {
	for _, d := range []string{"jail", "jailx", "a", "a/b", "out", "out/a"} {
		if err := fsys.Mkdir(d, 0o777); err != nil {
			return err
		}
		if d == "jail" {
			continue
		}
		if err := vroot.WriteFile(fsys, d+"/s", []byte(secret), 0o666); err != nil {
			return err
		}
	}
	for _, f := range []string{"b", "c", "out/c", "jailx/a"} {
		if err := vroot.WriteFile(fsys, f, []byte(secret), 0o666); err != nil {
			return err
		}
	}
	return nil
}

func notJail(t fsmodel.Tree) fsmodel.Tree {
	out := fsmodel.Tree{}
	for p, n := range t {
		if p != "." && p != "jail" && !strings.HasPrefix(p, "jail/") {
			out[p] = n
		}
	}
	return out
}

// jailed makes a file system with an outside and gives back its jail.
func jailed(rt *rapid.T, c *vt.Case) (outer func() (fsmodel.Tree, error), sub fsmodel.FS, synth, cleans bool, done func()) {
	kind := vt.Of(rt, "kind", "osfs.Root", "osfs.Root", "synthfs", "normalized", "localized", "osfs.Fs.OpenRoot", "sub of synthfs")
	c.Label("kind %s", kind)
	c.Log("kind %s", kind)
	fail := func(err error) {
		if err != nil {
			rt.Fatalf("VT-ENV %s: %v", kind, err)
		}
	}
	if strings.Contains(kind, "synthfs") {
		umask := fs.FileMode(0)
		all := synthfs.NewRoot("mem", &synthfs.Option{Umask: &umask})
		base := all
		if kind == "sub of synthfs" {
			fail(all.MkdirAll("x/y", 0o777))
			var err error
			base, err = all.OpenRoot("x/y")
			fail(err)
			fail(vroot.WriteFile[vroot.File](all, "x/jail", []byte(secret), 0o666))
		}
		fail(outside(base))
		jail, err := base.OpenRoot("jail")
		fail(err)
		return func() (fsmodel.Tree, error) {
			t, err := fsmodel.Snap(all)
			if err != nil {
				return nil, err
			}
			if kind == "sub of synthfs" {
				in := fsmodel.Tree{}
				for p, n := range t {
					if rel, ok := strings.CutPrefix(p, "x/y/"); !ok {
						in["up/"+p] = n
					} else {
						in[rel] = n
					}
				}
				t = in
			}
			return notJail(t), nil
		}, jail, true, true, func() {}
	}
	dir, clear := fsx.Scratch()
	whole, err := fsx.New(dir)
	fail(err)
	fail(outside(whole))
	fail(whole.Close())
	jail := filepath.Join(dir, "jail")
	switch kind {
	case "osfs.Root":
		r, err := osfs.NewRoot(jail)
		fail(err)
		sub = asRooted[*osfs.File](r)
	case "normalized":
		r, err := osfs.NewRoot(jail)
		fail(err)
		sub = asRooted[*osfs.File](vroot.NewPathNormalizerRoot[*osfs.File](r))
	case "localized":
		r, err := osfs.NewRoot(jail)
		fail(err)
		sub = asRooted[*osfs.File](vroot.NewPathLocalizerRoot[*osfs.File](r))
	default:
		f, err := osfs.NewFs(dir)
		fail(err)
		r, err := f.OpenRoot("jail")
		fail(err)
		sub = asRooted[*osfs.File](r)
	}
	return func() (fsmodel.Tree, error) {
		t, err := fsmodel.SnapDir(dir)
		return notJail(t), err
	}, sub, false, strings.HasSuffix(kind, "ized"), func() { _ = sub.Close(); clear() }
}

// Every root goes through histories full of paths and links that lead out, next
// to *os.Root doing the same; what is around it stays as it was.
func TestC19_Roots(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one history of 6 to 33 calls on a root (osfs, its path-converting wrappers, synthfs) whose paths and symlinks lead out of it every so often, compared with *os.Root; non-trivial: at least one call was refused for leaving the root and two changed the tree", func(rt *rapid.T, c *vt.Case) {
		ref, refDir, done := reference(rt)
		defer done()
		// an outside for the reference too
		_ = ref.Close()
		whole, err := fsx.New(refDir)
		if err == nil {
			err = outside(whole)
			_ = whole.Close()
		}
		if err == nil {
			ref, err = fsx.New(filepath.Join(refDir, "jail"))
		}
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer ref.Close()
		outer, sub, synth, cleans, done2 := jailed(rt, c)
		defer done2()
		before, err := outer()
		if err != nil {
			rt.Fatalf("VT-ENV outside: %v", err)
		}
		w := &fsmodel.World{RT: rt, C: c, Ref: ref, RefDir: filepath.Join(refDir, "jail"), Sub: sub}
		if synth {
			w.O = synthOpts()
		} else {
			w.O.DropMtime = func(p string, n fsmodel.Node, w *fsmodel.World) bool { return false }
		}
		w.O.CleansPaths = cleans
		w.O.OpenRoot = openRoot
		w.O.Targets = []string{"..", "../out", "../out/a", "../b", "../jailx", "../../", refDir, "/", "/etc", "../jail/../out", "../jail"}
		refused := 0
		w.O.AfterStep = func(w *fsmodel.World) {
			now, err := outer()
			if err != nil {
				rt.Fatalf("the outside can not be read: %v", err)
			}
			if d := now.Diff(before); d != "" {
				rt.Fatalf("the outside changed:\n%s", d)
			}
			for p, n := range w.Tree {
				if strings.Contains(n.Data, secret) {
					rt.Fatalf("VT-ENV reference leaked into %s", p)
				}
			}
		}
		w.Start()
		defer w.Close()
		for range 6 + vt.Pick(rt, 28, "steps") {
			w.Step()
			if w.Parted {
				return
			}
			// ask for the outside by name
			if vt.Chance(rt, 3, "probe") {
				name := probePath(rt, w, cleans)
				_, rerr := ref.Stat(name)
				_, serr := sub.Stat(name)
				if (rerr == nil) != (serr == nil) {
					rt.Fatalf("stat %q: %v, want %v", name, serr, rerr)
				}
				if fsmodel.Class(rerr) == "escapes" {
					refused++
					c.Label("probe escapes")
					if !errors.Is(serr, vroot.ErrPathEscapes) {
						rt.Fatalf("stat %q: %v, want vroot.ErrPathEscapes", name, serr)
					}
				}
				f, err := sub.Open(name)
				if err == nil {
					b := make([]byte, 64)
					n, _ := f.Read(b)
					_ = f.Close()
					if strings.Contains(string(b[:n]), secret) {
						rt.Fatalf("open %q reads what lies outside", name)
					}
				}
				if err == nil && rerr != nil {
					rt.Fatalf("open %q works although stat fails: %v", name, rerr)
				}
			}
		}
		if refused > 0 && w.Mutated >= 2 {
			c.NonTrivial()
		}
	})
}

// probePath is a way out, plain or through one of the links.
func probePath(rt *rapid.T, w *fsmodel.World, cleans bool) string {
	end := vt.Of(rt, "end", "b", "out/c", "a/s", "jailx/a", ".", "s", "a")
	links := []string{""}
	for p, n := range w.Tree {
		if n.Mode&fs.ModeSymlink != 0 {
			links = append(links, p)
		}
	}
	slices.Sort(links)
	l := links[vt.Pick(rt, len(links), "link")]
	switch {
	case l == "" && vt.Chance(rt, 4, "abs"):
		return "/" + end
	case l == "":
		return "../" + end
	case !cleans && vt.Chance(rt, 3, "up"):
		return l + "/../" + end
	}
	return path.Join(l, end)
}

// Lexical confinement: osfs.Fs and PathPrefixFs promise no more than that paths
// do not climb out; links stay inside here.
func TestC19_Lexical(t *testing.T) {
	vt.Check(t, vt.N(2000, 20000), "one history of 6 to 33 calls on an osfs.Fs or a PathPrefixFs, with paths that climb out and links that do not, compared with *os.Root; non-trivial: three or more calls changed the tree", func(rt *rapid.T, c *vt.Case) {
		ref, refDir, done := reference(rt)
		defer done()
		dir, done2 := fsx.Scratch()
		defer done2()
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		whole, err := fsx.New(dir)
		fail(err)
		defer whole.Close()
		fail(outside(whole))
		fail(os.Chmod(filepath.Join(dir, "jail"), 0o777))
		var sub fsmodel.FS
		kind := vt.Of(rt, "kind", "osfs.Fs", "PathPrefixFs", "nested PathPrefixFs", "Sub", "Sub of widened", "osfs.Fs by link", "PathPrefixFs by link")
		c.Label("kind %s", kind)
		c.Log("kind %s", kind)
		switch kind {
		case "osfs.Fs":
			f, err := osfs.NewFs(filepath.Join(dir, "jail"))
			fail(err)
			sub = vroot.Widen[*osfs.File](f)
		case "osfs.Fs by link":
			fail(os.Symlink("jail", filepath.Join(dir, "jl")))
			f, err := osfs.NewFs(filepath.Join(dir, "jl"))
			fail(err)
			sub = vroot.Widen[*osfs.File](f)
		case "PathPrefixFs by link":
			fail(os.Symlink("jail", filepath.Join(dir, "jl")))
			sub, err = vroot.NewPathPrefixFs[vroot.File](whole, "jl")
			fail(err)
		case "PathPrefixFs":
			sub, err = vroot.NewPathPrefixFs[vroot.File](whole, vt.Of(rt, "prefix", "jail", "./jail", "jail/", "a/../jail"))
			fail(err)
		case "nested PathPrefixFs":
			p, err := vroot.NewPathPrefixFs[vroot.File](whole, ".")
			fail(err)
			sub, err = vroot.NewPathPrefixFs[vroot.File](p, "jail")
			fail(err)
		case "Sub":
			sub, err = vroot.Sub[vroot.File](whole, "jail")
			fail(err)
		default:
			r, err := osfs.NewRoot(dir)
			fail(err)
			defer r.Close()
			sub, err = vroot.Sub[vroot.File](vroot.Widen[*osfs.File](r), "jail")
			fail(err)
		}
		outer := func() fsmodel.Tree {
			t, err := fsmodel.SnapDir(dir)
			fail(err)
			return notJail(t)
		}
		before := outer()
		w := &fsmodel.World{RT: rt, C: c, Ref: ref, RefDir: refDir, Sub: sub}
		w.O.TameTargets = true
		w.O.CleansPaths = true
		w.O.Guard = func(w *fsmodel.World, op string, paths ...string) bool {
			if op == "rename" {
				// os.Root refuses to replace a directory by a directory of its own accord
				m, err1 := w.Ref.Lstat(paths[0])
				n, err2 := w.Ref.Lstat(paths[1])
				if err1 == nil && err2 == nil && m.IsDir() && n.IsDir() {
					return false
				}
			}
			if op == "mkdirall" {
				// os.MkdirAll does not make what a dangling link leads to
				for p := path.Clean(paths[0]); p != "." && p != ".."; p = path.Dir(p) {
					if w.Tree[p].Mode&fs.ModeSymlink != 0 {
						return false
					}
				}
			}
			return tame(w, op, paths...)
		}
		w.O.Same = func(op, desc, ref, sub string) bool {
			return ref != "ok" && sub != "ok" && (sub == "escapes" || strings.Contains(desc, `"."`) || op == "link" || op == "rename" || op == "mkdirall")
		}
		w.O.AfterStep = func(w *fsmodel.World) {
			if d := outer().Diff(before); d != "" {
				rt.Fatalf("the outside changed:\n%s", d)
			}
			for p := range w.Tree {
				if strings.Contains(p, "..") {
					rt.Fatalf("VT-ENV odd path %q", p)
				}
			}
		}
		w.Start()
		defer w.Close()
		for range 6 + vt.Pick(rt, 28, "steps") {
			w.Step()
			if w.Parted {
				return
			}
			if vt.Chance(rt, 4, "probe") {
				name := vt.Of(rt, "out", "..", "../b", "../out/c", "../jail", "../jail/a", "a/../..", "a/../../b", "/etc", "/", dir, "../jailx", "../jailx/a", "b/../../jailx/a", "./../b")
				climbs(rt, sub, name)
				c.Label("climb")
			}
		}
		if w.Mutated >= 3 {
			c.NonTrivial()
		}
	})
}

func hasLink(t fsmodel.Tree, p string) bool {
	for d := path.Dir(path.Clean(p)); d != "." && d != ".." && d != "/"; d = path.Dir(d) {
		if t[d].Mode&fs.ModeSymlink != 0 {
			return true
		}
	}
	return false
}

// climbs makes every kind of call with a path that climbs out.
func climbs(rt *rapid.T, sub fsmodel.FS, name string) {
	must := func(op string, err error) {
		if !errors.Is(err, vroot.ErrPathEscapes) {
			rt.Fatalf("%s %q: %v, want vroot.ErrPathEscapes", op, name, err)
		}
	}
	fi, err := sub.Stat(name)
	_ = fi
	must("stat", err)
	_, err = sub.Lstat(name)
	must("lstat", err)
	_, err = sub.ReadLink(name)
	must("readlink", err)
	_, err = sub.Open(name)
	must("open", err)
	_, err = sub.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o666)
	must("openfile", err)
	_, err = sub.Create(name)
	must("create", err)
	must("mkdir", sub.Mkdir(name, 0o777))
	must("mkdirall", sub.MkdirAll(name, 0o777))
	must("remove", sub.Remove(name))
	must("removeall", sub.RemoveAll(name))
	must("chmod", sub.Chmod(name, 0o700))
	must("chown", sub.Chown(name, -1, -1))
	must("lchown", sub.Lchown(name, -1, -1))
	must("rename from", sub.Rename(name, "a"))
	must("rename to", sub.Rename("a", name))
	must("link from", sub.Link(name, "a"))
	must("link to", sub.Link("a", name))
	must("symlink at", sub.Symlink("a", name))
	must("chtimes", sub.Chtimes(name, fsmodel.Stamp(1), fsmodel.Stamp(1)))
	_, err = vroot.ReadDir(sub, name)
	must("ReadDir", err)
	_, err = vroot.ReadFile(sub, name)
	must("ReadFile", err)
	_, err = vroot.Sub(sub, name)
	must("Sub", err)
}

// tame keeps symlinks from coming to lead out.
func tame(w *fsmodel.World, op string, paths ...string) bool {
	switch op {
	case "rename":
		// a moved link may come to lead out
		for p := range w.Tree {
			if w.Tree[p].Mode&fs.ModeSymlink != 0 && (p == path.Clean(paths[0]) || strings.HasPrefix(p, path.Clean(paths[0])+"/")) {
				return false
			}
		}
		if m, err := w.Ref.Stat(path.Dir(paths[0])); err != nil || !m.IsDir() {
			return false
		}
		// nor through a link, where the tree does not show it by that name
		return !hasLink(w.Tree, paths[0])
	case "mkdirall", "removeall":
		return filepath.IsLocal(paths[0])
	case "symlink":
		// through a link the target is read from elsewhere
		return !hasLink(w.Tree, paths[1])
	case "link":
		m, err := w.Ref.Lstat(paths[0])
		return err != nil || m.Mode()&fs.ModeSymlink == 0
	}
	return true
}
