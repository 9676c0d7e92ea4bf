package vroott

import (
	"path/filepath"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// A wrapper that only carries over does what the wrapped file system does.
func TestC21_Wrappers(t *testing.T) {
	vt.Check(t, vt.N(2500, 25000), "one history of 6 to 33 calls on one to three wrappers (Widen, path normalizer, path localizer, path prefix) around a file system, and on such a file system itself; non-trivial: four or more calls changed the tree", func(rt *rapid.T, c *vt.Case) {
		ref, refDir, done := reference(rt)
		defer done()
		dir, clear := fsx.Scratch()
		defer clear()
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		inner, err := fsx.New(dir)
		fail(err)
		defer inner.Close()
		fail(inner.MkdirAll("p/q", 0o777))
		fail(inner.Chmod(".", 0o777))
		r, err := osfs.NewRoot(dir)
		fail(err)
		defer r.Close()
		var sub fsmodel.FS = inner
		cleans, at := false, "."
		base := vt.Of(rt, "base", "hooked", "osfs.Root", "osfs.Root of sub")
		switch base {
		case "osfs.Root":
			sub = vroot.Widen[*osfs.File](r)
		case "osfs.Root of sub":
			s, err := r.OpenRoot("p")
			fail(err)
			defer s.Close()
			sub, at = vroot.Widen[*osfs.File](s), "p"
		}
		desc := base
		prefixed := false
		for range 1 + vt.Pick(rt, 3, "layers") {
			l := vt.Of(rt, "layer", "widen", "normalize", "localize", "prefix")
			switch l {
			case "widen":
				sub = vroot.Widen[vroot.File](hide{sub})
			case "normalize":
				sub, cleans = vroot.NewPathNormalizerFs[vroot.File](sub), true
			case "localize":
				sub, cleans = vroot.NewPathLocalizerFs[vroot.File](sub), true
			case "prefix":
				if prefixed {
					continue
				}
				next := map[string]string{".": "p", "p": "q"}[at]
				sub, err = vroot.NewPathPrefixFs[vroot.File](sub, next)
				fail(err)
				prefixed, cleans, at = true, true, filepath.Join(at, next)
			}
			desc = l + "(" + desc + ")"
			c.Label("layer %s", l)
		}
		if at == "p" || at == "." {
			fail(inner.RemoveAll(filepath.Join(at, map[string]string{".": "p", "p": "q"}[at])))
		}
		fail(inner.Chmod(at, 0o777))
		c.Log("%s at %s", desc, at)
		w := &fsmodel.World{RT: rt, C: c, Ref: ref, RefDir: refDir, Sub: sub}
		w.O.CleansPaths = cleans
		w.O.Crowd = 3000
		w.O.Chown = true
		if prefixed {
			w.O.TameTargets = true
			w.O.Guard = tame
			w.O.Same = func(op, desc, ref, sub string) bool {
				return ref != "ok" && sub != "ok" && (sub == "escapes" || ref == "escapes" || strings.Contains(desc, `"."`))
			}
		}
		w.Start()
		defer w.Close()
		for range 6 + vt.Pick(rt, 28, "steps") {
			w.Step()
			if w.Parted {
				return
			}
			if vt.Chance(rt, 4, "helpers") {
				helpers(rt, ref, sub, w)
			}
		}
		if w.Mutated >= 4 {
			c.NonTrivial()
		}
	})
}

// hide keeps Widen from returning what it is given.
type hide struct{ fsmodel.FS }

// helpers compares the package's helper functions on both.
func helpers(rt *rapid.T, ref, sub fsmodel.FS, w *fsmodel.World) {
	ps := w.Tree.Paths()
	p := ps[vt.Pick(rt, len(ps), "path")]
	rb, rerr := vroot.ReadFile(ref, p)
	sb, serr := vroot.ReadFile(sub, p)
	if string(rb) != string(sb) || fsmodel.Class(rerr) != fsmodel.Class(serr) {
		rt.Fatalf("ReadFile %q: %q %v, want %q %v", p, sb, serr, rb, rerr)
	}
	re, rerr := vroot.ReadDir(ref, p)
	se, serr := vroot.ReadDir(sub, p)
	if names(re) != names(se) || fsmodel.Class(rerr) != fsmodel.Class(serr) {
		rt.Fatalf("ReadDir %q: %q %v, want %q %v", p, names(se), serr, names(re), rerr)
	}
	for i := 1; i < len(se); i++ {
		if se[i-1].Name() >= se[i].Name() {
			rt.Fatalf("ReadDir %q is not sorted: %q", p, names(se))
		}
	}
}
