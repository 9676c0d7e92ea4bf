package fsmodel

import (
	"fmt"
	"io/fs"
	"path"
	"slices"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verifharness/vt"
)

// stepCrowd fills a directory with many entries, lists it in every way, thins
// it, moves it and takes it away, on both sides.
func (w *World) stepCrowd() {
	rt := w.RT
	parent := w.oneOf(w.sorted(func(p string, n Node) bool { return n.Mode.IsDir() && n.Mode.Perm()&0o700 == 0o700 }), "in", ".")
	d := path.Join(parent, "crowd")
	n := vt.Of(rt, "entries", 70, 130, 257, 515, 1030)
	prefix := vt.Of(rt, "prefix", "e", "é-", strings.Repeat("n", 200))
	if !w.guard("mkdir", d) {
		return
	}
	both := func(desc string, fn func(f FS) error) bool {
		rerr, serr := fn(w.Ref), fn(w.Sub)
		rc, sc := Class(rerr), Class(serr)
		op, _, _ := strings.Cut(desc, " ")
		if rc != sc && ((rerr == nil) != (serr == nil) || w.O.Same == nil || !w.O.Same(op, desc, rc, sc)) {
			w.fatal("%s:\n  got  %v\n  want %v", desc, serr, rerr)
		}
		return rerr == nil
	}
	if !both("mkdir "+d, func(f FS) error { return f.Mkdir(d, 0o755) }) {
		return
	}
	w.Mutated++
	if vt.Chance(rt, 3, "deep") {
		w.deep(parent, d, both)
		return
	}
	w.C.Log("crowd of %d in %s", n, d)
	w.C.Label("crowd")
	name := func(i int) string { return path.Join(d, fmt.Sprintf("%s%04d", prefix, i)) }
	have := map[string]bool{}
	for i := range n {
		p := name(i)
		both("fill "+p, func(f FS) error {
			switch {
			case i%11 == 3:
				return f.Mkdir(p, 0o755)
			case i%11 == 7 && !w.O.NoSymlink:
				return f.Symlink("nowhere", p)
			}
			return vroot.WriteFile(f, p, []byte(p[len(p)-2:]), 0o644)
		})
		have[path.Base(p)] = true
	}
	look := func(when string) {
		var want []string
		for k := range have {
			want = append(want, k)
		}
		slices.Sort(want)
		n := vt.Of(rt, "by", -1, 0, 1, 7, 100, 256, 2000)
		got, err := list(w.Sub, d, n, vt.Pick(rt, 3, "how"))
		if err != nil || !slices.Equal(got, want) {
			w.fatal("%s: listing %s by %d gives %d entries, %v; want %d", when, d, n, len(got), err, len(want))
		}
		es, err := vroot.ReadDir(w.Sub, d)
		if err != nil || !slices.EqualFunc(es, want, func(e fs.DirEntry, s string) bool { return e.Name() == s }) {
			w.fatal("%s: ReadDir %s gives %d entries, %v; want %d", when, d, len(es), err, len(want))
		}
		i := vt.Pick(rt, n+2000, "one") % max(len(want), 1)
		if len(want) > 0 {
			p := path.Join(d, want[i])
			ri, rerr := w.Ref.Lstat(p)
			si, serr := w.Sub.Lstat(p)
			if rerr != nil || serr != nil || ri.Mode().Type() != si.Mode().Type() || ri.Mode().IsRegular() && ri.Size() != si.Size() || si.Name() != want[i] {
				w.fatal("%s: lstat %s: %v, %v; want %v, %v", when, p, si, serr, ri, rerr)
			}
		}
	}
	look("filled")
	from, step := vt.Pick(rt, 3, "from"), vt.Of(rt, "each", 1, 2, 3)
	for i := from; i < n; i += step {
		if p := name(i); both("remove "+p, func(f FS) error { return f.Remove(p) }) {
			delete(have, path.Base(p))
		}
	}
	look("thinned")
	if to := path.Join(parent, "moved"); !w.O.NoRename && w.guard("rename", d, to) {
		if both("rename "+d, func(f FS) error { return f.Rename(d, to) }) {
			d = to
			look("moved")
		}
	}
	if w.guard("removeall", d) {
		both("removeall "+d, func(f FS) error { return f.RemoveAll(d) })
	}
	w.Compare("crowd in " + parent)
}

// deep makes a directory of many levels, and moves it and takes it away.
func (w *World) deep(parent, d string, both func(string, func(FS) error) bool) {
	rt := w.RT
	n := vt.Of(rt, "levels", 17, 33, 57)
	w.C.Log("%d levels in %s", n, d)
	w.C.Label("deep")
	rest := strings.TrimSuffix(strings.Repeat(vt.Of(rt, "level", "d", "level", "é")+"/", n), "/")
	content := []byte("at the bottom")
	both("mkdirall", func(f FS) error { return f.MkdirAll(path.Join(d, rest), 0o755) })
	both("fill", func(f FS) error { return vroot.WriteFile(f, path.Join(d, rest, "f"), content, 0o644) })
	look := func(when string) {
		p := path.Join(d, rest)
		for _, name := range []string{path.Join(p, "f"), path.Join(p, "..", path.Base(p), "f")} {
			if b, err := vroot.ReadFile(w.Sub, name); err != nil || string(b) != string(content) {
				w.fatal("%s: %d levels down: %q, %v", when, n, b, err)
			}
		}
		if got, err := list(w.Sub, p, -1, 0); err != nil || !slices.Equal(got, []string{"f"}) {
			w.fatal("%s: %d levels down there are %q, %v", when, n, got, err)
		}
		both("mkdirall again, "+when, func(f FS) error { return f.MkdirAll(p, 0o755) })
		both("mkdirall through a file, "+when, func(f FS) error { return f.MkdirAll(path.Join(p, "f", "x", "y"), 0o755) })
		for q := d; strings.HasPrefix(p, q+"/") && len(q) < len(p); q += "/" + strings.Split(p[len(q)+1:], "/")[0] {
			if fi, err := w.Sub.Lstat(q); err != nil || !fi.IsDir() || fi.Name() != path.Base(q) {
				w.fatal("%s: lstat %s: %v, %v", when, q, fi, err)
			}
		}
	}
	look("made")
	if to := path.Join(parent, "moved"); !w.O.NoRename && w.guard("rename", d, to) {
		both("rename "+d+" into itself", func(f FS) error { return f.Rename(d, path.Join(d, rest, "x")) })
		if both("rename "+d, func(f FS) error { return f.Rename(d, to) }) {
			d = to
			look("moved")
		}
	}
	if w.guard("removeall", d) {
		both("remove "+d, func(f FS) error { return f.Remove(d) })
		both("removeall "+d, func(f FS) error { return f.RemoveAll(d) })
	}
	w.Compare("many levels in " + parent)
}
