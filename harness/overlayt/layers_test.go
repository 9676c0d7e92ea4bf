package overlayt

import (
	"maps"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/vt"
)

// kept is what a lower was like in the beginning.
type kept struct {
	tree fsmodel.Tree
	m    *marks
}

func keep(rt *rapid.T, s *stack) []kept {
	var out []kept
	for _, l := range s.layers[1:] {
		t, err := l.all()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		out = append(out, kept{t, l.marks.clone()})
	}
	return out
}

func noDirTimes(t fsmodel.Tree) fsmodel.Tree {
	out := fsmodel.Tree{}
	for p, n := range t {
		if n.Mode.IsDir() {
			n.Mtime = 0
		}
		out[p] = n
	}
	return out
}

// files leaves a database and its journal out, which opening writes to.
func files(t fsmodel.Tree) fsmodel.Tree {
	out := fsmodel.Tree{}
	for p, n := range t {
		if !strings.HasPrefix(p, "meta.sqlite3") {
			out[p] = n
		}
	}
	return out
}

// sound checks what holds of the layers at any time.
func sound(w *fsmodel.World, s *stack, lowers []kept, marksKnown bool) {
	rt := w.RT
	for i, k := range lowers {
		l := s.layers[i+1]
		t, err := l.all()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		if d := files(t).Diff(files(k.tree)); d != "" {
			rt.Fatalf("lower %d was changed:\n%s", i, d)
		}
		if marksKnown && (!maps.Equal(l.marks.wh, k.m.wh) || !maps.Equal(l.marks.op, k.m.op)) {
			rt.Fatalf("the marks of lower %d were changed: %v, was %v", i, l.marks, k.m)
		}
	}
	t, err := s.layers[0].all()
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	linked := s.mem() && len(w.Linked) > 0
	for p, n := range t {
		r, in := strings.CutPrefix(p, "merged/")
		switch {
		case in:
			v, ok := w.Tree[r]
			if n.Mode.IsDir() || linked {
				n.Mtime, v.Mtime = 0, 0
			}
			if !ok || n != v {
				rt.Fatalf("the top holds %s, %v, where the merged view has %v (%v)", r, n, v, ok)
			}
		case p != "." && p != "merged" && p != "work" && !(s.layers[0].sqlite && strings.HasPrefix(p, "meta.sqlite3")):
			rt.Fatalf("the top holds %s, which no caller put there", p)
		}
	}
	if !marksKnown {
		return
	}
	view, _, err := s.merged()
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	want := noDirTimes(w.Tree)
	view = noDirTimes(view)
	if linked {
		for p, n := range want {
			if v, ok := view[p]; ok {
				v.Mtime = n.Mtime
				view[p] = v
			}
		}
	}
	if d := view.Diff(want); d != "" {
		rt.Fatalf("what layers and stores hold does not merge to what is seen:\n%s\nthe top's marks: %v", d, s.layers[0].marks)
	}
}

// pokeLower tries to write through the handle of a file only lowers hold.
func pokeLower(w *fsmodel.World, s *stack) {
	rt := w.RT
	top, err := s.layers[0].content()
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	var of []string
	for _, p := range w.Tree.Paths() {
		if _, ok := top[p]; !ok && w.Tree[p].Mode.IsRegular() {
			of = append(of, p)
		}
	}
	if len(of) == 0 {
		return
	}
	p := of[vt.Pick(rt, len(of), "poke")]
	f, err := w.Sub.Open(p)
	if err != nil {
		rt.Fatalf("open %q: %v", p, err)
	}
	defer f.Close()
	w.C.Label("write tried through a lower's handle")
	for what, fn := range map[string]func() error{
		"write":       func() error { _, err := f.Write([]byte("x")); return err },
		"writeat":     func() error { _, err := f.WriteAt([]byte("x"), 0); return err },
		"writestring": func() error { _, err := f.WriteString("x"); return err },
		"truncate":    func() error { return f.Truncate(0) },
		"chmod":       func() error { return f.Chmod(0o600) },
	} {
		if err := fn(); err == nil {
			rt.Fatalf("%s through a handle opened for reading on %q, which only a lower holds, is done", what, p)
		}
	}
}

func TestC28_Layers(t *testing.T) {
	vt.Check(t, vt.N(1200, 12000), "one history of 5 to 24 calls through an overlay with a store in memory, closed and opened again now and then, at last stacked as a lower below a new top and gone on with; non-trivial: three or more calls changed the tree and the overlay was opened again", func(rt *rapid.T, c *vt.Case) {
		layersHistory(rt, c, stackOpts{top: []string{"mem", "mem", "os"}, grow: 10}, 20)
	})
}

func TestC28_SQLite(t *testing.T) {
	vt.Check(t, vt.N(400, 6000), "as before with the store that comes with a layer, in its own file system, shorter; non-trivial: as before", func(rt *rapid.T, c *vt.Case) {
		layersHistory(rt, c, stackOpts{top: []string{"mem", "mem", "os"}, grow: 8, sqlite: true}, 10)
	})
}

func layersHistory(rt *rapid.T, c *vt.Case, o stackOpts, steps int) {
	s := genStack(rt, c, o)
	defer s.release()
	lowers := keep(rt, s)
	w, end := start(rt, c, s, nil)
	defer end()
	reopened := 0
	w.O.AfterStep = func(w *fsmodel.World) {
		sound(w, s, lowers, !o.sqlite)
		if vt.Chance(rt, 4, "poke") {
			pokeLower(w, s)
			sound(w, s, lowers, !o.sqlite)
		}
	}
	// reopen closes the overlay, lets change do what it likes and opens it again
	reopen := func(change func()) {
		reopened++
		w.Restart(func() fsmodel.FS {
			if err := w.Sub.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
			for i, l := range s.layers {
				if err := l.sync(true); err != nil {
					rt.Fatalf("store of layer %d: %v", i, err)
				}
			}
			sound(w, s, lowers, true)
			change()
			ov, err := s.open(nil)
			if err != nil {
				rt.Fatalf("the layers can not be stacked again: %v", err)
			}
			return asRooted(ov)
		})
	}
	run := func(n int) {
		for range n {
			w.Step()
			if w.Parted {
				return
			}
			if vt.Chance(rt, 6, "reopen") {
				c.Log("close and open")
				reopen(func() {
					if !vt.Chance(rt, 2, "litter") {
						return
					}
					f, err := s.layers[0].raw()
					if err != nil {
						rt.Fatalf("VT-ENV %v", err)
					}
					defer f.Close()
					for _, n := range []string{"tmp-1", "tmp-2"} {
						if err := vroot.WriteFile(f, "work/"+n, []byte("left behind"), 0o600); err != nil {
							rt.Fatalf("VT-ENV %v", err)
						}
					}
					if err := f.MkdirAll("work/x/y", 0o755); err != nil {
						rt.Fatalf("VT-ENV %v", err)
					}
				})
				swept(rt, s)
			}
		}
	}
	run(5 + vt.Pick(rt, steps, "steps"))
	if w.Parted {
		return
	}
	if vt.Of(rt, "restack", true, true, false) {
		c.Log("stacked below a new top")
		c.Label("restacked")
		reopen(func() {
			old := s.layers[0]
			top := &layer{kind: vt.Of(rt, "kind", o.top...), canonical: true, sqlite: o.sqlite}
			olds := s.layers
			s.layers = nil
			if err := s.add(top); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			s.layers = append(s.layers, olds...)
			old.frozen = vt.Of(rt, "frozen", true, false)
			f, err := top.raw()
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			defer f.Close()
			if err := f.Chmod("merged", w.Tree["."].Mode.Perm()); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			lowers = keep(rt, s)
		})
		if len(w.Linked) == 0 { // copying one name up leaves the other behind
			run(vt.Pick(rt, 6, "more"))
		}
	}
	if !w.Parted && w.Mutated >= 3 && reopened > 0 {
		c.NonTrivial()
	}
}

// swept checks that nothing staged by an earlier run is left.
func swept(rt *rapid.T, s *stack) {
	t, err := s.layers[0].all()
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	for p := range t {
		if strings.HasPrefix(p, "work/") {
			rt.Fatalf("%s is left in the staging directory", p)
		}
	}
}
