package overlayt

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// change is one call that changes the merged view.
type change struct {
	op   string
	p, q string
	flag int
	perm fs.FileMode
}

func (ch change) String() string {
	switch ch.op {
	case "open":
		return fmt.Sprintf("openfile %q %#x %v", ch.p, ch.flag, ch.perm)
	case "rename", "link", "symlink":
		return fmt.Sprintf("%s %q %q", ch.op, ch.p, ch.q)
	case "remove", "removeall":
		return fmt.Sprintf("%s %q", ch.op, ch.p)
	}
	return fmt.Sprintf("%s %q %v", ch.op, ch.p, ch.perm)
}

func (ch change) run(f *overlayfs.Fs) error {
	switch ch.op {
	case "open":
		h, err := f.OpenFile(ch.p, ch.flag, ch.perm)
		if err == nil {
			err = h.Close()
		}
		return err
	case "mkdir":
		return f.Mkdir(ch.p, ch.perm)
	case "mkdirall":
		return f.MkdirAll(ch.p, ch.perm)
	case "remove":
		return f.Remove(ch.p)
	case "removeall":
		return f.RemoveAll(ch.p)
	case "rename":
		return f.Rename(ch.p, ch.q)
	case "link":
		return f.Link(ch.p, ch.q)
	case "symlink":
		return f.Symlink(ch.p, ch.q)
	case "chmod":
		return f.Chmod(ch.p, ch.perm)
	case "chtimes":
		return f.Chtimes(ch.p, fsmodel.Stamp(900), fsmodel.Stamp(900))
	}
	panic(ch.op)
}

func genChange(rt *rapid.T, t fsmodel.Tree, names []string) change {
	var all, dirs, files []string
	for _, p := range t.Paths() {
		switch n := t[p]; {
		case n.Mode.IsDir():
			dirs = append(dirs, p)
		case n.Mode.IsRegular():
			files = append(files, p)
		}
		if p != "." {
			all = append(all, p)
		}
	}
	of := func(ps []string) string {
		if len(ps) == 0 {
			return vt.Of(rt, "name", names...)
		}
		return ps[vt.Pick(rt, len(ps), "of")]
	}
	fresh := func() string { return path.Join(of(dirs), vt.Of(rt, "name", names...)) }
	ch := change{
		op:   vt.Of(rt, "change", "rename", "rename", "rename", "rename", "open", "open", "mkdir", "mkdirall", "remove", "remove", "removeall", "link", "symlink", "chmod", "chtimes"),
		perm: vt.Of(rt, "perm", fs.FileMode(0o755), 0o700, 0o777),
	}
	switch ch.op {
	case "open":
		ch.flag = vt.Of(rt, "flag", os.O_RDWR|os.O_CREATE, os.O_WRONLY, os.O_RDWR|os.O_TRUNC, os.O_RDWR|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
		ch.p = vt.Of(rt, "at", of(files), of(files), fresh())
	case "mkdir":
		ch.p = fresh()
	case "mkdirall":
		ch.p = path.Join(fresh(), vt.Of(rt, "name", names...), vt.Of(rt, "name", names...))
	case "remove", "removeall", "chmod", "chtimes":
		ch.p = of(all)
	case "rename":
		ch.p, ch.q = vt.Of(rt, "from", of(all), of(all), of(dirs)), vt.Of(rt, "to", fresh(), fresh(), of(all))
	case "link":
		ch.p, ch.q = of(files), fresh()
	case "symlink":
		ch.p, ch.q = vt.Of(rt, "name", names...), fresh()
	}
	return ch
}

// sameOutcome says whether the tree is as allowed after a change cut short.
func acceptable(ch change, t, before, after fsmodel.Tree) string {
	a, b := t.Diff(before), t.Diff(after)
	if a == "" || b == "" {
		return ""
	}
	if ch.op == "removeall" || ch.op == "mkdirall" {
		// these are many changes, any number of which may have been made
		mixed := fsmodel.Tree{}
		for p, n := range t {
			x, okX := before[p]
			y, okY := after[p]
			if okX && n == x || okY && n == y {
				mixed[p] = n
			}
		}
		missing := ""
		for p, x := range before {
			if y, ok := after[p]; ok && x == y {
				if _, ok := t[p]; !ok {
					missing += "  " + p + " is missing\n"
				}
			}
		}
		if d := t.Diff(mixed) + missing; d != "" {
			return "in neither what it was nor what it was to become:\n" + d
		}
		return ""
	}
	return "neither what it was:\n" + a + "nor what it was to become:\n" + b
}

// A change cut short leaves what was there or what was asked for.
func TestC29_CutShort(t *testing.T) {
	vt.Check(t, vt.N(2500, 30000), "one change of the merged view, after a history of up to 7 calls, cut short by a crash, and failed by a single fault, at each call in turn it makes to the top layer or its store; non-trivial: the change makes three or more such calls and the layers below have names of their own", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"fsx"}, grow: 9, plain: true})
		defer s.release()
		top := s.layers[0]
		lowers := keep(rt, s)
		func() {
			w, end := start(rt, c, s, nil)
			defer end()
			for range vt.Pick(rt, 8, "before") {
				w.Step()
			}
		}()
		before, _, err := s.merged()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		before = noDirTimes(before)
		content, err := top.all()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		was := top.marks
		ch := genChange(rt, before, s.names)
		c.Log("%v", was)
		c.Log("then %v", ch)
		c.Label("%s", ch.op)

		// attempt runs the change on layers as they were, with a hook.
		attempt := func(hook func(call string, o fsx.Op) fsx.Verdict) (*overlayfs.Fs, error, func()) {
			dir, done := fsx.Scratch()
			if err := lay(dir, content); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			top.dir, top.marks = dir, was.clone()
			ov, err := s.open(nil)
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			top.marks.hook = func(call string) error { return hook("store."+call, fsx.Op{Mutate: true}).Err }
			top.hooked.SetHook(func(o fsx.Op) fsx.Verdict { return hook(o.String(), o) })
			err = ch.run(ov)
			top.marks.hook = nil
			top.hooked.SetHook(nil)
			return ov, err, done
		}
		snap := func(f *overlayfs.Fs, what string) fsmodel.Tree {
			t, err := fsmodel.Snap(f)
			if err != nil {
				rt.Fatalf("%s: the tree can not be read: %v", what, err)
			}
			return noDirTimes(t)
		}
		reopen := func(ov *overlayfs.Fs, what string) *overlayfs.Fs {
			if err := ov.Close(); err != nil {
				rt.Fatalf("%s: close: %v", what, err)
			}
			ov, err := s.open(nil)
			if err != nil {
				rt.Fatalf("%s: open again: %v", what, err)
			}
			swept(rt, s)
			return ov
		}

		var calls []string
		var kinds []fsx.Op
		ov, err, done := attempt(func(call string, o fsx.Op) fsx.Verdict {
			if o.Mutate {
				calls, kinds = append(calls, call), append(kinds, o)
			}
			return fsx.Verdict{}
		})
		after := snap(ov, "undisturbed")
		whole := err
		if err := ov.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
		done()
		c.Log("  = %v: %s", whole, strings.Join(calls, "; "))
		if whole != nil {
			if d := after.Diff(before); d != "" {
				rt.Fatalf("%v fails with %v and yet changes\n%s", ch, whole, d)
			}
			c.Label("fails by itself")
		}
		if len(calls) >= 3 && len(before) > 2 {
			c.NonTrivial()
		}
		if len(calls) > 40 {
			calls = calls[:40]
		}
		then := vt.Pick(rt, len(calls)+1, "go on after")
		for k := range calls {
			for _, crash := range []bool{true, false} {
				what := fmt.Sprintf("%v, one failing call: %s", ch, calls[k])
				if crash {
					what = fmt.Sprintf("%v, a crash before %s", ch, calls[k])
				} else if o := kinds[k]; k < len(calls)-1 && (o.Kind == "Chmod" || o.Kind == "Chtimes") {
					continue // attributes a copy can not be given are let go
				}
				n := 0
				fault := fsx.Vary(rt, fsx.ErrInjected)
				ov, err, done := attempt(func(call string, o fsx.Op) fsx.Verdict {
					if o.Mutate {
						n++
					}
					switch {
					case n > k+1 && crash, n == k+1 && o.Mutate && crash:
						return fsx.Verdict{Err: fsx.ErrCrash, Partial: o.N / 2}
					case n == k+1 && o.Mutate:
						return fsx.Verdict{Err: fault, Partial: o.N / 2}
					}
					return fsx.Verdict{}
				})
				if crash && n > k && err == nil && whole == nil && !tolerated(kinds[k:]) {
					rt.Fatalf("%s: is told done", what)
				}
				if !crash {
					live := snap(ov, what)
					if d := acceptable(ch, live, before, after); d != "" {
						rt.Fatalf("%s: returned %v, and the tree is %s", what, err, d)
					}
					if err == nil && whole == nil && live.Diff(after) != "" {
						rt.Fatalf("%s: is told done, but not all is:\n%s", what, live.Diff(after))
					}
					if t, err := top.all(); err != nil {
						rt.Fatalf("VT-ENV %v", err)
					} else if kinds[k].Kind != "Remove" {
						for p := range t {
							if strings.HasPrefix(p, "work/") {
								rt.Fatalf("%s: %s is left behind", what, p)
							}
						}
					}
					ov = reopen(ov, what)
					if d := snap(ov, what).Diff(live); d != "" {
						rt.Fatalf("%s: opened again it is another tree:\n%s", what, d)
					}
				} else {
					ov = reopen(ov, what)
				}
				got := snap(ov, what)
				if d := acceptable(ch, got, before, after); d != "" {
					rt.Fatalf("%s: opened again, the tree is %s\nthe top's marks: %v", what, d, top.marks)
				}
				w := &fsmodel.World{RT: rt, C: c, Tree: got, Linked: map[string]bool{}}
				sound(w, s, lowers, true)
				if whole == nil && got.Diff(before) == "" {
					// what was not done can be done now
					if err := ch.run(ov); err != nil {
						rt.Fatalf("%s: afterwards it can not be done: %v", what, err)
					}
					if d := snap(ov, what).Diff(after); d != "" {
						rt.Fatalf("%s: done afterwards it comes out different:\n%s", what, d)
					}
				}
				if err := ov.Close(); err != nil {
					rt.Fatalf("%s: close: %v", what, err)
				}
				if k == then && ch.op != "link" {
					c.Label("gone on with")
					c.Log("gone on with after: %s", what)
					w, end := start(rt, c, s, nil)
					for range 1 + vt.Pick(rt, 6, "then") {
						w.Step()
						if w.Parted {
							break
						}
					}
					end()
				}
				done()
			}
		}
	})
}

// tolerated reports whether all the calls are ones that may fail unnoticed.
func tolerated(ops []fsx.Op) bool {
	for _, o := range ops {
		if o.Kind != "Chmod" && o.Kind != "Chtimes" && o.Kind != "Remove" {
			return false
		}
	}
	return true
}
