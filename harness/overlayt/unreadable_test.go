package overlayt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// A change that can not read what it has to know is not made, or made right.
func TestC29_Unreadable(t *testing.T) {
	vt.Check(t, vt.N(1200, 20000), "one change of the merged view, after a history of up to 7 calls, failed by a single fault at each call in turn with which it reads a layer, top or lower; non-trivial: some such call reads a lower layer", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"fsx"}, lower: "fsx", grow: 9, plain: true})
		defer s.release()
		top := s.layers[0]
		lowers := keep(rt, s)
		func() {
			w, end := start(rt, c, s, nil)
			defer end()
			for range vt.Pick(rt, 8, "before") {
				w.Step()
			}
		}()
		var ch change
		if vt.Chance(rt, 5, "onto") {
			// a directory that may be moved, and one that is there to be replaced
			ov, err := s.open(nil)
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			t, _, err := s.merged()
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			var dirs []string
			for _, p := range t.Paths() {
				if t[p].Mode.IsDir() && p != "." {
					dirs = append(dirs, p)
				}
			}
			p := vt.Of(rt, "name", s.names...)
			if err := ov.Mkdir(p, 0o755); err == nil && len(dirs) > 0 {
				ch = change{op: "rename", p: p, q: dirs[vt.Pick(rt, len(dirs), "of")]}
			}
			if err := ov.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
		}
		before, _, err := s.merged()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		before = noDirTimes(before)
		content, err := top.all()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		was := top.marks
		if ch.op == "" {
			ch = genChange(rt, before, s.names)
		}
		c.Log("%v", was)
		c.Log("then %v", ch)
		c.Label("%s", ch.op)
		attempt := func(hook func(layer int, o fsx.Op) fsx.Verdict) (*overlayfs.Fs, error, func()) {
			dir, done := fsx.Scratch()
			if err := lay(dir, content); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			top.dir, top.marks = dir, was.clone()
			ov, err := s.open(nil)
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			for i, l := range s.layers {
				l.hooked.SetHook(func(o fsx.Op) fsx.Verdict { return hook(i, o) })
			}
			err = ch.run(ov)
			for _, l := range s.layers {
				l.hooked.SetHook(nil)
			}
			return ov, err, done
		}
		snap := func(f *overlayfs.Fs, what string) fsmodel.Tree {
			t, err := fsmodel.Snap(f)
			if err != nil {
				rt.Fatalf("%s: the tree can not be read: %v", what, err)
			}
			return noDirTimes(t)
		}
		reads := func(o fsx.Op) bool { return !o.Mutate }
		var calls []fsx.Op
		var at []int
		ov, whole, done := attempt(func(layer int, o fsx.Op) fsx.Verdict {
			if reads(o) {
				calls, at = append(calls, o), append(at, layer)
			}
			return fsx.Verdict{}
		})
		after := snap(ov, "undisturbed")
		if err := ov.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
		done()
		c.Log("  = %v, after %d reads", whole, len(calls))
		step := 1 + len(calls)/30
		for k := vt.Pick(rt, step, "from"); k < len(calls); k += step {
			what := fmt.Sprintf("%v, layer %d fails %v", ch, at[k], calls[k])
			if at[k] > 0 {
				c.NonTrivial()
				c.Label("below: %s", calls[k].Kind)
			} else {
				c.Label("top: %s", calls[k].Kind)
			}
			n := 0
			fault := fsx.Vary(rt, fsx.ErrInjected)
			ov, err, done := attempt(func(_ int, o fsx.Op) fsx.Verdict {
				if reads(o) {
					n++
					if n == k+1 {
						return fsx.Verdict{Err: fault, Partial: o.N / 2}
					}
				}
				return fsx.Verdict{}
			})
			live := snap(ov, what)
			if d := acceptable(ch, live, before, after); d != "" {
				rt.Fatalf("%s: returned %v, and the tree is %s", what, err, d)
			}
			if err == nil && whole == nil && live.Diff(after) != "" {
				rt.Fatalf("%s: is told done, but not all is:\n%s", what, live.Diff(after))
			}
			if err == nil && whole != nil {
				rt.Fatalf("%s: is told done, what fails with %v otherwise", what, whole)
			}
			if t, err := top.all(); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			} else {
				for p := range t {
					if strings.HasPrefix(p, "work/") {
						rt.Fatalf("%s: %s is left behind", what, p)
					}
				}
			}
			if err := ov.Close(); err != nil {
				rt.Fatalf("%s: close: %v", what, err)
			}
			if ov, err = s.open(nil); err != nil {
				rt.Fatalf("%s: open again: %v", what, err)
			}
			if d := snap(ov, what).Diff(live); d != "" {
				rt.Fatalf("%s: opened again it is another tree:\n%s", what, d)
			}
			w := &fsmodel.World{RT: rt, C: c, Tree: live, Linked: map[string]bool{}}
			sound(w, s, lowers, true)
			if whole == nil && live.Diff(before) == "" {
				if err := ch.run(ov); err != nil {
					rt.Fatalf("%s: afterwards it can not be done: %v", what, err)
				}
				if d := snap(ov, what).Diff(after); d != "" {
					rt.Fatalf("%s: done afterwards it comes out different:\n%s", what, d)
				}
			}
			if err := ov.Close(); err != nil {
				rt.Fatalf("%s: close: %v", what, err)
			}
			done()
		}
	})
}

// A look at the view says that it could not see, or all there is.
func TestC27_Unreadable(t *testing.T) {
	vt.Check(t, vt.N(1500, 20000), "looks at names of a stack of layers (lstat, stat, readlink, readdir by name and by handle, read), each failed by a single fault at each call in turn it makes to a layer; non-trivial: three or more looks whose answer came from a layer below the top", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"fsx"}, lower: "fsx", grow: 10, plain: true})
		defer s.release()
		tree, _, err := s.merged()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		paths := tree.Paths()
		ov, err := s.open(nil)
		if err != nil {
			rt.Fatalf("open: %v", err)
		}
		defer ov.Close()
		below := 0
		for range vt.Int(rt, 3, 12, "looks") {
			p := paths[vt.Pick(rt, len(paths), "of")]
			if vt.Chance(rt, 4, "other") {
				p = path.Join(p, vt.Of(rt, "name", s.names...))
			}
			op := vt.Of(rt, "look", "lstat", "stat", "readlink", "list", "handle", "in pieces", "read", "openroot")
			look := func() (string, error) {
				info := func(fi fs.FileInfo, err error) (string, error) {
					if err != nil {
						return "", err
					}
					return fmt.Sprint(fi.Name(), fi.Mode(), fi.Size(), fi.ModTime()), nil
				}
				list := func(es []fs.DirEntry, err error) (string, error) {
					var out []string
					for _, e := range es {
						out = append(out, e.Name()+" "+e.Type().String())
					}
					slices.Sort(out)
					return strings.Join(out, ","), err
				}
				switch op {
				case "lstat":
					return info(ov.Lstat(p))
				case "stat":
					return info(ov.Stat(p))
				case "readlink":
					return ov.ReadLink(p)
				case "list":
					return list(vroot.ReadDir(ov, p))
				case "openroot":
					sub, err := ov.OpenRoot(p)
					if err != nil {
						return "", err
					}
					defer sub.Close()
					return list(vroot.ReadDir(sub, "."))
				}
				f, err := ov.Open(p)
				if err != nil {
					return "", err
				}
				defer f.Close()
				switch op {
				case "handle":
					return list(f.ReadDir(-1))
				case "in pieces":
					var all []fs.DirEntry
					for {
						es, err := f.ReadDir(1)
						all = append(all, es...)
						if err == io.EOF {
							return list(all, nil)
						}
						if err != nil {
							return "", err
						}
					}
				}
				b, err := io.ReadAll(f)
				return string(b), err
			}
			n, k, lower := 0, -1, false
			fault := fsx.Vary(rt, fsx.ErrInjected)
			var hit string
			hook := func(i int, o fsx.Op) fsx.Verdict {
				n++
				lower = lower || i > 0
				if n == k+1 {
					hit = fmt.Sprintf("layer %d fails %v", i, o)
					return fsx.Verdict{Err: fault, Partial: o.N / 2}
				}
				return fsx.Verdict{}
			}
			for i, l := range s.layers {
				l.hooked.SetHook(func(o fsx.Op) fsx.Verdict { return hook(i, o) })
			}
			want, werr := look()
			calls := n
			c.Label("%s", op)
			c.Log("%s %q = %v, %d calls", op, p, werr, calls)
			if lower && werr == nil {
				below++
			}
			for k = range min(calls, 25) {
				n, hit = 0, ""
				got, err := look()
				switch {
				case werr == nil && err == nil && got != want:
					rt.Fatalf("%s %q where %s: %q; it is %q", op, p, hit, got, want)
				case werr != nil && err == nil:
					rt.Fatalf("%s %q where %s: %q; otherwise it fails with %v", op, p, hit, got, werr)
				case werr == nil && errors.Is(err, fs.ErrNotExist):
					rt.Fatalf("%s %q where %s: %v; it is there", op, p, hit, err)
				}
			}
			for _, l := range s.layers {
				l.hooked.SetHook(nil)
			}
		}
		if below >= 3 {
			c.NonTrivial()
		}
	})
}
