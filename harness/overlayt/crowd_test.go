package overlayt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// Directories of many entries are merged like those of few.
func TestC27_Crowd(t *testing.T) {
	vt.Check(t, vt.N(60, 600), "2 to 4 layers, each with its share of 70 to 1100 entries of one directory and whiteouts on some below, listed in every way, thinned and taken away; non-trivial: an entry masked and one in two layers", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"mem", "os"}, grow: 2, noLinks: true, plain: true})
		defer s.release()
		n := vt.Of(rt, "entries", 70, 257, 520, 1100)
		name := func(i int) string { return fmt.Sprintf("x%04d", i) }
		twice := 0
		for i, l := range s.layers {
			f, err := l.raw()
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			dir := "crowd"
			if l.canonical {
				dir = "merged/crowd"
			}
			if err := f.MkdirAll(dir, 0o755); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			from, step := vt.Pick(rt, n, "from"), vt.Of(rt, "each", 1, 2, 3)
			for k := from; k < from+n*2/3; k += step {
				p := path.Join(dir, name(k%n))
				switch (k + i) % 9 {
				case 3:
					err = f.Mkdir(p, 0o755)
				default:
					err = vroot.WriteFile(f, p, []byte{byte('0' + i)}, 0o644)
				}
				if err != nil && !errors.Is(err, fs.ErrExist) && !errors.Is(err, vroot.ErrPathEscapes) {
					rt.Fatalf("VT-ENV %v", err)
				}
				twice++
			}
			if l.canonical && i < len(s.layers)-1 {
				for k := range vt.Of(rt, "marks", 0, 5, 100, 300) {
					l.marks.wh["crowd/"+name((k*3+from)%n)] = true
				}
			}
			// what a mark stands beside is its layer's own
			if err := f.Close(); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			if err := l.sync(false); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		tree, _, err := s.merged()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		var want []string
		masked := false
		for i := range n {
			p := "crowd/" + name(i)
			if _, ok := tree[p]; ok {
				want = append(want, name(i))
			} else {
				masked = true
			}
		}
		if masked && twice > n {
			c.NonTrivial()
		}
		ov, err := s.open(nil)
		if err != nil {
			rt.Fatalf("open: %v", err)
		}
		defer ov.Close()
		look := func(when string) {
			by := vt.Of(rt, "by", -1, 1, 7, 100, 256)
			f, err := ov.Open("crowd")
			if err != nil {
				rt.Fatalf("%s: %v", when, err)
			}
			defer f.Close()
			var got []string
			for {
				es, err := f.ReadDir(by)
				for _, e := range es {
					got = append(got, e.Name())
					if n := tree["crowd/"+e.Name()]; n.Mode.Type() != e.Type() {
						rt.Fatalf("%s: %s is a %v, want %v", when, e.Name(), e.Type(), n.Mode.Type())
					}
				}
				if err == io.EOF || err == nil && by < 0 {
					break
				}
				if err != nil {
					rt.Fatalf("%s: %v", when, err)
				}
			}
			slices.Sort(got)
			if !slices.Equal(got, want) {
				rt.Fatalf("%s: listed by %d there are %d entries, want %d", when, by, len(got), len(want))
			}
		}
		look("at first")
		for _, e := range want[:min(len(want), 40)] {
			if m := tree["crowd/"+e]; m.Mode.IsRegular() {
				b, err := vroot.ReadFile(ov, "crowd/"+e)
				if err != nil || string(b) != m.Data {
					rt.Fatalf("%s reads %q, %v, want %q", e, b, err, m.Data)
				}
			}
		}
		each := vt.Of(rt, "thin", 1, 2, 5)
		var left []string
		for i, e := range want {
			if i%each == 0 {
				if err := ov.Remove("crowd/" + e); err != nil {
					rt.Fatalf("remove %s: %v", e, err)
				}
				continue
			}
			left = append(left, e)
		}
		want = left
		look("thinned")
		if err := ov.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
		if ov, err = s.open(nil); err != nil {
			rt.Fatalf("open: %v", err)
		}
		look("opened again")
		if err := ov.RemoveAll("crowd"); err != nil {
			rt.Fatalf("removeall: %v", err)
		}
		if err := ov.Mkdir("crowd", 0o755); err != nil {
			rt.Fatalf("mkdir: %v", err)
		}
		want = nil
		look("made anew")
	})
}
