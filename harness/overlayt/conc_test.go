package overlayt

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/vt"
)

// plan is a stack to build again and again: what is where.
type plan struct {
	layers []map[string]string // name to content; "/" marks directories
	marks  []*marks
	opt    *overlayfs.Option
}

func genPlan(rt *rapid.T, p *fsmodel.Program) *plan {
	pl := &plan{}
	if vt.Chance(rt, 4, "open files stay") {
		pl.opt = &overlayfs.Option{DisableOpenFileRemoval: true}
	}
	n := 2 + vt.Pick(rt, 2, "layers")
	for range n {
		pl.layers = append(pl.layers, map[string]string{})
		pl.marks = append(pl.marks, newMarks())
	}
	put := func(i int, name, content string) {
		if d := path.Dir(name); d != "." {
			pl.layers[i][d] = "/"
		}
		if _, ok := pl.layers[i][name]; !ok {
			pl.layers[i][name] = content
		}
	}
	for _, d := range p.Dirs {
		at := vt.Pick(rt, n, "layer")
		put(at, d, "/")
		if vt.Chance(rt, 2, "twice") {
			put(vt.Pick(rt, n, "layer"), d, "/")
		}
	}
	for k, f := range p.Files {
		for range 1 + vt.Pick(rt, 2, "holders") {
			i := vt.Of(rt, "layer", n-1, n-1, 1, 0)
			put(i, f, strings.Repeat(string(rune('a'+k)), 1+i+vt.Pick(rt, 3, "size")))
		}
	}
	for _, l := range p.Links {
		for range 1 + vt.Pick(rt, 2, "holders") {
			put(vt.Of(rt, "layer", n-1, n-1, 1, 0), l[0], ">"+l[1])
		}
	}
	// what a mask hides: names below that are not to be seen
	for _, name := range []string{"a", "b", "d/a", "d/b", "e/a"} {
		held := false
		for _, f := range p.Files {
			held = held || f == name
		}
		for _, l := range p.Links {
			held = held || l[0] == name
		}
		d := path.Dir(name)
		known := d == "."
		for _, x := range p.Dirs {
			known = known || x == d
		}
		if held || !known || !vt.Chance(rt, 2, "masked") {
			continue
		}
		put(n-1, name, "masked")
		pl.marks[0].wh[name] = true
	}
	return pl
}

func (pl *plan) String() string {
	var b strings.Builder
	for i, l := range pl.layers {
		fmt.Fprintf(&b, "layer %d: %v %v\n", i, l, pl.marks[i])
	}
	if pl.opt != nil {
		b.WriteString("open files stay\n")
	}
	return b.String()
}

func (pl *plan) build() (fsmodel.FS, func()) { return pl.buildWith(nil) }

// buildWith builds it of layers that pause.
func (pl *plan) buildWith(pause func()) (fsmodel.FS, func()) {
	var layers []*overlayfs.DataSource
	for i, l := range pl.layers {
		r := synthfs.NewRoot("m", nil)
		must := func(err error) {
			if err != nil {
				panic("VT-ENV " + err.Error())
			}
		}
		base := "."
		if i == 0 {
			must(r.Mkdir("merged", 0o755))
			base = "merged"
		}
		for _, dirs := range []bool{true, false} {
			for name, content := range l {
				if (content == "/") != dirs {
					continue
				}
				if dirs {
					must(r.Mkdir(path.Join(base, name), 0o755))
				} else if to, ok := strings.CutPrefix(content, ">"); ok {
					must(r.Symlink(to, path.Join(base, name)))
				} else {
					must(vroot.WriteFile(r, path.Join(base, name), []byte(content), fs.FileMode(0o644)))
				}
			}
		}
		w := vroot.Widen[vroot.File](r)
		if pause != nil {
			w = fsmodel.Slow(w, pause)
		}
		if i > 0 {
			layers = append(layers, overlayfs.NewDataSource(w))
			continue
		}
		d, err := overlayfs.NewDataSourceCanonicalStore(w, memStore{pl.marks[0].clone()})
		must(err)
		layers = append(layers, d)
	}
	ov, err := overlayfs.New(layers[0], layers[1:], pl.opt)
	if err != nil {
		panic("VT-ENV " + err.Error())
	}
	return asRooted(ov), func() { ov.Close() }
}

// Calls made side by side on an overlay are as if made one after another.
func TestC31_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one program of 2 to 4 goroutines of 1 to 4 calls on few names and shared handles of an overlay of two or three layers, run four times side by side, each run explained by an order of its calls on an overlay of its own; non-trivial: two calls of different goroutines were seen to overlap in time in one of the runs", func(rt *rapid.T, c *vt.Case) {
		p := fsmodel.GenProgram(rt, fsmodel.ProgramOpts{Routines: 4, Calls: 4, OpenRoot: openRoot})
		p.Given = true
		pl := genPlan(rt, p)
		c.Log("%s%s", pl, p)
		overlap := false
		for i := range 4 {
			fsys, end := pl.build()
			if i%2 == 1 {
				end()
				fsys, end = pl.buildWith(fsmodel.Pauses(uint64(vt.Pick(rt, 1<<20, "pauses"))))
			}
			done, tree, err := p.Concurrent(fsys)
			end()
			if err != nil {
				rt.Fatalf("run %d: %v\n%s", i, err, outs(done))
			}
			for _, d := range done {
				for _, e := range done {
					overlap = overlap || d.G != e.G && d.Start < e.End && e.Start < d.End
				}
			}
			ok, known, best := p.Explain(pl.build, done, tree, 20000, nil)
			switch {
			case !known:
				c.Label("search ran out")
			case !ok:
				rt.Fatalf("run %d: no order of the calls explains\n%sthe longest that fits:\n%s", i, outs(done), best)
			}
		}
		if overlap {
			c.Label("overlap")
			c.NonTrivial()
		}
	})
}

func outs(done []fsmodel.Done) string {
	var b strings.Builder
	for _, d := range done {
		fmt.Fprintf(&b, "  %d [%d,%d] %v = %s\n", d.G, d.Start, d.End, d.Call, d.Out)
	}
	return b.String()
}
