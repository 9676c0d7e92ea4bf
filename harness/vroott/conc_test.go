package vroott

import (
	"fmt"
	"io/fs"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/vt"
)

func freshMem() (fsmodel.FS, func()) { return synthfs.NewRoot("mem", nil), func() {} }

// slowMem pauses wherever the file system calls what it was given.
func slowMem(seed uint64) (fsmodel.FS, func()) {
	c := slowClock(fsmodel.Pauses(seed))
	return synthfs.NewRoot("mem", &synthfs.Option{Clock: c, Allocator: slowAlloc{synthfs.NewMemAllocator(c), c}}), func() {}
}

type slowClock func()

func (c slowClock) Now() time.Time { c(); return time.Now() }

type slowAlloc struct {
	synthfs.FileViewAllocator
	p func()
}

func (a slowAlloc) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	a.p()
	v, err := a.FileViewAllocator.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	return slowView{v, a.p}, nil
}

type slowView struct {
	synthfs.FileView
	p func()
}

func (v slowView) Open(flag int) (vroot.File, error) {
	v.p()
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	return fsmodel.SlowFile(f, v.p), nil
}

func (v slowView) Stat() (fs.FileInfo, error) { v.p(); return v.FileView.Stat() }
func (v slowView) Close() error               { v.p(); return v.FileView.Close() }

// Calls made side by side on a synthfs tree are as if made one after another.
func TestC26_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "one program of 2 to 4 goroutines of 1 to 4 calls on few names and shared handles, run four times side by side, each run explained by an order of its calls on a tree of its own; non-trivial: two calls of different goroutines were seen to overlap in time in one of the runs", func(rt *rapid.T, c *vt.Case) {
		p := fsmodel.GenProgram(rt, fsmodel.ProgramOpts{Routines: 4, Calls: 4, OpenRoot: openRoot})
		c.Log("%s", p)
		overlap := false
		for i := range 4 {
			fsys, end := freshMem()
			if i%2 == 1 {
				fsys, end = slowMem(uint64(vt.Pick(rt, 1<<20, "pauses")))
			}
			done, tree, err := p.Concurrent(fsys)
			end()
			if err != nil {
				rt.Fatalf("run %d: %v\n%s", i, err, outs(done))
			}
			for _, d := range done {
				for _, e := range done {
					overlap = overlap || d.G != e.G && d.Start < e.End && e.Start < d.End
				}
			}
			ok, known, best := p.Explain(freshMem, done, tree, 20000, nil)
			switch {
			case !known:
				c.Label("search ran out")
			case !ok:
				rt.Fatalf("run %d: no order of the calls explains\n%sthe longest that fits:\n%s", i, outs(done), best)
			}
		}
		if overlap {
			c.Label("overlap")
			c.NonTrivial()
		}
	})
}

func outs(done []fsmodel.Done) string {
	var b strings.Builder
	for _, d := range done {
		fmt.Fprintf(&b, "  %d [%d,%d] %v = %s\n", d.G, d.Start, d.End, d.Call, d.Out)
	}
	return b.String()
}
