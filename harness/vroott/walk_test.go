package vroott

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

var errVisit = errors.New("visit failed")

// walkModel is what a walk over a snapshot has to see.
type walkModel struct {
	t       fsmodel.Tree
	resolve bool
	answer  map[string]error // what the visitor returns, by path
	broken  map[string]bool  // children whose Lstat fails
	noList  map[string]int   // directories whose listing fails, after so many entries
	seen    []string
	hops    int // the deepest sum of links followed
}

var errTooMuch = errors.New("too large a walk")

// realN follows links from a real path; ok is false if it leads nowhere real.
func (m *walkModel) realN(p string, max int) (string, int, bool) {
	if max <= 0 {
		return "", 200, false
	}
	n, in := m.t[p]
	if !in {
		return "", 0, false
	}
	if n.Mode&fs.ModeSymlink == 0 {
		return p, 0, true
	}
	if path.IsAbs(n.Target) {
		return "", 1, false
	}
	hops := 1
	q := path.Dir(p)
	for _, c := range strings.Split(n.Target, "/") {
		switch c {
		case "", ".":
			continue
		case "..":
			if q == "." {
				return "", hops, false
			}
			q = path.Dir(q)
			continue
		}
		if !m.t[q].Mode.IsDir() {
			return "", hops, false
		}
		r, h, ok := m.realN(path.Join(q, c), max-hops)
		hops += h
		if !ok {
			return "", hops, false
		}
		q = r
	}
	return q, hops, true
}

func (m *walkModel) visit(p, real string, n *fsmodel.Node, failed bool) error {
	line := fmt.Sprintf("%s (%s)", p, real)
	switch {
	case failed:
		line += " error"
	case n.Mode.IsRegular():
		line += fmt.Sprintf(" %v %d", n.Mode, len(n.Data))
	default:
		line += fmt.Sprintf(" %v", n.Mode.Type())
	}
	m.seen = append(m.seen, line)
	if len(m.seen) > 3000 {
		return errTooMuch
	}
	return m.answer[p]
}

func (m *walkModel) walk(p, real string, above []string, hops int) error {
	n := m.t[real]
	if m.resolve && n.Mode&fs.ModeSymlink != 0 {
		q, h, ok := m.realN(real, 100)
		hops += h
		m.hops = max(m.hops, hops)
		if !ok {
			return m.visit(p, real, nil, true)
		}
		real, n = q, m.t[q]
	}
	err := m.visit(p, real, &n, false)
	if !n.Mode.IsDir() || err != nil {
		if n.Mode.IsDir() && err == fs.SkipDir {
			return nil
		}
		return err
	}
	if slices.Contains(above, real) {
		return nil
	}
	above = append(slices.Clone(above), real)
	some, bad := m.noList[p]
	if bad {
		err := m.visit(p, real, nil, true)
		if err == fs.SkipDir {
			return nil
		}
		if err != nil {
			return err
		}
	}
	var kids []string
	for q := range m.t {
		if q != "." && path.Dir(q) == real {
			kids = append(kids, path.Base(q))
		}
	}
	slices.Sort(kids)
	if bad {
		kids = kids[:min(some, len(kids))]
	}
	for _, k := range kids {
		var err error
		if cp := path.Join(p, k); m.broken[cp] {
			err = m.visit(cp, path.Join(real, k), nil, true)
		} else {
			err = m.walk(cp, path.Join(real, k), above, hops)
		}
		if err == fs.SkipDir {
			break
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func TestC22_Walk(t *testing.T) {
	vt.Check(t, vt.N(6000, 60000), "one generated tree with links, a start, a visitor skipping or failing at generated paths and up to two calls failing, walked with and without following links; non-trivial: at least five visits, and a link followed to a directory, a skip or a failure among them", func(rt *rapid.T, c *vt.Case) {
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		var fsys fsmodel.FS
		var hooked *fsx.FS
		kind := vt.Of(rt, "kind", "hooked", "hooked", "osfs.Root", "osfs.Fs", "synthfs", "prefix")
		c.Label("kind %s", kind)
		c.Log("%s", kind)
		if kind == "synthfs" {
			fsys = synthfs.NewRoot("mem", nil)
		} else {
			dir, clear := fsx.Scratch()
			defer clear()
			h, err := fsx.New(dir)
			fail(err)
			defer h.Close()
			switch kind {
			case "hooked":
				fsys, hooked = h, h
			case "osfs.Root":
				r, err := osfs.NewRoot(dir)
				fail(err)
				defer r.Close()
				fsys = vroot.Widen[*osfs.File](r)
			case "osfs.Fs":
				r, err := osfs.NewFs(dir)
				fail(err)
				fsys = vroot.Widen[*osfs.File](r)
			case "prefix":
				fail(h.Mkdir("sub", 0o777))
				fsys, err = vroot.NewPathPrefixFs[vroot.File](h, "sub")
				fail(err)
			}
		}
		fail(fsmodel.Grow(rt, c, fsys, fsmodel.GrowOpts{Steps: 16, Out: kind != "osfs.Fs" && kind != "prefix"}))
		if vt.Chance(rt, 12, "many links") {
			// more of them side by side than may follow each other
			dir, to := vt.Of(rt, "in", ".", "many", "many"), vt.Of(rt, "to", "tf", "td")
			if dir != "." {
				fail(fsys.Mkdir(dir, 0o777))
			}
			f, err := fsys.Create(path.Join(dir, "tf"))
			fail(err)
			fail(f.Close())
			fail(fsys.Mkdir(path.Join(dir, "td"), 0o777))
			n := vt.Int(rt, 38, 60, "links")
			for i := range n {
				fail(fsys.Symlink(to, path.Join(dir, fmt.Sprintf("l%02d", i))))
			}
			c.Log("%d links to %s in %s", n, to, dir)
			c.Label("many links")
		}
		tree, err := fsmodel.Snap(fsys)
		fail(err)
		ps := tree.Paths()
		start := "."
		if vt.Chance(rt, 3, "start") {
			start = ps[vt.Pick(rt, len(ps), "at")]
		}
		m := &walkModel{t: tree, resolve: vt.Chance(rt, 2, "resolve"), answer: map[string]error{}, broken: map[string]bool{}, noList: map[string]int{}}
		for range vt.Pick(rt, 3, "answers") {
			p := ps[vt.Pick(rt, len(ps), "path")]
			if vt.Chance(rt, 3, "below") {
				p = path.Join(p, vt.Of(rt, "name", "a", "b", "c", "d"))
			}
			m.answer[p] = vt.Of(rt, "answer", fs.SkipDir, fs.SkipDir, fs.SkipDir, fs.SkipAll, errVisit)
		}
		if hooked != nil && vt.Chance(rt, 2, "fault") {
			for range 1 + vt.Pick(rt, 2, "faults") {
				p := ps[vt.Pick(rt, len(ps), "path")]
				if p == start || tree[p].Mode&fs.ModeSymlink != 0 {
					continue
				}
				if tree[p].Mode.IsDir() && vt.Chance(rt, 2, "list") {
					m.noList[p] = vt.Of(rt, "listed", 0, 0, 1, 2)
				} else if m.answer[p] != fs.SkipDir { // what it skips is not said
					m.broken[p] = true
				}
			}
		}
		if m.resolve && len(m.broken)+len(m.noList) > 0 {
			// these stand for a path, not for all the ways to it
			m.broken, m.noList = map[string]bool{}, map[string]int{}
		}
		for p := range m.noList {
			// the same visitor is asked twice about it
			if m.answer[p] != nil && m.answer[p] != errVisit {
				delete(m.answer, p)
			}
		}
		for p, e := range m.answer {
			c.Log("visit of %s answers %v", p, e)
		}
		want := m.walk(start, start, nil, 0)
		if want == errTooMuch || m.hops > 7 { // *os.Root follows no more than 8
			c.Label("too large")
			return
		}
		if hooked != nil {
			fault := fsx.Vary(rt, syscall.EIO)
			hooked.SetHook(func(o fsx.Op) fsx.Verdict {
				n, bad := m.noList[path.Clean(o.Path)]
				switch {
				case o.Kind == "Lstat" && m.broken[path.Clean(o.Path)],
					(o.Kind == "Open" || o.Kind == "OpenFile") && bad && n == 0,
					o.Kind == "File.ReadDir" && bad:
					return fsx.Verdict{Err: fault, Partial: n}
				}
				return fsx.Verdict{}
			})
		}
		if want == fs.SkipDir || want == fs.SkipAll {
			want = nil
		}
		visit := fsx.Vary(rt, errVisit, fs.ErrNotExist, fs.ErrExist)
		var seen []string
		got := vroot.WalkDir[vroot.File](fsys, start, &vroot.WalkOption{ResolveSymlink: m.resolve}, func(p, real string, d fs.FileInfo, err error) error {
			line := fmt.Sprintf("%s (%s)", p, real)
			switch {
			case err != nil:
				line += " error"
			case d == nil:
				line += " neither info nor error"
			case d.Mode().IsRegular():
				line += fmt.Sprintf(" %v %d", d.Mode(), d.Size())
			default:
				line += fmt.Sprintf(" %v", d.Mode().Type())
			}
			seen = append(seen, line)
			if len(seen) > 5000 {
				return errTooMuch
			}
			if m.answer[p] == errVisit {
				return visit
			}
			return m.answer[p]
		})
		if g, w := strings.Join(seen, "\n"), strings.Join(m.seen, "\n"); g != w {
			rt.Fatalf("walk from %q (resolve %v) of\n%s\nsaw\n%s\nwant\n%s", start, m.resolve, tree, g, w)
		}
		if !errors.Is(got, want) && got != want {
			rt.Fatalf("walk from %q: %v, want %v", start, got, want)
		}
		c.Label("resolve %v", m.resolve)
		c.Log("from %s resolve %v: %d visits, %v", start, m.resolve, len(seen), got)
		if len(seen) >= 5 && (m.hops > 0 || len(m.answer) > 0 || len(m.broken)+len(m.noList) > 0) {
			c.NonTrivial()
		}
	})
}
