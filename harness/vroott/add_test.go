package vroott

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// view counts what the tree does to the view it carries.
type view struct {
	synthfs.FileView
	id      int
	data    *[]byte // what reading it has to give
	rw      bool
	closed  int
	opens   int
	handles int
	failing bool
	badStat bool
}

var errView = errors.New("view fails")

func (v *view) Close() error { v.closed++; return v.FileView.Close() }

func (v *view) Open(flag int) (vroot.File, error) {
	if v.failing {
		return nil, errView
	}
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	v.opens++
	v.handles++
	return &viewFile{f, v, false}, nil
}

func (v *view) Stat() (fs.FileInfo, error) {
	if v.badStat {
		return nil, errView
	}
	return v.FileView.Stat()
}

type viewFile struct {
	vroot.File
	v      *view
	closed bool
}

func (f *viewFile) Close() error {
	if !f.closed {
		f.closed = true
		f.v.handles--
	}
	return f.File.Close()
}

// allocator hands out counted views, or fails.
type allocator struct {
	under synthfs.FileViewAllocator
	views []*view
	fail  bool
	open  bool // views whose first Open fails
}

func (a *allocator) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	if a.fail {
		return nil, errView
	}
	u, err := a.under.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	v := &view{FileView: u, id: len(a.views), data: new([]byte), rw: true, failing: a.open}
	a.views = append(a.views, v)
	return v, nil
}

// mnode is an entry of the tree as it ought to be.
type mnode struct {
	mode   fs.FileMode // type and permission
	target string
	view   *view     // a counted one
	data   []byte    // without a counted view
	mtime  time.Time // zero: not looked at
}

type mtree map[string]*mnode

func (m mtree) kids(p string) (out []string) {
	for q := range m {
		if q != "." && path.Dir(q) == p {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}

func (m mtree) drop(p string) {
	for q := range m {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(m, q)
		}
	}
}

func (m mtree) sorted(f func(p string, n *mnode) bool) (out []string) {
	for p, n := range m {
		if p != "." && f(p, n) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// source is a file system to add, with what is in it.
func source(rt *rapid.T, c *vt.Case) (fsys fs.FS, tree fsmodel.Tree, kind string, links bool, done func()) {
	kind = vt.Of(rt, "source", "os", "os", "os without links", "synthfs", "map", "zip")
	c.Label("source %s", kind)
	links = kind == "os" || kind == "synthfs"
	dir, clear := fsx.Scratch()
	h, err := fsx.New(dir)
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	if err := fsmodel.Grow(rt, c, h, fsmodel.GrowOpts{Steps: 10, NoLinks: !links}); err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	tree, err = fsmodel.SnapDir(dir)
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	_ = h.Close()
	done = clear
	switch kind {
	case "os":
		fsys = os.DirFS(dir)
	case "os without links":
		fsys = struct{ fs.FS }{os.DirFS(dir)}
	case "synthfs":
		umask := fs.FileMode(0)
		r := synthfs.NewRoot("src", &synthfs.Option{Umask: &umask})
		if err := fill(r, tree); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		if err := r.Chmod(".", tree["."].Mode.Perm()); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		fsys = vroot.ToIoFsRoot[vroot.File](r)
	case "map":
		m := fstest.MapFS{}
		for p, n := range tree {
			m[p] = &fstest.MapFile{Data: []byte(n.Data), Mode: n.Mode, ModTime: fsmodel.Stamp(int64(len(p)))}
		}
		fsys = m
	case "zip":
		var b bytes.Buffer
		w := zip.NewWriter(&b)
		for _, p := range tree.Paths() {
			if p == "." {
				continue
			}
			h := &zip.FileHeader{Name: p, Modified: fsmodel.Stamp(int64(len(p)))}
			if tree[p].Mode.IsDir() {
				h.Name += "/"
			}
			h.SetMode(tree[p].Mode)
			f, err := w.CreateHeader(h)
			if err == nil {
				_, err = io.WriteString(f, tree[p].Data)
			}
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		_ = w.Close()
		r, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		fsys = r
		n := tree["."]
		n.Mode = fs.ModeDir | 0o555
		tree["."] = n
	}
	return fsys, tree, kind, links, done
}

// held is a handle kept over what happens to the tree.
type held struct {
	f    vroot.File
	v    *view
	data []byte // of an uncounted view
	off  int
	path string
}

func (h *held) want() []byte {
	if h.v != nil {
		return *h.v.data
	}
	return h.data
}

// A synthfs tree shows each view's bytes where it was put, closes it with its
// last name, and adds trees the way the resolver says.
func TestC25_Add(t *testing.T) {
	vt.Check(t, vt.N(5000, 50000), "one history of 6 to 29 AddFile, AddFS and ordinary calls on a synthfs tree with counted views and a resolver, compared with a model after each; non-trivial: a conflict resolved, a view closed and an AddFS that worked among them", func(rt *rapid.T, c *vt.Case) {
		umask := vt.Of(rt, "umask", fs.FileMode(0), 0o022, 0o077)
		al := &allocator{under: synthfs.NewMemAllocator(nil)}
		var views []*view
		r := synthfs.NewRoot("mem", &synthfs.Option{Umask: &umask, Allocator: al})
		m := mtree{".": {mode: fs.ModeDir | 0o777&^umask}}
		var hs []*held
		conflicts, added := 0, 0

		check := func(after string) {
			t.Helper()
			got, err := fsmodel.Snap(r)
			if err != nil {
				rt.Fatalf("%s: %v", after, err)
			}
			want := fsmodel.Tree{}
			for p, n := range m {
				e := fsmodel.Node{Mode: n.mode, Target: n.target}
				if n.mode&fs.ModeSymlink != 0 {
					e.Mode = fs.ModeSymlink
				}
				e.Data = string(n.data)
				if n.view != nil {
					e.Data = string(*n.view.data)
				}
				want[p] = e
			}
			for p, n := range got {
				n.Mtime = 0
				got[p] = n
			}
			if d := got.Diff(want); d != "" {
				rt.Fatalf("%s:\n%s", after, d)
			}
			for p, n := range m {
				if !n.mtime.IsZero() {
					fi, err := r.Lstat(p)
					if err != nil || !fi.ModTime().Equal(n.mtime) {
						rt.Fatalf("%s: %s is of %v, %v, want %v", after, p, fi.ModTime(), err, n.mtime)
					}
				}
			}
			bound := map[*view]int{}
			for _, n := range m {
				if n.view != nil {
					bound[n.view]++
				}
			}
			for _, v := range append(views, al.views...) {
				if want := 0; bound[v] == 0 {
					want = 1
					if v.closed != want {
						rt.Fatalf("%s: view %d, in the tree no more, was closed %d times", after, v.id, v.closed)
					}
				} else if v.closed != 0 {
					rt.Fatalf("%s: view %d was closed under one of its %d names", after, v.id, bound[v])
				}
				held := 0
				for _, h := range hs {
					if h.v == v {
						held++
					}
				}
				if v.handles != held {
					rt.Fatalf("%s: view %d has %d open files, want %d", after, v.id, v.handles, held)
				}
			}
		}
		pathIn := func(what string) string {
			ds := m.sorted(func(p string, n *mnode) bool { return n.mode.IsDir() && strings.Count(p, "/") < 3 })
			d := "."
			if len(ds) > 0 && vt.Chance(rt, 2, what+" in") {
				d = ds[vt.Pick(rt, len(ds), what+" dir")]
			}
			return path.Join(d, vt.Of(rt, what, "a", "b", "c", "d", "e"))
		}
		existing := func(what string, f func(p string, n *mnode) bool) string {
			ps := m.sorted(f)
			if len(ps) == 0 {
				return ""
			}
			return ps[vt.Pick(rt, len(ps), what)]
		}
		any := func(string, *mnode) bool { return true }
		isFile := func(p string, n *mnode) bool { return n.mode.IsRegular() }
		// parents makes what leads to p; "" if it can, what is in the way if not.
		parents := func(p string, make bool) (inWay string, missing bool) {
			var up []string
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				up = append([]string{d}, up...)
			}
			for _, d := range up {
				n := m[d]
				switch {
				case n == nil && make:
					m[d] = &mnode{mode: fs.ModeDir | 0o755&^umask}
				case n == nil:
					return "", true
				case !n.mode.IsDir():
					return d, false
				}
			}
			return "", false
		}
		// byLink tells of a name below a link that leads somewhere, which would
		// land where the link leads.
		byLink := func(p string) bool {
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				if n := m[d]; n != nil && n.mode&fs.ModeSymlink != 0 {
					if _, err := r.Stat(d); err == nil {
						return true
					}
				}
			}
			return false
		}
		var decided []string
		resolver := func() (synthfs.AddFunc, func(p string, dir bool, old *mnode) (synthfs.AddDecision, bool), string) {
			kind := vt.Of(rt, "resolver", "nil", "MergeOverwrite", "MergeKeep", "FailOnConflict", "some", "some")
			salt := vt.Pick(rt, 1000, "salt")
			bad := vt.Pick(rt, 12, "bad")
			pick := func(p string, dir bool) (synthfs.AddDecision, error) {
				h := uint32(salt)
				for _, b := range []byte(p) {
					h = h*31 + uint32(b)
				}
				h ^= h >> 7
				if bad == 0 && h%9 == 0 {
					return 0, errView
				}
				if dir {
					return synthfs.AddDecision([]int{0, 1, 1, 2, 1, 2}[h%6]), nil
				}
				return synthfs.AddDecision(h % 3), nil
			}
			var real synthfs.AddFunc
			switch kind {
			case "MergeOverwrite":
				real = synthfs.MergeOverwrite
			case "MergeKeep":
				real = synthfs.MergeKeep
			case "FailOnConflict":
				real = synthfs.FailOnConflict
			case "some":
				real = func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
					return pick(in.Path(), in.Info().IsDir())
				}
			}
			model := func(p string, dir bool, old *mnode) (synthfs.AddDecision, bool) {
				both := old != nil && dir && old.mode.IsDir()
				if old != nil {
					conflicts++
				}
				switch {
				case kind == "some":
					d, err := pick(p, dir)
					return d, err == nil
				case old == nil:
					return synthfs.AddDecisionOverride, true
				case both || kind == "MergeKeep":
					return synthfs.AddDecisionKeep, true
				case kind == "FailOnConflict":
					return 0, false
				}
				return synthfs.AddDecisionOverride, true
			}
			if real == nil {
				return nil, model, kind
			}
			return func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
				s := in.Path() + " " + infoText(in.Info(), true)
				if ex != nil {
					s += " over " + ex.Path() + " " + infoText(ex.Info(), true)
				}
				decided = append(decided, s)
				return real(in, ex)
			}, model, kind
		}
		nodeText := func(p string, n *mnode) string {
			s := p + " " + n.mode.String()
			if n.mode.IsRegular() {
				d := n.data
				if n.view != nil {
					d = *n.view.data
				}
				s += fmt.Sprintf(" %d", len(d))
			}
			return s
		}

		for range 6 + vt.Pick(rt, 24, "steps") {
			op := vt.Of(rt, "op", "AddFile", "AddFile", "AddFS", "AddFS", "create", "mkdir", "symlink", "link", "link", "rename", "rename", "remove", "removeall", "open", "open", "write", "close", "read", "failing create")
			c.Label("%s", op)
			var err error
			desc := op
			switch op {
			case "AddFile":
				v := newView(rt, len(views))
				p := pathIn("name")
				if vt.Chance(rt, 4, "deep") {
					p = path.Join(p, vt.Of(rt, "name", "a", "b", "x"), vt.Of(rt, "name", "a", "b"))
				}
				if byLink(p) {
					continue
				}
				cb, model, kind := resolver()
				v.badStat = vt.Chance(rt, 20, "bad stat")
				desc = fmt.Sprintf("AddFile %s view %d (%d bytes) %s", p, v.id, len(*v.data), kind)
				c.Log("%s", desc)
				decided = nil
				err = r.AddFile(p, v, cb)
				if v.badStat {
					v.badStat = false
					if !errors.Is(err, errView) {
						rt.Fatalf("%s: %v, want the error of the view", desc, err)
					}
					break
				}
				if way, _ := parents(p, true); way != "" {
					if err == nil {
						rt.Fatalf("%s: worked although %s is in the way", desc, way)
					}
					break
				}
				old := m[p]
				st, _ := v.Stat()
				if cb != nil {
					want := p + " " + infoText(st, true)
					if old != nil {
						want += " over " + nodeText(p, old)
					}
					if got := strings.Join(decided, "|"); got != want {
						rt.Fatalf("%s: asked about %q, want %q", desc, got, want)
					}
				}
				d, ok := model(p, false, old)
				if !ok {
					if err == nil || kind == "FailOnConflict" && !errors.Is(err, fs.ErrExist) {
						rt.Fatalf("%s: %v, want a refusal", desc, err)
					}
					break
				}
				if err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				if d == synthfs.AddDecisionOverride {
					m.drop(p)
					m[p] = &mnode{mode: st.Mode().Perm(), view: v, mtime: st.ModTime()}
					views = append(views, v)
				} else if v.closed > 0 {
					rt.Fatalf("%s: a view that was not taken was closed", desc)
				}
			case "AddFS":
				src, tree, kind, links, done := source(rt, c)
				defer done()
				p := "."
				if !vt.Chance(rt, 3, "root") {
					p = pathIn("name")
					if vt.Chance(rt, 4, "deep") {
						p = path.Join(p, "x", "y")
					}
				}
				if byLink(p) {
					continue
				}
				cb, model, rk := resolver()
				desc = fmt.Sprintf("AddFS %s of %s %s", p, kind, rk)
				c.Log("%s", desc)
				decided = nil
				err = r.AddFS(p, src, cb)
				if p != "." {
					if way, _ := parents(p, true); way != "" {
						if err == nil {
							rt.Fatalf("%s: worked although %s is in the way", desc, way)
						}
						break
					}
				}
				var asked []string
				stop := false
				var walk func(at, s string)
				kids := func(at, s string) {
					for _, q := range tree.Paths() {
						if q != "." && path.Dir(q) == s && !stop {
							walk(path.Join(at, path.Base(q)), q)
						}
					}
				}
				walk = func(at, s string) {
					n := tree[s]
					fi, err := lstatIn(src, s, links || kind == "map")
					if err != nil {
						rt.Fatalf("VT-ENV %v", err)
					}
					old := m[at]
					line := at + " " + infoText(fi, true)
					if old != nil {
						line += " over " + nodeText(at, old)
					}
					asked = append(asked, line)
					d, ok := model(at, n.Mode.IsDir(), old)
					switch {
					case !ok:
						stop = true
					case d == synthfs.AddDecisionSkip:
					case n.Mode.IsDir() && d == synthfs.AddDecisionKeep && old != nil && old.mode.IsDir():
						kids(at, s)
					case n.Mode.IsDir() && d == synthfs.AddDecisionKeep && old != nil:
					case n.Mode.IsDir():
						m.drop(at)
						m[at] = &mnode{mode: fs.ModeDir | fi.Mode().Perm(), mtime: fi.ModTime()}
						kids(at, s)
					case d == synthfs.AddDecisionKeep:
					case n.Mode&fs.ModeSymlink != 0:
						m.drop(at)
						m[at] = &mnode{mode: fi.Mode(), target: n.Target, mtime: fi.ModTime()}
					default:
						m.drop(at)
						m[at] = &mnode{mode: fi.Mode().Perm(), data: []byte(n.Data), mtime: fi.ModTime()}
					}
				}
				if p == "." {
					kids(".", ".")
				} else {
					walk(p, ".")
				}
				if stop != (err != nil) {
					rt.Fatalf("%s: %v, want an error: %v", desc, err, stop)
				}
				if cb != nil && strings.Join(asked, "\n") != strings.Join(decided, "\n") {
					rt.Fatalf("%s: asked about\n%s\nwant\n%s", desc, strings.Join(decided, "\n"), strings.Join(asked, "\n"))
				}
				if err == nil {
					added++
				}
			case "create", "failing create":
				p := pathIn("name")
				if m[p] != nil || len(al.views) > 30 {
					continue
				}
				if op == "failing create" {
					al.fail = vt.Chance(rt, 2, "allocate")
					al.open = !al.fail
					_, err = r.Create(p)
					desc = "failing create " + p
					c.Log("%s", desc)
					al.fail, al.open = false, false
					if !errors.Is(err, errView) {
						rt.Fatalf("%s: %v, want the error of the allocator or view", desc, err)
					}
					break
				}
				desc = "create " + p
				c.Log("%s", desc)
				perm := vt.Of(rt, "perm", fs.FileMode(0o666), 0o600, 0o777)
				f, err := r.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, perm)
				if err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				v := al.views[len(al.views)-1]
				m[p] = &mnode{mode: perm &^ umask, view: v}
				hs = append(hs, &held{f: f, v: v, path: p})
			case "mkdir":
				p := pathIn("name")
				desc = "mkdir " + p
				if m[p] != nil {
					continue
				}
				c.Log("%s", desc)
				if err = r.Mkdir(p, 0o777); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				m[p] = &mnode{mode: fs.ModeDir | 0o777&^umask}
			case "symlink":
				p := pathIn("name")
				if m[p] != nil {
					continue
				}
				to := vt.Of(rt, "to", "nowhere", "a", "../b", "/x")
				desc = "symlink " + to + " " + p
				c.Log("%s", desc)
				if err = r.Symlink(to, p); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				m[p] = &mnode{mode: fs.ModeSymlink | 0o777, target: to}
			case "link":
				from, to := existing("from", isFile), pathIn("to")
				if from == "" || m[to] != nil {
					continue
				}
				desc = "link " + from + " " + to
				c.Log("%s", desc)
				if err = r.Link(from, to); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				cp := *m[from]
				m[to] = &cp
			case "rename":
				from, to := existing("from", any), pathIn("to")
				if from == "" || strings.HasPrefix(to+"/", from+"/") {
					continue
				}
				if o := m[to]; o != nil && (o.mode.IsDir() || m[from].mode.IsDir() || o.view != nil && o.view == m[from].view || o.view == nil && m[from].view == nil) {
					continue // the rules of replacing are C24's
				}
				desc = "rename " + from + " " + to
				c.Log("%s", desc)
				if err = r.Rename(from, to); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				m.drop(to)
				for _, q := range m.sorted(any) {
					if q == from || strings.HasPrefix(q, from+"/") {
						m[to+strings.TrimPrefix(q, from)] = m[q]
						delete(m, q)
					}
				}
			case "remove", "removeall":
				p := existing("what", any)
				if p == "" {
					continue
				}
				desc = op + " " + p
				c.Log("%s", desc)
				if op == "remove" {
					if err = r.Remove(p); (err == nil) != (len(m.kids(p)) == 0) {
						rt.Fatalf("%s: %v with %d entries below", desc, err, len(m.kids(p)))
					}
				} else if err = r.RemoveAll(p); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				if err == nil {
					m.drop(p)
				}
			case "open":
				p := existing("what", isFile)
				if p == "" || len(hs) > 6 {
					continue
				}
				n := m[p]
				flag := vt.Of(rt, "flag", os.O_RDONLY, os.O_RDWR, os.O_WRONLY|os.O_TRUNC, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.O_RDWR|os.O_APPEND)
				desc = fmt.Sprintf("open %s %#x", p, flag)
				c.Log("%s", desc)
				f, err := r.OpenFile(p, flag, 0o666)
				rw := n.view != nil && n.view.rw
				if flag != os.O_RDONLY && !rw {
					if !errors.Is(err, syscall.EROFS) || f != nil {
						rt.Fatalf("%s of a read-only view: %v, want EROFS", desc, err)
					}
					break
				}
				if err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
				if flag&os.O_TRUNC != 0 {
					*n.view.data = nil
				}
				h := &held{f: f, v: n.view, data: n.data, path: p}
				if flag&3 == os.O_RDONLY || flag&3 == os.O_RDWR {
					hs = append(hs, h)
				} else if err := f.Close(); err != nil {
					rt.Fatalf("%s: close: %v", desc, err)
				}
				_ = flag
				if flag&3 != os.O_RDONLY {
					n.mtime = time.Time{}
				}
			case "write":
				if len(hs) == 0 {
					continue
				}
				h := hs[vt.Pick(rt, len(hs), "handle")]
				if h.v == nil || !h.v.rw {
					continue
				}
				b := bytes.Repeat([]byte{byte('0' + len(*h.v.data)%10)}, 1+vt.Pick(rt, 9, "n"))
				off := vt.Pick(rt, len(*h.v.data)+4, "off")
				n, err := h.f.WriteAt(b, int64(off))
				desc = fmt.Sprintf("write %d at %d of view %d", len(b), off, h.v.id)
				c.Log("%s: %v", desc, err)
				if err != nil { // read-only or append
					break
				}
				if n != len(b) {
					rt.Fatalf("%s: %d", desc, n)
				}
				d := *h.v.data
				for len(d) < off+len(b) {
					d = append(d, 0)
				}
				copy(d[off:], b)
				*h.v.data = d
			case "close", "read":
				if len(hs) == 0 {
					continue
				}
				i := vt.Pick(rt, len(hs), "handle")
				h := hs[i]
				desc = op + " of a handle of " + h.path
				c.Log("%s", desc)
				if op == "close" {
					if err := h.f.Close(); err != nil {
						rt.Fatalf("%s: %v", desc, err)
					}
					hs = append(hs[:i], hs[i+1:]...)
					break
				}
				b := make([]byte, 1+vt.Pick(rt, 400, "n"))
				n, err := h.f.Read(b)
				w := h.want()
				w = w[min(h.off, len(w)):]
				w = w[:min(len(w), len(b))]
				if !bytes.Equal(b[:n], w) || err != nil && (err != io.EOF || len(w) > 0 && n < len(w)) || err == nil && n == 0 {
					rt.Fatalf("%s at %d: %q, %v, want %q", desc, h.off, b[:n], err, w)
				}
				h.off += n
				off := vt.Pick(rt, len(h.want())+1, "off") // fstest.MapFS takes no more
				n, err = h.f.ReadAt(b, int64(off))
				if h.v == nil && errors.Is(err, vroot.ErrOpNotSupported) {
					break // a file in a zip
				}
				w = h.want()[min(off, len(h.want())):]
				w = w[:min(len(w), len(b))]
				if !bytes.Equal(b[:n], w) || n < len(b) && err != io.EOF || n == len(b) && err != nil && err != io.EOF {
					rt.Fatalf("%s: ReadAt %d: %q, %v, want %q", desc, off, b[:n], err, w)
				}
				if end, err := h.f.Seek(0, io.SeekEnd); err != nil || end != int64(len(h.want())) {
					rt.Fatalf("%s: its end is %d, %v, want %d", desc, end, err, len(h.want()))
				}
				if _, err := h.f.Seek(int64(h.off), io.SeekStart); err != nil {
					rt.Fatalf("%s: seek: %v", desc, err)
				}
				if fi, err := h.f.Stat(); err != nil || fi.Size() != int64(len(h.want())) {
					rt.Fatalf("%s: stat: %v, %v, want size %d", desc, fi, err, len(h.want()))
				}
			}
			check(desc)
		}
		closedViews := 0
		for _, v := range append(views, al.views...) {
			closedViews += v.closed
		}
		if conflicts > 0 && added > 0 && closedViews > 0 {
			c.NonTrivial()
		}
		export(rt, c, r, m)
		// all of it goes
		for _, p := range m.kids(".") {
			if err := r.RemoveAll(p); err != nil {
				rt.Fatalf("removeall %s: %v", p, err)
			}
			m.drop(p)
		}
		check("the end")
	})
}

func lstatIn(fsys fs.FS, p string, links bool) (fs.FileInfo, error) {
	if links {
		return fs.Lstat(fsys, p)
	}
	return fs.Stat(fsys, p)
}

// newView is a view over bytes, a file of an fs.FS, or a range of another.
func newView(rt *rapid.T, id int) *view {
	n := vt.Of(rt, "len", 1, 2, 10, 300, 0)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+id)%26)
	}
	mode := vt.Of(rt, "mode", fs.FileMode(0o444), 0o644, 0o600, 0o755)
	mt := fsmodel.Stamp(int64(1 + id%900))
	v := &view{id: id, data: &b}
	switch kind := vt.Of(rt, "view", "bytes", "fs", "range", "range", "range of range"); {
	case kind == "bytes" || n == 0 && kind != "fs":
		v.FileView = synthfs.NewBytesView(b, mode, mt)
	case kind == "fs":
		u, err := synthfs.NewFsView(fstest.MapFS{"d/f": {Data: b, Mode: mode, ModTime: mt}}, "d/f")
		if err != nil {
			rt.Fatalf("NewFsView: %v", err)
		}
		v.FileView = u
	default:
		before, after := vt.Pick(rt, 5, "before"), vt.Pick(rt, 5, "after")
		all := append(append(bytes.Repeat([]byte{'<'}, before), b...), bytes.Repeat([]byte{'>'}, after)...)
		inner := synthfs.NewBytesView(all, mode, mt)
		off := before
		if kind == "range of range" {
			cut := vt.Pick(rt, before+1, "cut")
			u, err := synthfs.NewRangedView(inner, int64(cut), int64(len(all)-cut))
			if err != nil {
				rt.Fatalf("NewRangedView: %v", err)
			}
			inner, off = u, before-cut
		}
		u, err := synthfs.NewRangedView(inner, int64(off), int64(n))
		if err != nil {
			rt.Fatalf("NewRangedView: %v", err)
		}
		v.FileView = u
	}
	return v
}

// export puts the tree into archives, whose entries then have to be the tree's.
func export(rt *rapid.T, c *vt.Case, r *synthfs.Root, m mtree) {
	iofs := vroot.ToIoFsRoot[vroot.File](r)
	if vt.Chance(rt, 2, "tar") {
		c.Label("tar")
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		if err := w.AddFS(iofs); err != nil {
			rt.Fatalf("tar: %v", err)
		}
		if err := w.Close(); err != nil {
			rt.Fatalf("tar: %v", err)
		}
		seen := 0
		for tr := tar.NewReader(&b); ; seen++ {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				rt.Fatalf("tar: %v", err)
			}
			n := m[path.Clean(h.Name)]
			if n == nil {
				rt.Fatalf("tar: unexpected %q", h.Name)
			}
			data, _ := io.ReadAll(tr)
			fi := h.FileInfo()
			if fi.Mode().Type() != n.mode.Type() || n.mode&fs.ModeSymlink == 0 && fi.Mode() != n.mode || h.Linkname != n.target {
				rt.Fatalf("tar: %s is %v %q, want %v %q", h.Name, fi.Mode(), h.Linkname, n.mode, n.target)
			}
			if w := n.bytes(); n.mode.IsRegular() && !bytes.Equal(data, w) {
				rt.Fatalf("tar: %s holds %q, want %q", h.Name, data, w)
			}
		}
		if seen != len(m)-1 && seen != len(m) {
			rt.Fatalf("tar: %d entries of %d", seen, len(m)-1)
		}
		return
	}
	for _, n := range m {
		if n.mode&fs.ModeSymlink != 0 {
			return // zip takes none
		}
	}
	c.Label("zip")
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	if err := w.AddFS(iofs); err != nil {
		rt.Fatalf("zip: %v", err)
	}
	if err := w.Close(); err != nil {
		rt.Fatalf("zip: %v", err)
	}
	zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		rt.Fatalf("zip: %v", err)
	}
	for p, n := range m {
		if !n.mode.IsRegular() {
			continue
		}
		got, err := fs.ReadFile(zr, p)
		if err != nil || !bytes.Equal(got, n.bytes()) {
			rt.Fatalf("zip: %s holds %q, %v, want %q", p, got, err, n.bytes())
		}
	}
	if err := fstest.TestFS(iofs, noDot(m.sorted(func(string, *mnode) bool { return true }))...); err != nil {
		rt.Fatalf("fstest: %v", err)
	}
}

func (n *mnode) bytes() []byte {
	if n.view != nil {
		return *n.view.data
	}
	return n.data
}
