package overlayt

import (
	"errors"
	"fmt"
	"io/fs"
	"maps"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

func TestMain(m *testing.M) {
	syscall.Umask(0)
	os.Exit(m.Run())
}

// marks is what a layer's store holds; it outlives the stores opened over it.
type marks struct {
	mu     sync.Mutex
	wh, op map[string]bool
	// hook decides about each setter call; an error keeps it from being done.
	hook func(call string) error
}

func newMarks() *marks { return &marks{wh: map[string]bool{}, op: map[string]bool{}} }

func (m *marks) clone() *marks {
	m.mu.Lock()
	defer m.mu.Unlock()
	return &marks{wh: maps.Clone(m.wh), op: maps.Clone(m.op)}
}

func (m *marks) String() string {
	return fmt.Sprintf("whiteouts %q opaques %q", slices.Sorted(maps.Keys(m.wh)), slices.Sorted(maps.Keys(m.op)))
}

// memStore is a MetadataStore in memory, written to the interface's contract.
type memStore struct{ m *marks }

func cleanMark(name string) string { return strings.TrimPrefix(path.Clean("/"+name), "/") }

func (s memStore) set(call, name string, fn func(name string)) error {
	s.m.mu.Lock()
	defer s.m.mu.Unlock()
	if s.m.hook != nil {
		if err := s.m.hook(call + " " + name); err != nil {
			return err
		}
	}
	fn(cleanMark(name))
	return nil
}

func (s memStore) Load() (whiteouts, opaques []string, err error) {
	s.m.mu.Lock()
	defer s.m.mu.Unlock()
	return slices.Sorted(maps.Keys(s.m.wh)), slices.Sorted(maps.Keys(s.m.op)), nil
}

func (s memStore) SetWhiteout(name string) error {
	return s.set("SetWhiteout", name, func(name string) {
		under := func(n string, _ bool) bool { return n != name && (name == "" || strings.HasPrefix(n, name+"/")) }
		s.m.wh[name] = true
		delete(s.m.op, name)
		maps.DeleteFunc(s.m.wh, under)
		maps.DeleteFunc(s.m.op, under)
	})
}

func (s memStore) ClearWhiteout(name string) error {
	return s.set("ClearWhiteout", name, func(name string) { delete(s.m.wh, name) })
}

func (s memStore) SetOpaque(dir string) error {
	return s.set("SetOpaque", dir, func(dir string) { s.m.op[dir] = true })
}

func (s memStore) ClearOpaque(dir string) error {
	return s.set("ClearOpaque", dir, func(dir string) { delete(s.m.op, dir) })
}

func (s memStore) Close() error { return nil }

// layer is one of a stack: where its content is and what its store holds.
type layer struct {
	kind      string // "mem", "os" or "fsx"
	canonical bool
	frozen    bool // opened through a read-only view
	sqlite    bool // with the store that comes with it
	mem       *synthfs.Root
	dir       string
	hooked    *fsx.FS // of the last open, for kind fsx
	marks     *marks
}

// raw is the layer's file system, opened anew.
func (l *layer) raw() (fsmodel.FS, error) {
	switch l.kind {
	case "mem":
		return vroot.Widen[vroot.File](l.mem), nil
	case "fsx":
		f, err := fsx.New(l.dir)
		l.hooked = f
		return f, err
	default:
		r, err := osfs.NewRoot(l.dir)
		if err != nil {
			return nil, err
		}
		return vroot.Widen[*osfs.File](r), nil
	}
}

// source makes the overlay's view of it.
func (l *layer) source() (*overlayfs.DataSource, error) {
	f, err := l.raw()
	if err != nil {
		return nil, err
	}
	if l.frozen {
		f = vroot.Widen(vroot.NewReadOnlyFs(f))
	}
	if !l.canonical {
		return overlayfs.NewDataSource(f), nil
	}
	if l.sqlite {
		return overlayfs.NewDataSourceCanonical(f)
	}
	return overlayfs.NewDataSourceCanonicalStore(f, memStore{l.marks})
}

// sync brings what the layer's own store holds in line with its marks, or, if
// load, the other way around; no overlay may have it open.
func (l *layer) sync(load bool) error {
	if !l.sqlite {
		return nil
	}
	f, err := l.raw()
	if err != nil {
		return err
	}
	defer f.Close()
	st, err := overlayfs.NewMetadataStoreSQLite(f, "meta.sqlite3")
	if err != nil {
		return err
	}
	defer st.Close()
	if load {
		wh, op, err := st.Load()
		if err != nil {
			return err
		}
		hook := l.marks.hook
		l.marks = newMarks()
		l.marks.hook = hook
		for _, p := range wh {
			l.marks.wh[p] = true
		}
		for _, p := range op {
			l.marks.op[p] = true
		}
		return nil
	}
	// shortest first: a whiteout drops what is below
	for _, p := range slices.Sorted(maps.Keys(l.marks.wh)) {
		if err := st.SetWhiteout(p); err != nil {
			return err
		}
	}
	for _, p := range slices.Sorted(maps.Keys(l.marks.op)) {
		if err := st.SetOpaque(p); err != nil {
			return err
		}
	}
	return nil
}

// all is everything the layer's file system holds.
func (l *layer) all() (fsmodel.Tree, error) {
	if l.kind == "mem" {
		return fsmodel.Snap(l.mem2())
	}
	return fsmodel.SnapDir(l.dir)
}

func (l *layer) mem2() fsmodel.FS { return vroot.Widen[vroot.File](l.mem) }

// content is the part of it that counts.
func (l *layer) content() (fsmodel.Tree, error) {
	t, err := l.all()
	if err != nil || !l.canonical {
		return t, err
	}
	out := fsmodel.Tree{}
	for p, n := range t {
		if p == "merged" {
			out["."] = n
		} else if r, ok := strings.CutPrefix(p, "merged/"); ok {
			out[r] = n
		}
	}
	return out, nil
}

// image is a layer as the merge rules see it.
type image struct {
	tree   fsmodel.Tree
	wh, op map[string]bool
}

func (l *layer) image() (image, error) {
	t, err := l.content()
	if err != nil {
		return image{}, err
	}
	im := image{tree: t}
	if l.canonical {
		m := l.marks.clone()
		im.wh, im.op = m.wh, m.op
	}
	return im, nil
}

// merge is the merged view as the documentation tells it: each name is the
// shallowest layer's that has it; a whiteout hides it, and all below it, in
// deeper layers; an opaque mark keeps deeper layers from adding to a directory;
// and what is no directory in one layer hides what deeper layers have below.
func merge(layers []image) (out fsmodel.Tree, holders map[string][]int) {
	out, holders = fsmodel.Tree{}, map[string][]int{}
	key := func(p string) string {
		if p == "." {
			return ""
		}
		return p
	}
	var visit func(p string, cut int)
	visit = func(p string, cut int) {
		for i := 0; i <= cut; i++ {
			if layers[i].wh[key(p)] {
				cut = i
				break
			}
		}
		first := true
		for i := 0; i <= cut; i++ {
			n, ok := layers[i].tree[p]
			if !ok {
				continue
			}
			if first {
				out[p], first = n, false
			}
			if !n.Mode.IsDir() {
				cut = i - 1
				break
			}
			holders[p] = append(holders[p], i)
		}
		if first || !out[p].Mode.IsDir() {
			return
		}
		for i := 0; i <= cut; i++ {
			if layers[i].op[key(p)] {
				cut = i
				break
			}
		}
		holders[p] = slices.DeleteFunc(holders[p], func(i int) bool { return i > cut })
		names := map[string]bool{}
		for i := 0; i <= cut; i++ {
			for q := range layers[i].tree {
				if q != "." && path.Dir(q) == p {
					names[q] = true
				}
			}
		}
		for _, q := range slices.Sorted(maps.Keys(names)) {
			visit(q, cut)
		}
	}
	visit(".", len(layers)-1)
	return out, holders
}

// stack is the layers of one overlay, top first.
type stack struct {
	layers []*layer
	names  []string
	umask  fs.FileMode // of the top
	done   []func()
}

// mem reports whether a layer is in memory: hard links there take their own
// copy of mode and times.
func (s *stack) mem() bool {
	return slices.ContainsFunc(s.layers, func(l *layer) bool { return l.kind == "mem" })
}

func (s *stack) release() {
	for _, d := range s.done {
		d()
	}
}

func (s *stack) open(opt *overlayfs.Option) (*overlayfs.Fs, error) {
	var srcs []*overlayfs.DataSource
	for _, l := range s.layers {
		d, err := l.source()
		if err != nil {
			return nil, err
		}
		srcs = append(srcs, d)
	}
	return overlayfs.New(srcs[0], srcs[1:], opt)
}

func (s *stack) merged() (fsmodel.Tree, map[string][]int, error) {
	var ims []image
	for _, l := range s.layers {
		im, err := l.image()
		if err != nil {
			return nil, nil, err
		}
		ims = append(ims, im)
	}
	t, h := merge(ims)
	return t, h, nil
}

func (s *stack) add(l *layer) error {
	switch l.kind {
	case "mem":
		umask := s.umask
		if len(s.layers) > 0 {
			umask = 0
		}
		l.mem = synthfs.NewRoot("mem", &synthfs.Option{Umask: &umask, MaskChmodMode: func(m fs.FileMode) fs.FileMode {
			return m & (fs.ModePerm | fs.ModeSticky)
		}})
	default:
		dir, done := fsx.Scratch()
		s.done = append(s.done, done)
		if err := os.Chmod(dir, 0o777); err != nil {
			return err
		}
		l.dir = dir
	}
	l.marks = newMarks()
	s.layers = append(s.layers, l)
	if !l.canonical {
		return nil
	}
	f, err := l.raw()
	if err != nil {
		return err
	}
	defer f.Close()
	return errors.Join(f.Mkdir("merged", 0o777), f.Mkdir("work", 0o777))
}

var names = []string{"a", "b", "c", "d"}

// near are names whose paths sort or begin alike.
var near = [][]string{names, names, {"a", "ab", "a.b", "b"}, {"a", "a0", "ab", "c"}}

type stackOpts struct {
	lower   string   // what every lower layer is made of
	top     []string // kinds the top may be
	grow    int
	noLinks bool
	sqlite  bool
	umask   bool // the top may have one, if it is in memory
	plain   bool // no sticky directories
}

// genStack makes a top and up to three lowers, all with content and marks.
func genStack(rt *rapid.T, c *vt.Case, o stackOpts) *stack {
	s := &stack{names: vt.From(rt, near, "names")}
	if o.umask {
		s.umask = vt.Of(rt, "umask", fs.FileMode(0), 0o022, 0o077, 0o027)
	}
	fail := func(err error) {
		if err != nil {
			s.release()
			rt.Fatalf("VT-ENV %v", err)
		}
	}
	n := 2 + vt.Pick(rt, 3, "lowers")
	for i := range n {
		l := &layer{kind: vt.Of(rt, "kind", "mem", "mem", "os")}
		if o.lower != "" {
			l.kind = o.lower
		}
		l.canonical = vt.Of(rt, "canonical", false, true)
		if i == 0 {
			l.kind, l.canonical = vt.Of(rt, "kind", o.top...), true
			if l.kind != "mem" {
				s.umask = 0
			}
		}
		fail(s.add(l))
		l.frozen = i > 0 && vt.Chance(rt, 4, "frozen")
		f, err := l.raw()
		fail(err)
		root := f
		if l.canonical {
			root, err = vroot.NewPathPrefixFs(f, "merged")
			fail(err)
		}
		c.Log("layer %d: %s canonical=%v frozen=%v", i, l.kind, l.canonical, l.frozen)
		if i > 0 || vt.Of(rt, "filled", true, false) {
			fail(fsmodel.Grow(rt, c, root, fsmodel.GrowOpts{Steps: o.grow, Names: s.names, NoLinks: o.noLinks}))
		}
		t, err := l.content()
		fail(err)
		var dirs []string
		for _, p := range t.Paths() {
			if t[p].Mode.IsDir() {
				dirs = append(dirs, p)
				if !o.plain && p != "." && vt.Chance(rt, 5, "sticky") {
					fail(root.Chmod(p, t[p].Mode.Perm()|fs.ModeSticky))
				}
			} else if t[p].Mode.IsRegular() && vt.Chance(rt, 3, "stamp") {
				tm := fsmodel.Fine(int64(500 + i))
				fail(root.Chtimes(p, tm, tm))
			}
		}
		if l.canonical {
			for range vt.Of(rt, "marks", 0, 1, 1, 2, 3) {
				// on names the layer has and on others
				var key string
				opaque := vt.Of(rt, "opaque", false, true)
				if opaque && vt.Chance(rt, 2, "own") {
					key = dirs[vt.Pick(rt, len(dirs), "mark")]
				} else {
					key = path.Join(dirs[vt.Pick(rt, len(dirs), "mark")], vt.Of(rt, "name", s.names...))
					if vt.Chance(rt, 4, "deep") {
						key = path.Join(key, vt.Of(rt, "name", s.names...))
					}
				}
				key = cleanMark(key)
				if opaque {
					l.marks.op[key] = true
				} else {
					l.marks.wh[key] = true
				}
			}
			if len(l.marks.wh)+len(l.marks.op) > 0 {
				c.Log("  %v", l.marks)
			}
		}
		fail(f.Close())
	}
	// marks on or below what is no directory mean nothing; no overlay leaves them
	t, _, err := s.merged()
	fail(err)
	for _, l := range s.layers {
		idle := func(p string) bool {
			for ; p != "." && p != ""; p = path.Dir(p) {
				if n, ok := t[p]; ok && !n.Mode.IsDir() {
					return true
				}
			}
			return false
		}
		maps.DeleteFunc(l.marks.wh, func(p string, _ bool) bool { return idle(path.Dir(p)) })
		maps.DeleteFunc(l.marks.op, func(p string, _ bool) bool { return idle(p) })
		l.sqlite = o.sqlite && l.canonical
		fail(l.sync(false))
	}
	return s
}

// lay makes the tree below a directory.
func lay(dir string, t fsmodel.Tree) error {
	for _, p := range t.Paths() {
		n, full := t[p], filepath.Join(dir, p)
		var err error
		switch {
		case p == ".":
			err = os.Chmod(full, n.Mode&(fs.ModePerm|fs.ModeSticky))
		case n.Mode.IsDir():
			err = errors.Join(os.Mkdir(full, n.Mode.Perm()), os.Chmod(full, n.Mode&(fs.ModePerm|fs.ModeSticky)))
		case n.Mode&fs.ModeSymlink != 0:
			err = os.Symlink(n.Target, full)
		default:
			err = os.WriteFile(full, []byte(n.Data), n.Mode.Perm())
			if err == nil && n.Mtime != 0 {
				err = os.Chtimes(full, fsmodel.At(n.Mtime), fsmodel.At(n.Mtime))
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// rooted carries a root whose own type hides behind vroot.Fs[vroot.File].
type rooted struct {
	fsmodel.FS
	openRoot func(name string) (fsmodel.FS, error)
}

func asRooted(r *overlayfs.Fs) fsmodel.FS {
	return rooted{r, func(name string) (fsmodel.FS, error) {
		s, err := r.OpenRoot(name)
		if err != nil {
			return nil, err
		}
		return asRooted(s), nil
	}}
}

func openRoot(fsys fsmodel.FS, name string) (fsmodel.FS, error) {
	switch r := fsys.(type) {
	case *fsx.FS:
		return r.OpenRoot(name)
	case fsx.Masked:
		s, err := r.OpenRoot(name)
		if err != nil {
			return nil, err
		}
		return s, nil
	case rooted:
		return r.openRoot(name)
	}
	panic(fmt.Sprintf("VT-ENV no root: %T", fsys))
}

// reference is *os.Root over a directory holding the tree.
func reference(rt *rapid.T, t fsmodel.Tree) (*fsx.FS, string, func()) {
	dir, done := fsx.Scratch()
	if err := lay(dir, t); err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	r, err := fsx.New(dir)
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	return r, dir, func() { _ = r.Close(); done() }
}
