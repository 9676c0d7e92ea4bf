package fsmodel

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// Opts says what a history may hold and which differences are not findings.
type Opts struct {
	NoLink, NoSymlink, NoChmod, NoChtimes, NoHandles, NoRename, NoEscape, NoDress bool
	NoRemoveAllErr                                                                bool
	// Chown changes owners, to what they are. Bits lets a chmod ask for more than
	// permissions.
	Chown, Bits bool
	// Coarse times are whole seconds.
	Coarse bool
	// Same reports whether two different error classes count as one for op.
	Same func(op, desc, ref, sub string) bool
	// Give up the case when this says the histories may part here for a reason
	// that is no finding.
	Part func(op, ref, sub string) bool
	// DropMtime says whether the subject need not keep a node's mtime.
	DropMtime func(p string, n Node, w *World) bool
	Targets   []string
	Names     []string
	MaxDepth  int
	// AfterStep runs after every compared step.
	AfterStep func(w *World)
	// TameTargets keeps symlink targets inside: lexically below the root.
	TameTargets bool
	// CleansPaths: the subject takes x/.. out of paths before it looks at x.
	CleansPaths bool
	// OpenRoot opens a sub-root of either side.
	OpenRoot func(fsys FS, name string) (FS, error)
	// ByPath: a directory's handle and a sub-root stand for the path they were
	// opened at; they are let go when something else is there.
	ByPath bool
	// Keep says whether the handle of an open may be used any further.
	Keep func(w *World, p string, flag int) bool
	// Stale is given the sub-roots let go, with the path they were opened at.
	Stale func(w *World, sub FS, p string)
	// Guard vetoes an operation before it is run.
	Guard func(w *World, op string, paths ...string) bool
	// Crowd is how rare a step is at which a directory of many entries comes
	// and goes, 0 for never.
	Crowd int
}

type handle struct {
	ref, sub vroot.File
	path     string
	flag     int
	dir      bool
	closed   bool
	listed   bool
	changes  int // as of when it was listed
	real     string
	was      fs.FileInfo
}

// World is a reference and a subject going through one history.
type World struct {
	RT       *rapid.T
	C        *vt.Case
	Ref, Sub FS
	RefDir   string // the directory Ref is over, if it is over one
	O        Opts
	Tree     Tree // the reference's, as of the last step
	Linked   map[string]bool
	handles  []*handle
	roots    []subroot
	seq      int
	Mutated  int
	Errs     int
	Parted   bool
	nested   bool
}

type subroot struct {
	ref, sub FS
	path     string
	real     string
	was      fs.FileInfo
}

// at resolves p in the reference's directory.
func (w *World) at(p string) (string, fs.FileInfo) {
	if !w.O.ByPath {
		return "", nil
	}
	full, err := filepath.EvalSymlinks(filepath.Join(w.RefDir, p))
	if err != nil {
		w.fatal("VT-ENV %s: %v", p, err)
	}
	fi, err := os.Lstat(full)
	if err != nil {
		w.fatal("VT-ENV %s: %v", p, err)
	}
	return full, fi
}

func moved(real string, was fs.FileInfo) bool {
	if was == nil {
		return false
	}
	fi, err := os.Lstat(real)
	return err != nil || !os.SameFile(fi, was)
}

// Resolved is where p leads in the reference's directory, relative to it.
func (w *World) Resolved(p string) (string, error) {
	full, err := filepath.EvalSymlinks(filepath.Join(w.RefDir, p))
	if err != nil {
		return "", err
	}
	return filepath.Rel(w.RefDir, full)
}

// Held says whether p could be removed, but for a handle of it or a name of it
// that is open. It knows no hard links.
func (w *World) Held(p string) bool {
	fi, err := w.Ref.Lstat(p)
	if err != nil || path.Clean(p) == "." {
		return false
	}
	if fi.IsDir() {
		if l, err := vroot.ReadDir(w.Ref, p); err != nil || len(l) > 0 {
			return false
		}
	}
	for _, h := range w.handles {
		if h.closed {
			continue
		}
		if hi, err := h.ref.Stat(); err == nil && os.SameFile(hi, fi) {
			return true
		}
	}
	return false
}

// letGo drops what is by path and no longer where it was.
func (w *World) letGo() {
	for i, h := range w.handles {
		if !h.closed && h.dir && moved(h.real, h.was) {
			_, _ = h.ref.Close(), h.sub.Close()
			h.closed = true
			w.C.Log("(h%d let go)", i)
		}
	}
	w.roots = slices.DeleteFunc(w.roots, func(r subroot) bool {
		if !moved(r.real, r.was) {
			return false
		}
		w.C.Log("(sub-root %s let go)", r.path)
		if w.O.Stale != nil {
			rel, _ := filepath.Rel(w.RefDir, r.real)
			w.O.Stale(w, r.sub, rel)
		}
		_, _ = r.ref.Close(), r.sub.Close()
		return true
	})
}

// Start snapshots the beginning.
func (w *World) Start() {
	w.Linked = map[string]bool{}
	if w.O.Names == nil {
		w.O.Names = []string{"a", "b", "c", "d"}
	}
	if w.O.MaxDepth == 0 {
		w.O.MaxDepth = 3
	}
	w.Compare("start")
}

// Restart lets go of all handles and sub-roots and goes on with another subject.
func (w *World) Restart(open func() FS) {
	w.Close()
	w.handles, w.roots = nil, nil
	w.Sub = open()
	w.Compare("opening it anew")
}

// Open lists where the handles not yet closed were opened.
func (w *World) Open() []string {
	var out []string
	for _, h := range w.handles {
		if !h.closed {
			rel, _ := filepath.Rel(w.RefDir, h.real)
			out = append(out, rel)
		}
	}
	return out
}

// Close releases the handles still open.
func (w *World) Close() {
	for _, h := range w.handles {
		if !h.closed {
			_, _ = h.ref.Close(), h.sub.Close()
		}
	}
	for _, r := range w.roots {
		_, _ = r.ref.Close(), r.sub.Close()
	}
}

func (w *World) fatal(format string, args ...any) {
	w.RT.Helper()
	w.RT.Fatalf("%s\ntree: %s", fmt.Sprintf(format, args...), w.Tree)
}

// Compare checks that both trees are the same now.
func (w *World) Compare(after string) {
	var ref Tree
	var err error
	if w.RefDir != "" {
		ref, err = SnapDir(w.RefDir)
	} else {
		ref, err = Snap(w.Ref)
	}
	if err != nil {
		w.fatal("VT-ENV reference: %v", err)
	}
	sub, err := Snap(w.Sub)
	if err != nil {
		w.fatal("after %s the tree can not be read: %v\nwant %s", after, err, ref)
	}
	w.Tree = ref
	if w.O.DropMtime != nil {
		for p, n := range ref {
			if s, ok := sub[p]; ok && s.Mtime != n.Mtime && w.O.DropMtime(p, n, w) {
				s.Mtime = n.Mtime
				sub[p] = s
			}
		}
	}
	if d := sub.Diff(ref); d != "" {
		w.fatal("after %s the trees differ:\n%s", after, d)
	}
}

// same compares outcomes and reports whether both succeeded.
func (w *World) same(op string, desc string, ref, sub error) bool {
	rc, sc := Class(ref), Class(sub)
	w.C.Log("%s: %s", desc, rc)
	w.C.Label("%s %s", op, rc)
	if ref != nil {
		w.Errs++
	}
	if rc != sc {
		if w.O.Part != nil && w.O.Part(op, rc, sc) {
			w.Parted = true
			w.C.Label("parted: %s %s/%s", op, rc, sc)
			return false
		}
		if os.Getenv("FSM_SURVEY") != "" && (ref == nil) == (sub == nil) {
			fmt.Printf("SURVEY %s ref=%s sub=%s | %s | %v | %v\n", op, rc, sc, desc, ref, sub)
		} else if (ref == nil) != (sub == nil) || w.O.Same == nil || !w.O.Same(op, desc, rc, sc) {
			w.fatal("%s:\n  got  %v (%s)\n  want %v (%s)", desc, sub, sc, ref, rc)
		}
	}
	return ref == nil && sub == nil
}

func (w *World) sorted(f func(p string, n Node) bool) []string {
	var out []string
	for p, n := range w.Tree {
		if f(p, n) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (w *World) oneOf(ps []string, what, alt string) string {
	if len(ps) == 0 {
		return alt
	}
	return ps[vt.Pick(w.RT, len(ps), what)]
}

func depth(p string) int { return strings.Count(p, "/") + 1 }

// fresh is a path directly below an existing directory, mostly free.
func (w *World) fresh() string {
	d := w.oneOf(w.sorted(func(p string, n Node) bool { return n.Mode.IsDir() && (p == "." || depth(p) < w.O.MaxDepth) }), "in", ".")
	return path.Join(d, vt.Of(w.RT, "name", w.O.Names...))
}

// existing is a path that is there, other than the root.
func (w *World) existing(f func(n Node) bool) string {
	return w.oneOf(w.sorted(func(p string, n Node) bool { return p != "." && (f == nil || f(n)) }), "at", vt.Of(w.RT, "name", w.O.Names...))
}

func isDir(n Node) bool  { return n.Mode.IsDir() }
func isReg(n Node) bool  { return n.Mode.IsRegular() }
func isLink(n Node) bool { return n.Mode&fs.ModeSymlink != 0 }

// odd is a path that mostly leads nowhere, or through a link.
func (w *World) odd() string {
	name := func() string { return vt.Of(w.RT, "name", w.O.Names...) }
	switch vt.Pick(w.RT, 8, "odd") {
	case 0:
		return path.Join(w.existing(isReg), name())
	case 1:
		return path.Join("missing", name())
	case 2:
		return "."
	case 3, 4, 5:
		return path.Join(w.existing(isLink), name())
	case 6:
		if !w.O.NoEscape {
			w.C.Label("path escapes")
			if w.O.CleansPaths {
				return vt.Of(w.RT, "esc", "..", "../a", "../../a")
			}
			return vt.Of(w.RT, "esc", "..", "../a", "../../a", "a/../../b")
		}
	}
	return name()
}

func (w *World) path(kinds ...string) string {
	var p string
	switch vt.Of(w.RT, "path", kinds...) {
	case "dir":
		p = w.existing(isDir)
	case "file":
		p = w.existing(isReg)
	case "link":
		p = w.existing(isLink)
	case "any":
		p = w.existing(nil)
	case "fresh":
		p = w.fresh()
	default:
		p = w.odd()
	}
	if !w.O.NoDress && p != "." && vt.Chance(w.RT, 8, "dress") {
		switch vt.Pick(w.RT, 3, "how") {
		case 0:
			p = "./" + p
		case 1:
			p = strings.Replace(p, "/", "//", 1)
		default:
			p = strings.Replace(p, "/", "/./", 1)
		}
	}
	return p
}

func (w *World) data() []byte {
	w.seq++
	n := vt.Of(w.RT, "len", 1, 2, 3, 5, 8, 13, 40, 0)
	return bytes.Repeat([]byte{byte('A' + w.seq%26)}, n)
}

func (w *World) perm(dir bool) fs.FileMode {
	if dir {
		return vt.Of(w.RT, "perm", fs.FileMode(0o755), 0o777, 0o700, 0o750)
	}
	return vt.Of(w.RT, "perm", fs.FileMode(0o644), 0o666, 0o600, 0o755, 0o640, 0o777)
}

var openFlags = []struct {
	name string
	flag int
}{
	{"RDWR|CREATE", os.O_RDWR | os.O_CREATE},
	{"RDONLY", os.O_RDONLY},
	{"WRONLY|CREATE|TRUNC", os.O_WRONLY | os.O_CREATE | os.O_TRUNC},
	{"RDWR", os.O_RDWR},
	{"RDWR|CREATE|EXCL", os.O_RDWR | os.O_CREATE | os.O_EXCL},
	{"WRONLY|APPEND|CREATE", os.O_WRONLY | os.O_APPEND | os.O_CREATE},
	{"RDWR|APPEND", os.O_RDWR | os.O_APPEND},
	{"RDWR|TRUNC", os.O_RDWR | os.O_TRUNC},
	{"RDONLY|CREATE", os.O_RDONLY | os.O_CREATE},
	{"WRONLY", os.O_WRONLY},
	{"WRONLY|TRUNC", os.O_WRONLY | os.O_TRUNC},
}

// Step runs one generated call on both.
func (w *World) Step() {
	rt := w.RT
	if w.O.Crowd > 0 && !w.nested && vt.Chance(rt, w.O.Crowd, "crowd") {
		w.stepCrowd()
		return
	}
	ops := []string{"create", "create", "open", "open", "open", "mkdir", "mkdir", "mkdirall", "remove", "remove", "removeall", "stat", "stat", "lstat", "readfile", "readdir"}
	if !w.O.NoRename {
		ops = append(ops, "rename", "rename", "rename")
	}
	if !w.O.NoLink {
		ops = append(ops, "link", "link")
	}
	if !w.O.NoSymlink {
		ops = append(ops, "symlink", "symlink", "symlink", "readlink")
	}
	if !w.O.NoChmod {
		ops = append(ops, "chmod")
	}
	if !w.O.NoChtimes {
		ops = append(ops, "chtimes")
	}
	if w.O.Chown {
		ops = append(ops, "chown", "lchown")
	}
	if !w.O.NoHandles {
		live := 0
		for _, h := range w.handles {
			if !h.closed {
				live++
			}
		}
		for range 6 * live {
			ops = append(ops, "handle")
		}
	}
	if w.O.OpenRoot != nil && len(w.roots) < 2 {
		ops = append(ops, "openroot", "openroot")
	}
	for range 6 * len(w.roots) {
		ops = append(ops, "below")
	}
	if w.O.CleansPaths && vt.Chance(rt, 16, "at the root") {
		w.stepRoot()
	}
	op := vt.Of(rt, "op", ops...)
	switch op {
	case "handle":
		w.stepHandle()
	case "openroot":
		w.stepOpenRoot()
	case "below":
		w.stepBelow()
	default:
		w.stepPath(op)
	}
	if w.O.ByPath && !w.Parted {
		w.letGo()
	}
	if w.O.AfterStep != nil && !w.Parted {
		w.O.AfterStep(w)
	}
}

func (w *World) stepOpenRoot() {
	p := w.path("dir", "dir", "dir", "link", "link", "any", "odd")
	if !w.guard("openroot", p) {
		return
	}
	desc := fmt.Sprintf("openroot %q", p)
	ref, rerr := w.O.OpenRoot(w.Ref, p)
	sub, serr := w.O.OpenRoot(w.Sub, p)
	if w.same("openroot", desc, rerr, serr) {
		real, was := w.at(p)
		w.roots = append(w.roots, subroot{ref, sub, p, real, was})
		return
	}
	if rerr == nil {
		_ = ref.Close()
	}
	if serr == nil {
		_ = sub.Close()
	}
}

// stepBelow runs a step in a sub-root and then compares the whole.
func (w *World) stepBelow() {
	id := vt.Pick(w.RT, len(w.roots), "root")
	r := w.roots[id]
	tree, err := Snap(r.ref)
	if err != nil {
		w.C.Label("sub-root removed meanwhile")
		return
	}
	w.C.Log("below r%d(%s):", id, r.path)
	w.C.Label("below")
	v := &World{RT: w.RT, C: w.C, Ref: r.ref, Sub: r.sub, O: w.O, Tree: tree, Linked: map[string]bool{}, seq: w.seq, nested: true, handles: w.handles}
	for k := range w.Linked {
		v.Linked[k] = true
	}
	v.O.NoHandles = true
	if w.O.CleansPaths && vt.Chance(w.RT, 12, "at its root") {
		v.stepRoot()
	}
	v.stepPath(vt.Of(w.RT, "op", "create", "open", "mkdir", "mkdirall", "remove", "removeall", "rename", "symlink", "stat", "lstat", "readfile", "readdir", "readlink"))
	w.seq = v.seq
	w.Mutated += v.Mutated
	w.Errs += v.Errs
	if v.Parted {
		w.Parted = true
		return
	}
	w.Compare("that")
}

// stepRoot tries to take away, move or replace the root, by a name that means
// it once x/.. is taken out: nobody lets that happen.
func (w *World) stepRoot() {
	rt := w.RT
	name := func() string { return vt.Of(rt, "name", append(w.Tree.Paths(), "missing")...) }
	up := func(p string) string { return p + strings.Repeat("/..", depth(p)) }
	root := "."
	switch vt.Pick(rt, 7, "spelling") {
	case 0:
	case 1:
		root = vt.Of(rt, "as", "./", "", "./.")
	default:
		p := name()
		if p == "." {
			p = w.O.Names[0]
		}
		root = vt.Of(rt, "before", "", "", "./") + up(p) + vt.Of(rt, "after", "", "", "", "/", "/.")
	}
	other := name()
	op := vt.Of(rt, "to the root", "remove", "removeall", "removeall", "removeall", "rename", "renamed to", "mkdir", "create", "symlink", "link", "linked to")
	if w.O.NoLink && strings.HasPrefix(op, "link") || w.O.NoSymlink && op == "symlink" || w.O.NoRename && strings.HasPrefix(op, "rename") {
		op = "removeall"
	}
	desc := fmt.Sprintf("%s %q (%s)", op, root, other)
	w.C.Log("the root: %s", desc)
	w.C.Label("root %s", op)
	var err error
	switch op {
	case "remove":
		err = w.Sub.Remove(root)
	case "removeall":
		err = w.Sub.RemoveAll(root)
	case "rename":
		err = w.Sub.Rename(root, vt.Of(rt, "to", other, "new"))
	case "renamed to":
		err = w.Sub.Rename(other, root)
	case "mkdir":
		err = w.Sub.Mkdir(root, 0o777)
	case "create":
		var f vroot.File
		if f, err = w.Sub.Create(root); err == nil {
			_ = f.Close()
		}
	case "symlink":
		err = w.Sub.Symlink(other, root)
	case "link":
		err = w.Sub.Link(root, "new")
	default:
		err = w.Sub.Link(other, root)
	}
	if err == nil {
		w.fatal("%s, the root, went well", desc)
	}
	w.Compare("the refused " + desc)
	if fi, err := w.Sub.Lstat(root); err != nil || !fi.IsDir() {
		w.fatal("lstat %q, the root: %v, %v", root, fi, err)
	}
}

// links counts the links on the way p goes, up to 2000.
func (w *World) links(p string) (n int) {
	todo := strings.Split(p, "/")
	at := "."
	for len(todo) > 0 && n < 2000 {
		c := todo[0]
		todo = todo[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if at == "." {
				return n
			}
			at = path.Dir(at)
			continue
		}
		next := path.Join(at, c)
		node, ok := w.Tree[next]
		switch {
		case !ok:
			return n
		case node.Mode&fs.ModeSymlink != 0:
			if n++; strings.HasPrefix(node.Target, "/") {
				return n
			}
			todo = append(strings.Split(node.Target, "/"), todo...)
		default:
			at = next
		}
	}
	return n
}

func (w *World) guard(op string, paths ...string) bool {
	for _, p := range paths {
		// each file system has its own number of links it follows, *os.Root's is
		// 8: what goes round forever is all one, a long way that ends is not
		if n := w.links(p); n > 8 && n < 2000 {
			w.C.Label("a long way")
			return false
		}
	}
	return w.O.Guard == nil || w.O.Guard(w, op, paths...)
}

func (w *World) mutated(desc string, ok bool) {
	if w.Parted {
		return
	}
	if ok {
		w.Mutated++
	}
	if w.nested {
		return
	}
	w.Compare(desc)
}

func (w *World) stepPath(op string) {
	rt := w.RT
	switch op {
	case "create":
		p := w.path("fresh", "fresh", "fresh", "fresh", "file", "odd", "any", "link")
		if !w.guard(op, p) {
			return
		}
		desc := fmt.Sprintf("create %q", p)
		rf, rerr := w.Ref.Create(p)
		sf, serr := w.Sub.Create(p)
		ok := w.same(op, desc, rerr, serr)
		if ok {
			d := w.data()
			rn, rerr := rf.Write(d)
			sn, serr := sf.Write(d)
			w.same("write", fmt.Sprintf("write %d bytes", len(d)), rerr, serr)
			if rn != sn {
				w.fatal("%s: wrote %d, want %d", desc, sn, rn)
			}
		}
		w.finish(rf, sf, rerr, serr, p, os.O_RDWR, ok)
		w.mutated(desc, ok)
	case "open":
		fl := openFlags[vt.Pick(rt, len(openFlags), "flag")]
		var p string
		if fl.flag&os.O_CREATE != 0 {
			p = w.path("fresh", "fresh", "fresh", "file", "file", "odd", "any", "link")
		} else {
			p = w.path("file", "file", "file", "dir", "any", "odd", "link", "fresh")
		}
		if !w.guard("open "+fl.name, p) {
			return
		}
		perm := w.perm(false)
		desc := fmt.Sprintf("openfile %q %s %v", p, fl.name, perm)
		var rf, sf vroot.File
		var rerr, serr error
		if fl.flag == os.O_RDONLY && vt.Chance(rt, 2, "just open") {
			rf, rerr = w.Ref.Open(p)
			sf, serr = w.Sub.Open(p)
		} else {
			rf, rerr = w.Ref.OpenFile(p, fl.flag, perm)
			sf, serr = w.Sub.OpenFile(p, fl.flag, perm)
		}
		ok := w.same("open "+fl.name, desc, rerr, serr)
		w.finish(rf, sf, rerr, serr, p, fl.flag, ok)
		w.mutated(desc, ok && fl.flag&(os.O_CREATE|os.O_TRUNC) != 0)
	case "mkdir", "mkdirall":
		var p string
		if op == "mkdir" {
			p = w.path("fresh", "fresh", "fresh", "fresh", "any", "odd")
		} else {
			p = w.path("fresh", "fresh", "any", "odd")
			if vt.Chance(rt, 2, "deeper") && depth(p) < w.O.MaxDepth {
				p = path.Join(p, vt.Of(rt, "name", w.O.Names...), vt.Of(rt, "name", w.O.Names...))
			}
		}
		if !w.guard(op, p) {
			return
		}
		perm := w.perm(true)
		desc := fmt.Sprintf("%s %q %v", op, p, perm)
		var rerr, serr error
		if op == "mkdir" {
			rerr, serr = w.Ref.Mkdir(p, perm), w.Sub.Mkdir(p, perm)
		} else {
			rerr, serr = w.Ref.MkdirAll(p, perm), w.Sub.MkdirAll(p, perm)
		}
		w.mutated(desc, w.same(op, desc, rerr, serr))
	case "remove", "removeall":
		p := w.path("any", "any", "any", "link", "dir", "fresh", "odd")
		if !w.guard(op, p) {
			return
		}
		desc := fmt.Sprintf("%s %q", op, p)
		var rerr, serr error
		if op == "remove" {
			rerr, serr = w.Ref.Remove(p), w.Sub.Remove(p)
		} else {
			rerr, serr = w.Ref.RemoveAll(p), w.Sub.RemoveAll(p)
		}
		w.mutated(desc, w.same(op, desc, rerr, serr))
	case "rename":
		p := w.path("any", "any", "any", "dir", "dir", "link", "file", "odd", "fresh")
		q := w.path("fresh", "fresh", "fresh", "any", "file", "dir", "odd")
		if vt.Chance(rt, 10, "below") {
			q = path.Join(p, vt.Of(rt, "name", w.O.Names...))
		}
		if vt.Chance(rt, 20, "self") {
			q = p
		}
		if !w.guard(op, p, q) {
			return
		}
		if depth(q) > w.O.MaxDepth+2 {
			return
		}
		desc := fmt.Sprintf("rename %q %q", p, q)
		ok := w.same(op, desc, w.Ref.Rename(p, q), w.Sub.Rename(p, q))
		if ok && w.Linked[path.Clean(p)] {
			w.Linked[path.Clean(q)] = true
		}
		w.mutated(desc, ok)
	case "link":
		p := w.path("file", "file", "file", "any", "odd")
		q := w.path("fresh", "fresh", "fresh", "any", "odd")
		if !w.guard(op, p, q) {
			return
		}
		desc := fmt.Sprintf("link %q %q", p, q)
		ok := w.same(op, desc, w.Ref.Link(p, q), w.Sub.Link(p, q))
		if ok {
			w.Linked[path.Clean(p)], w.Linked[path.Clean(q)] = true, true
		}
		w.mutated(desc, ok)
	case "symlink":
		q := w.path("fresh", "fresh", "fresh", "fresh", "any", "odd")
		p := w.target(q)
		if !w.guard(op, p, q) {
			return
		}
		desc := fmt.Sprintf("symlink %q %q", p, q)
		w.mutated(desc, w.same(op, desc, w.Ref.Symlink(p, q), w.Sub.Symlink(p, q)))
	case "readlink":
		p := w.path("link", "link", "any", "odd", "fresh")
		if !w.guard(op, p) {
			return
		}
		rt1, rerr := w.Ref.ReadLink(p)
		st1, serr := w.Sub.ReadLink(p)
		desc := fmt.Sprintf("readlink %q", p)
		if w.same(op, desc, rerr, serr) && rt1 != st1 {
			w.fatal("%s: %q, want %q", desc, st1, rt1)
		}
	case "chmod":
		p := w.path("any", "any", "file", "dir", "link", "odd")
		if !w.guard(op, p) {
			return
		}
		// execute bits everywhere: what p leads to may be a directory
		perm := w.perm(true)
		if w.O.Bits && vt.Chance(rt, 2, "bits") {
			fi, err := w.Ref.Stat(p)
			switch {
			case err == nil && fi.IsDir():
				// setgid is handed down
				perm |= vt.Of(rt, "bit", fs.ModeSticky, fs.ModeSetuid, fs.ModeSticky|fs.ModeSetuid)
			case err == nil:
				// a write takes setuid and setgid away: look, and chmod again
				m := perm | vt.Of(rt, "bit", fs.ModeSetuid, fs.ModeSetgid, fs.ModeSetuid|fs.ModeSetgid)
				desc := fmt.Sprintf("chmod %q %v", p, m)
				w.mutated(desc, w.same(op, desc, w.Ref.Chmod(p, m), w.Sub.Chmod(p, m)))
				if vt.Chance(rt, 2, "sticky") {
					perm |= fs.ModeSticky
				}
			}
		}
		desc := fmt.Sprintf("chmod %q %v", p, perm)
		w.mutated(desc, w.same(op, desc, w.Ref.Chmod(p, perm), w.Sub.Chmod(p, perm)))
	case "chown", "lchown":
		p := w.path("any", "file", "dir", "link", "link", "odd", "fresh")
		if !w.guard(op, p) {
			return
		}
		desc := fmt.Sprintf("%s %q", op, p)
		uid, gid := os.Getuid(), os.Getgid()
		if op == "chown" {
			w.mutated(desc, w.same(op, desc, w.Ref.Chown(p, uid, gid), w.Sub.Chown(p, uid, gid)))
		} else {
			w.mutated(desc, w.same(op, desc, w.Ref.Lchown(p, uid, gid), w.Sub.Lchown(p, uid, gid)))
		}
	case "chtimes":
		p := w.path("any", "file", "dir", "link", "odd")
		if !w.guard(op, p) {
			return
		}
		w.seq++
		at := Fine(int64(w.seq))
		if w.O.Coarse {
			at = Stamp(int64(w.seq))
		}
		mt := at
		desc := fmt.Sprintf("chtimes %q %d", p, w.seq)
		w.mutated(desc, w.same(op, desc, w.Ref.Chtimes(p, at, mt), w.Sub.Chtimes(p, at, mt)))
	case "stat", "lstat":
		p := w.path("any", "any", "link", "link", "dir", "odd", "odd", "fresh")
		if !w.guard(op, p) {
			return
		}
		desc := fmt.Sprintf("%s %q", op, p)
		var ri, si fs.FileInfo
		var rerr, serr error
		if op == "stat" {
			ri, rerr = w.Ref.Stat(p)
			si, serr = w.Sub.Stat(p)
		} else {
			ri, rerr = w.Ref.Lstat(p)
			si, serr = w.Sub.Lstat(p)
		}
		if w.same(op, desc, rerr, serr) {
			w.info(desc, ri, si, path.Clean(p) == "." || op == "stat")
		}
	case "readfile":
		p := w.path("file", "link", "link", "any", "odd")
		if !w.guard(op, p) {
			return
		}
		desc := fmt.Sprintf("read %q", p)
		rb, rerr := readAll(w.Ref, p)
		sb, serr := readAll(w.Sub, p)
		if w.same(op, desc, rerr, serr) && !bytes.Equal(rb, sb) {
			w.fatal("%s: %q, want %q", desc, sb, rb)
		}
	case "readdir":
		p := w.path("dir", "dir", "link", "any", "odd")
		if !w.guard(op, p) {
			return
		}
		n := vt.Of(rt, "n", -1, 0, 1, 2, 3)
		how := vt.Pick(rt, 3, "how")
		desc := fmt.Sprintf("list %q by %d with %s", p, n, []string{"ReadDir", "Readdir", "Readdirnames"}[how])
		rl, rerr := list(w.Ref, p, -1, 0)
		sl, serr := list(w.Sub, p, n, how)
		if w.same(op, desc, rerr, serr) {
			if r, s := strings.Join(rl, " "), strings.Join(sl, " "); r != s {
				w.fatal("%s:\n  got  %s\n  want %s", desc, s, r)
			}
		}
	}
}

// list reads a directory by chunks of n until it is through.
func list(fsys FS, p string, n, how int) ([]string, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []string
	for {
		var got []string
		var err error
		switch how {
		case 0:
			var es []fs.DirEntry
			es, err = f.ReadDir(n)
			for _, e := range es {
				got = append(got, e.Name())
			}
		case 1:
			var es []fs.FileInfo
			es, err = f.Readdir(n)
			for _, e := range es {
				got = append(got, e.Name())
			}
		default:
			got, err = f.Readdirnames(n)
		}
		out = append(out, got...)
		if n > 0 && len(got) > n {
			return nil, fmt.Errorf("asked for %d entries, got %d", n, len(got))
		}
		if err != nil {
			if n > 0 && errors.Is(err, io.EOF) && len(got) == 0 {
				break
			}
			return nil, err
		}
		if n <= 0 {
			break
		}
		if len(got) == 0 {
			return nil, errors.New("neither entries nor an error")
		}
	}
	sort.Strings(out)
	return out, nil
}

func (w *World) target(at string) string {
	t := w.target_(at)
	if vt.Chance(w.RT, 6, "sloppy") {
		// the same place, as no cleaning would leave it written
		t = vt.Of(w.RT, "sloppy", strings.Replace(t, "/", "//", 1), "./"+t, strings.Replace(t, "/", "/./", 1))
	}
	return t
}

func (w *World) target_(at string) string {
	if w.O.TameTargets {
		up := strings.Repeat("../", strings.Count(path.Clean(at), "/"))
		return path.Clean(up + w.oneOf(w.sorted(func(p string, n Node) bool { return true }), "to", "missing"))
	}
	if w.O.Targets != nil && vt.Chance(w.RT, 3, "given") {
		return vt.Of(w.RT, "target", w.O.Targets...)
	}
	name := vt.Of(w.RT, "name", w.O.Names...)
	up := strings.Repeat("../", strings.Count(path.Clean(at), "/"))
	switch vt.Pick(w.RT, 10, "target") {
	case 0, 1:
		return name
	case 2, 3, 4:
		return up + w.existing(nil)
	case 5:
		return up + w.existing(isDir)
	case 6:
		return "../" + name
	case 7:
		return "missing"
	case 8:
		if w.O.NoEscape {
			return "."
		}
		return vt.Of(w.RT, "far", "../../../a", "/etc", up+"../b", "/")
	default:
		return vt.Of(w.RT, "dots", ".", up+".", "./"+name, up+"a/../b")
	}
}

func (w *World) info(desc string, ri, si fs.FileInfo, noName bool) {
	if ri.Mode() != si.Mode() || ri.IsDir() != si.IsDir() || ri.Mode().IsRegular() && ri.Size() != si.Size() {
		w.fatal("%s: %v %d, want %v %d", desc, si.Mode(), si.Size(), ri.Mode(), ri.Size())
	}
	// the root goes by no particular name
	if !noName && ri.Name() != si.Name() {
		w.fatal("%s: named %q, want %q", desc, si.Name(), ri.Name())
	}
}

// finish closes or keeps what an open returned.
func (w *World) finish(rf, sf vroot.File, rerr, serr error, p string, flag int, ok bool) {
	if serr != nil && sf != nil {
		w.fatal("open %q: an error, %v, and a handle, %T", p, serr, sf)
	}
	if !ok {
		if rerr == nil {
			_ = rf.Close()
		}
		if serr == nil {
			_ = sf.Close()
		}
		return
	}
	live := 0
	for _, h := range w.handles {
		if !h.closed {
			live++
		}
	}
	if !w.O.NoHandles && live < 3 && vt.Chance(w.RT, 2, "keep") && (w.O.Keep == nil || w.O.Keep(w, p, flag)) {
		fi, err := rf.Stat()
		if err != nil {
			w.fatal("VT-ENV stat of reference handle: %v", err)
		}
		si, err := sf.Stat()
		if err != nil {
			w.fatal("stat through the handle of %q: %v", p, err)
		}
		w.info(fmt.Sprintf("stat through the handle of %q", p), fi, si, true)
		h := &handle{ref: rf, sub: sf, path: p, flag: flag, dir: fi.IsDir()}
		h.real, h.was = w.at(p)
		w.handles = append(w.handles, h)
		w.C.Log("  kept as h%d", len(w.handles)-1)
		return
	}
	w.same("close", "close", rf.Close(), sf.Close())
}

func (w *World) stepHandle() {
	rt := w.RT
	var live []int
	for i, h := range w.handles {
		if !h.closed {
			live = append(live, i)
		}
	}
	id := live[vt.Pick(rt, len(live), "handle")]
	h := w.handles[id]
	pre := fmt.Sprintf("h%d(%s).", id, h.path)
	ops := []string{"write", "write", "writestring", "writeat", "read", "read", "readat", "seek", "seek", "truncate", "stat", "close", "sync"}
	if h.dir {
		ops = []string{"readdir", "readdir", "readdir", "rewind", "relist", "relist", "relist", "stat", "read", "write", "close", "truncate"}
	}
	if !w.O.NoChmod {
		ops = append(ops, "fchmod")
		if w.O.Chown {
			ops = append(ops, "fchown")
		}
	}
	op := vt.Of(rt, "fop", ops...)
	if !w.guard("h."+op, h.path) {
		return
	}
	hop := "h." + op
	if h.dir {
		hop = "hd." + op
	}
	wrote := func(desc string, rn, sn int, rerr, serr error) {
		ok := w.same(hop, desc, rerr, serr)
		if rn != sn {
			w.fatal("%s: %d bytes, want %d", desc, sn, rn)
		}
		w.mutated(desc, ok)
	}
again:
	switch op {
	case "write", "writestring":
		d := w.data()
		if len(d) == 0 && h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			return // nothing asked of a handle that could not
		}
		desc := fmt.Sprintf("%s%s %q", pre, op, d)
		if op == "write" {
			rn, rerr := h.ref.Write(d)
			sn, serr := h.sub.Write(d)
			wrote(desc, rn, sn, rerr, serr)
		} else {
			rn, rerr := h.ref.WriteString(string(d))
			sn, serr := h.sub.WriteString(string(d))
			wrote(desc, rn, sn, rerr, serr)
		}
	case "writeat":
		d := w.data()
		if len(d) == 0 && h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			return
		}
		off := int64(vt.Of(rt, "off", 0, 1, 2, 3, 5, 10, 30, 100, -1))
		desc := fmt.Sprintf("%swriteat %q %d", pre, d, off)
		rn, rerr := h.ref.WriteAt(d, off)
		sn, serr := h.sub.WriteAt(d, off)
		wrote(desc, rn, sn, rerr, serr)
	case "read", "readat":
		n := vt.Of(rt, "n", 1, 2, 3, 5, 10, 200)
		rb, sb := make([]byte, n), make([]byte, n)
		var rn, sn int
		var rerr, serr error
		desc := fmt.Sprintf("%s%s %d", pre, op, n)
		if op == "read" {
			rn, rerr = h.ref.Read(rb)
			sn, serr = h.sub.Read(sb)
			// io.Reader: the end may come with the last bytes
			if rn > 0 && rerr == io.EOF {
				rerr = nil
			}
			if sn > 0 && serr == io.EOF {
				serr = nil
			}
		} else {
			off := int64(vt.Of(rt, "off", 0, 1, 2, 3, 5, 10, 30, 100, -1))
			desc += fmt.Sprintf(" at %d", off)
			rn, rerr = h.ref.ReadAt(rb, off)
			sn, serr = h.sub.ReadAt(sb, off)
		}
		w.same(hop, desc, rerr, serr)
		if rn != sn || !bytes.Equal(rb[:rn], sb[:sn]) {
			w.fatal("%s: %q, want %q", desc, sb[:sn], rb[:rn])
		}
	case "seek":
		off := int64(vt.Of(rt, "off", 0, 1, 2, 3, 5, 10, 30, -1, -2, -10))
		wh := vt.Of(rt, "whence", io.SeekStart, io.SeekCurrent, io.SeekEnd)
		desc := fmt.Sprintf("%sseek %d %d", pre, off, wh)
		rn, rerr := h.ref.Seek(off, wh)
		sn, serr := h.sub.Seek(off, wh)
		if w.same(hop, desc, rerr, serr) && rn != sn {
			w.fatal("%s: %d, want %d", desc, sn, rn)
		}
	case "truncate":
		n := int64(vt.Of(rt, "size", 0, 1, 2, 3, 5, 10, 30, 100, -1))
		desc := fmt.Sprintf("%struncate %d", pre, n)
		w.mutated(desc, w.same(hop, desc, h.ref.Truncate(n), h.sub.Truncate(n)))
	case "fchmod":
		perm := w.perm(true)
		desc := fmt.Sprintf("%schmod %v", pre, perm)
		w.mutated(desc, w.same(hop, desc, h.ref.Chmod(perm), h.sub.Chmod(perm)))
	case "fchown":
		uid, gid := os.Getuid(), os.Getgid()
		desc := fmt.Sprintf("%schown", pre)
		w.mutated(desc, w.same(hop, desc, h.ref.Chown(uid, gid), h.sub.Chown(uid, gid)))
	case "sync":
		w.same(hop, pre+"sync", h.ref.Sync(), h.sub.Sync())
	case "stat":
		ri, rerr := h.ref.Stat()
		si, serr := h.sub.Stat()
		if w.same(hop, pre+"stat", rerr, serr) {
			w.info(pre+"stat", ri, si, true)
		}
	case "readdir":
		// whole listings only: a changing directory's chunks have no order to compare
		rn, rerr := h.ref.Readdirnames(-1)
		sn, serr := h.sub.Readdirnames(-1)
		if w.same(hop, pre+"readdirnames", rerr, serr) && h.listed && h.changes == w.Mutated && len(sn) > 0 {
			w.fatal("%sreaddirnames: %q after all were listed", pre, sn)
		}
		if rerr == nil && serr == nil && !h.listed {
			sort.Strings(rn)
			sort.Strings(sn)
			if strings.Join(rn, " ") != strings.Join(sn, " ") {
				w.fatal("%sreaddirnames: %q, want %q", pre, sn, rn)
			}
		}
		h.listed, h.changes = true, w.Mutated
	case "rewind", "relist":
		rn, rerr := h.ref.Seek(0, io.SeekStart)
		sn, serr := h.sub.Seek(0, io.SeekStart)
		if w.same(hop, pre+"rewind", rerr, serr) {
			if rn != sn {
				w.fatal("%srewind: %d, want %d", pre, sn, rn)
			}
			h.listed = false
		}
		if op == "relist" {
			op, hop = "readdir", "hd.readdir"
			goto again
		}
	case "close":
		w.same(hop, pre+"close", h.ref.Close(), h.sub.Close())
		h.closed = true
		if !h.dir {
			// a closed handle takes nothing more
			b := make([]byte, 1)
			_, serr := h.sub.Write([]byte("x"))
			_, serr2 := h.sub.Read(b)
			if serr == nil || serr2 == nil || errors.Is(serr2, io.EOF) {
				w.fatal("%sclose: still writes (%v) or reads (%v)", pre, serr, serr2)
			}
			_, werr := h.sub.WriteAt([]byte("x"), 0)
			_, serr = h.sub.WriteString("x")
			_, rerr := h.sub.ReadAt(b, 0)
			if terr := h.sub.Truncate(0); werr == nil || serr == nil || terr == nil || rerr == nil || rerr == io.EOF {
				w.fatal("%sclose: still writes at (%v), a string (%v), truncates (%v) or reads at (%v)", pre, werr, serr, terr, rerr)
			}
			if !w.O.ByPath {
				_, kerr := h.sub.Seek(0, io.SeekCurrent)
				if yerr := h.sub.Sync(); kerr == nil || yerr == nil {
					w.fatal("%sclose: still seeks (%v) or syncs (%v)", pre, kerr, yerr)
				}
			}
			if vt.Chance(rt, 3, "again") {
				_ = h.sub.Close() // counts for nothing
			}
			w.Compare(pre + "write after close")
		}
	}
}
