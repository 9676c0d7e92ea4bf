package overlayt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// own is a copy-up written outside the package, to the contract: the parents are
// there, name is not, and what it is told of it is all it knows.
type own struct{ n atomic.Int64 }

func (p *own) CopyUp(from fsmodel.FS, top *overlayfs.DataSource, name string) error {
	src := filepath.FromSlash(name)
	fi, err := from.Lstat(src)
	if err != nil {
		return err
	}
	f, to := top.Fsys(), top.ContentPath(name)
	if fi.Mode()&fs.ModeSymlink != 0 {
		target, err := from.ReadLink(src)
		if err != nil {
			return err
		}
		return f.Symlink(target, to)
	}
	at := to
	switch {
	case fi.IsDir():
		if err := f.Mkdir(to, 0o700); err != nil {
			return err
		}
	case fi.Mode().IsRegular():
		b, err := vroot.ReadFile(from, src)
		if err != nil {
			return err
		}
		at = top.StagingPath(fmt.Sprintf("own-%d", p.n.Add(1)))
		if err := vroot.WriteFile(f, at, b, 0o600); err != nil {
			return err
		}
	default:
		return overlayfs.ErrTypeNotSupported
	}
	if err := errors.Join(f.Chmod(at, fi.Mode()&(fs.ModePerm|fs.ModeSticky)), f.Chtimes(at, fi.ModTime(), fi.ModTime())); err != nil {
		return err
	}
	if at == to {
		return nil
	}
	return f.Rename(at, to)
}

// genPolicy draws one of the policies there are.
func genPolicy(rt *rapid.T, c *vt.Case) overlayfs.CopyUpPolicy {
	kind := vt.Of(rt, "policy", "own", "own", "work", "zero")
	c.Label("policy %s", kind)
	switch kind {
	case "own":
		return &own{}
	case "work":
		return overlayfs.NewCopyUpPolicyWork()
	}
	return &overlayfs.CopyUpPolicyWork{}
}

// lent is a layer handed out to be read from; closing it would close the layer.
type lent struct {
	fsmodel.FS
	closed *bool
}

func (l lent) Close() error { *l.closed = true; return nil }

// nodeOf is what fsys has at name.
func nodeOf(fsys fsmodel.FS, name string) (fsmodel.Node, error) {
	fi, err := fsys.Lstat(name)
	if err != nil {
		return fsmodel.Node{}, err
	}
	switch {
	case fi.Mode()&fs.ModeSymlink != 0:
		to, err := fsys.ReadLink(name)
		return fsmodel.Node{Mode: fs.ModeSymlink, Target: to}, err
	case fi.Mode().IsRegular():
		b, err := vroot.ReadFile(fsys, name)
		return fsmodel.Node{Mode: fi.Mode(), Data: string(b)}, err
	}
	return fsmodel.Node{Mode: fi.Mode()}, nil
}

// called checks a call of a policy against what it is promised; dir is empty or
// says that the layers are s's.
func called(from fsmodel.FS, top *overlayfs.DataSource, name string, s *stack) error {
	if name == "" || name == "." || strings.HasPrefix(name, "/") || path.Clean(name) != name || !filepath.IsLocal(name) {
		return fmt.Errorf("the name is %q", name)
	}
	if to, want := top.ContentPath(name), filepath.Join("merged", name); to != want {
		return fmt.Errorf("content path of %q is %q", name, to)
	}
	if to, want := top.StagingPath("x"), filepath.Join("work", "x"); to != want {
		return fmt.Errorf("staging path of x is %q", to)
	}
	if _, err := top.Fsys().Lstat(top.ContentPath(name)); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("the top is asked to take %q, which it holds: %v", name, err)
	}
	if fi, err := top.Fsys().Lstat(path.Dir(top.ContentPath(name))); err != nil || !fi.IsDir() {
		return fmt.Errorf("the top is asked to take %q without its parent: %v", name, err)
	}
	n, err := nodeOf(from, name)
	if err != nil {
		return fmt.Errorf("the layer it is told to take %q from: %v", name, err)
	}
	if s == nil {
		return nil
	}
	view, _, err := s.merged()
	if err != nil {
		return fmt.Errorf("VT-ENV %v", err)
	}
	v, ok := view[name]
	if v.Mtime = 0; !ok || v != n {
		return fmt.Errorf("it is told to take %q, %v, where the merged view has %v (%v)", name, n, v, ok)
	}
	return nil
}

// watch stands before a policy and checks how it is called.
type watch struct {
	rt      *rapid.T
	s       *stack
	inner   overlayfs.CopyUpPolicy
	reading string
	names   []string
	// fail decides about the k-th call, before and after it is made.
	fail func(k int, after bool) error
}

func (w *watch) CopyUp(from fsmodel.FS, top *overlayfs.DataSource, name string) error {
	if w.reading != "" {
		w.rt.Fatalf("%s copies %q up", w.reading, name)
	}
	if err := called(from, top, name, w.s); err != nil {
		w.rt.Fatalf("%v", err)
	}
	k := len(w.names)
	w.names = append(w.names, name)
	if w.fail != nil {
		if err := w.fail(k, false); err != nil {
			return err
		}
	}
	before, _, _ := w.s.merged()
	closed := false
	err := w.inner.CopyUp(lent{from, &closed}, top, name)
	if closed {
		w.rt.Fatalf("the policy closes the layer it copies %q from", name)
	}
	if err == nil {
		after, _, merr := w.s.merged()
		if merr != nil {
			w.rt.Fatalf("VT-ENV %v", merr)
		}
		if d := noDirTimes(after).Diff(noDirTimes(before)); d != "" {
			w.rt.Fatalf("copying %q up changes what is seen:\n%s", name, d)
		}
	}
	if err == nil && w.fail != nil {
		err = w.fail(k, true)
	}
	return err
}

// A policy is asked for what it says, and for no more; with any that does it the
// overlay is the same.
func TestC35_History(t *testing.T) {
	vt.Check(t, vt.N(1500, 20000), "one history of 5 to 24 calls through an overlay with a policy of the package or of the harness, each call of the policy checked, and reads between them; non-trivial: the policy was called three times or more", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"mem", "mem", "os"}, grow: 10, umask: true})
		defer s.release()
		lowers := keep(rt, s)
		p := &watch{rt: rt, s: s, inner: genPolicy(rt, c)}
		w, end := start(rt, c, s, &overlayfs.Option{CopyUpPolicy: p})
		defer end()
		for range 5 + vt.Pick(rt, 20, "steps") {
			w.Step()
			if w.Parted {
				break
			}
			if vt.Chance(rt, 3, "read") {
				p.reading = "reading everything"
				if _, err := fsmodel.Snap(w.Sub); err != nil {
					rt.Fatalf("the tree can not be read: %v", err)
				}
				for q := range w.Tree {
					p.reading = "a read of " + q
					_, _ = w.Sub.Stat(q)
					if f, err := w.Sub.OpenFile(q, os.O_RDONLY|vt.Of(rt, "flag", 0, os.O_SYNC), 0o600); err == nil {
						_, _ = f.Stat()
						_, _ = f.Readdirnames(1)
						_, _ = f.Seek(0, io.SeekStart)
						_ = f.Sync()
						_ = f.Close()
					}
					if sub, err := openRoot(w.Sub, q); err == nil {
						_, _ = vroot.ReadDir(sub, ".")
						_ = sub.Close()
					}
				}
				p.reading = ""
			}
			sound(w, s, lowers, true)
			swept(rt, s)
		}
		c.Log("copied up %q", p.names)
		if len(p.names) >= 3 {
			c.NonTrivial()
		}
	})
}

// A call whose copy-up fails fails with that error, and nothing is seen of it.
func TestC35_Refused(t *testing.T) {
	vt.Check(t, vt.N(2000, 25000), "one change of the merged view, after a history of up to 5 calls, with each of the copies it asks for failing in turn, before or after it is made, and then made again; non-trivial: it asks for at least one", func(rt *rapid.T, c *vt.Case) {
		s := genStack(rt, c, stackOpts{top: []string{"os"}, grow: 12, noLinks: vt.Of(rt, "nolinks", true, false)})
		defer s.release()
		top := s.layers[0]
		func() {
			w, end := start(rt, c, s, nil)
			defer end()
			for range vt.Pick(rt, 6, "before") {
				w.Step()
			}
		}()
		before, _, err := s.merged()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		before = noDirTimes(before)
		content, err := top.all()
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		lowers, was := keep(rt, s), top.marks
		ch := genChange(rt, before, s.names)
		for range 8 { // rather one that takes copies
			deep := func(p string) bool {
				_, held := content["merged/"+path.Dir(p)]
				_, known := before[path.Dir(p)]
				return known && !held
			}
			if deep(ch.p) || deep(ch.q) {
				break
			}
			ch = genChange(rt, before, s.names)
		}
		c.Log("%v", was)
		c.Log("then %v", ch)
		c.Label("%s", ch.op)

		p := &watch{rt: rt, s: s, inner: genPolicy(rt, c)}
		attempt := func() (*overlayfs.Fs, error, func()) {
			dir, done := fsx.Scratch()
			if err := lay(dir, content); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			top.dir, top.marks = dir, was.clone()
			ov, err := s.open(&overlayfs.Option{CopyUpPolicy: p})
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			p.names = nil
			return ov, ch.run(ov), func() {
				if err := ov.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
				done()
			}
		}
		snap := func(f *overlayfs.Fs, what string) fsmodel.Tree {
			t, err := fsmodel.Snap(f)
			if err != nil {
				rt.Fatalf("%s: the tree can not be read: %v", what, err)
			}
			sound(&fsmodel.World{RT: rt, C: c, Tree: t, Linked: map[string]bool{}}, s, lowers, true)
			return noDirTimes(t)
		}
		ov, whole, done := attempt()
		after, asked := snap(ov, "undisturbed"), slices.Clone(p.names)
		done()
		c.Log("  = %v, copying up %q", whole, asked)
		c.Label("asks for %d", len(asked))
		if len(asked) >= 1 {
			c.NonTrivial()
		}
		for k := range asked {
			late := vt.Of(rt, "late", false, false, true)
			fault := fsx.Vary(rt, fsx.ErrInjected, fs.ErrNotExist, fs.ErrExist, overlayfs.ErrTypeNotSupported)
			what := fmt.Sprintf("%v, with copying %q failing (late %v) as %v", ch, asked[k], late, fault)
			p.fail = func(i int, after bool) error {
				if i == k && after == late {
					return fault
				}
				return nil
			}
			ov, err, done := attempt()
			p.fail = nil
			if err == nil || whole == nil && !errors.Is(err, fault) {
				rt.Fatalf("%s: returned %v", what, err)
			}
			if len(p.names) != k+1 {
				rt.Fatalf("%s: goes on and asks for %q", what, p.names)
			}
			if d := snap(ov, what).Diff(before); d != "" {
				rt.Fatalf("%s: returned %v and changed\n%s", what, err, d)
			}
			if err := ch.run(ov); (err == nil) != (whole == nil) {
				rt.Fatalf("%s: made again: %v, at first %v", what, err, whole)
			}
			if d := snap(ov, what).Diff(after); d != "" {
				rt.Fatalf("%s: made again it comes out different:\n%s", what, d)
			}
			done()
		}
	})
}

// alone checks calls made of a policy by overlays used from all sides.
type alone struct {
	inner overlayfs.CopyUpPolicy
	pause func()
	busy  atomic.Int32
	calls atomic.Int32
	mu    sync.Mutex
	wrong error
}

func (a *alone) CopyUp(from fsmodel.FS, top *overlayfs.DataSource, name string) error {
	err := func() error {
		if a.busy.Add(1) != 1 {
			return fmt.Errorf("asked for %q amid another copy", name)
		}
		return called(from, top, name, nil)
	}()
	defer a.busy.Add(-1)
	a.calls.Add(1)
	a.pause()
	if err != nil {
		a.mu.Lock()
		a.wrong = errors.Join(a.wrong, err)
		a.mu.Unlock()
	}
	defer a.pause()
	return a.inner.CopyUp(from, top, name)
}

// A policy runs alone, whoever calls the overlay.
func TestC35_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(800, 20000), "one program of 2 to 4 goroutines of 1 to 4 calls on few names of an overlay whose policy notes who else is in it; non-trivial: it was called twice or more", func(rt *rapid.T, c *vt.Case) {
		p := fsmodel.GenProgram(rt, fsmodel.ProgramOpts{Routines: 4, Calls: 4, OpenRoot: openRoot})
		pl := genPlan(rt, p)
		p.Given = true
		c.Log("%s%s", pl, p)
		for range 2 {
			pause := fsmodel.Pauses(uint64(vt.Pick(rt, 1<<20, "pauses")))
			a := &alone{inner: genPolicy(rt, c), pause: pause}
			pl.opt = &overlayfs.Option{CopyUpPolicy: a}
			fsys, end := pl.buildWith(pause)
			done, _, err := p.Concurrent(fsys)
			end()
			if err != nil {
				rt.Fatalf("%v\n%s", err, outs(done))
			}
			if a.wrong != nil {
				rt.Fatalf("%v\n%s", a.wrong, outs(done))
			}
			if a.calls.Load() >= 2 {
				c.NonTrivial()
			}
		}
	})
}

// drip is a file read in small pieces, the last of which may come with the end.
type drip struct {
	vroot.File
	n     int
	pause func()
}

func (d drip) Read(b []byte) (int, error) {
	if len(b) > d.n {
		b = b[:d.n]
	}
	d.pause()
	return d.File.Read(b)
}

type dripping struct {
	fsmodel.FS
	n     int
	pause func()
}

func (d dripping) Open(name string) (vroot.File, error) { return d.OpenFile(name, os.O_RDONLY, 0) }

func (d dripping) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	f, err := d.FS.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return drip{f, d.n, d.pause}, nil
}

// patch is data of which no piece is like another.
func patch(seed, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i>>8) ^ byte(i*7+seed*31) ^ byte(i>>16)
	}
	return string(b)
}

var sizes = []int{0, 1, 300, 4096, 65535, 65536, 65537, 131072, 200001}

// The policy that comes with the package brings the whole of a name or nothing.
func TestC35_Work(t *testing.T) {
	vt.Check(t, vt.N(1200, 15000), "one name copied up by CopyUpPolicyWork into a top of any content and umask, undisturbed and with each call it makes to the top or the layer below failing in turn; non-trivial: the name lies in a directory the top lacks, or its file is longer than a buffer", func(rt *rapid.T, c *vt.Case) {
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		bare := func(what string) (string, func()) {
			dir, done := fsx.Scratch()
			f, err := fsx.New(dir)
			fail(err)
			c.Log("%s:", what)
			fail(fsmodel.Grow(rt, c, f, fsmodel.GrowOpts{Steps: 12, Names: names}))
			fail(f.Close())
			return dir, done
		}
		low, done := bare("below")
		defer done()
		lf, err := fsx.New(low)
		fail(err)
		defer lf.Close()
		below, err := fsmodel.SnapDir(low)
		fail(err)
		var dirs []string
		for i, p := range below.Paths() {
			n := below[p]
			if n.Mode.IsDir() {
				dirs = append(dirs, p)
			}
			if n.Mode.IsRegular() && vt.Chance(rt, 2, "big") {
				fail(os.WriteFile(filepath.Join(low, p), []byte(patch(i, vt.Of(rt, "size", sizes...))), 0o600))
			}
			if n.Mode&fs.ModeSymlink == 0 {
				tm := fsmodel.Fine(int64(200 + i))
				// directories are for their owner to write in: who makes them writes in them
				perm := vt.Of(rt, "perm", n.Mode.Perm(), 0o755, 0o777, 0o700, 0o751, 0o777|fs.ModeSticky, 0o755|fs.ModeSticky)
				if !n.Mode.IsDir() {
					perm = vt.Of(rt, "perm", perm, 0o500, 0o444, 0o666)
				}
				fail(os.Chmod(filepath.Join(low, p), perm))
				fail(os.Chtimes(filepath.Join(low, p), tm, tm))
			}
		}
		odd := vt.Of(rt, "odd", "", "", "", "fifo", "socket")
		if odd != "" {
			p := path.Join(dirs[vt.Pick(rt, len(dirs), "in")], "odd")
			if odd == "fifo" {
				fail(syscall.Mkfifo(filepath.Join(low, p), 0o644))
			} else {
				fail(syscall.Mknod(filepath.Join(low, p), syscall.S_IFSOCK|0o644, 0))
			}
		}
		below, err = fsmodel.SnapDir(low)
		fail(err)

		high, done2 := bare("top")
		defer done2()
		content, err := fsmodel.SnapDir(high)
		fail(err)
		var of []string
		for _, p := range below.Paths() {
			ok := p != "."
			for q := p; ok && q != "."; q = path.Dir(q) {
				n, held := content[q]
				ok = !held || q != p && n.Mode.IsDir()
			}
			if ok {
				of = append(of, p)
			}
		}
		if len(of) == 0 {
			return
		}
		name := of[vt.Pick(rt, len(of), "name")]
		for _, p := range of {
			if odd != "" && path.Base(p) == "odd" && vt.Chance(rt, 2, "take odd") {
				name = p
			}
		}
		what := below[name]
		c.Log("copy up %q, %v", name, what)
		lacks := false
		want := maps.Clone(content)
		for q := path.Dir(name); q != "."; q = path.Dir(q) {
			if _, ok := want[q]; !ok {
				lacks = true
				want[q] = below[q]
			}
		}
		parents := noDirTimes(want)
		want[name] = what
		if lacks || len(what.Data) > 65536 {
			c.NonTrivial()
		}
		c.Label("%v", what.Mode.Type())
		sorts := what.Mode.IsDir() || what.Mode.IsRegular() || what.Mode&fs.ModeSymlink != 0

		umask := vt.Of(rt, "umask", 0, 0, 0o022, 0o077)
		layout := fsmodel.Tree{".": {Mode: fs.ModeDir | 0o755}, "merged": {Mode: fs.ModeDir | 0o755}, "work": {Mode: fs.ModeDir | 0o755}}
		for p, n := range content {
			if p != "." {
				layout["merged/"+p] = n
			} else {
				layout["merged"] = n
			}
		}
		policy := overlayfs.NewCopyUpPolicyWork()
		n := vt.Of(rt, "piece", 1<<20, 1<<20, 65536, 1000, 511)

		// attempt does it on a top as it was and says what there is afterwards.
		attempt := func(hook func(where string, o fsx.Op) error, again bool) (error, fsmodel.Tree) {
			dir, done := fsx.Scratch()
			defer done()
			fail(lay(dir, layout))
			tf, err := fsx.New(dir)
			fail(err)
			top, err := overlayfs.NewDataSourceCanonicalStore(tf, memStore{newMarks()})
			fail(err)
			defer top.Close()
			tf.SetHook(func(o fsx.Op) fsx.Verdict { return fsx.Verdict{Err: hook("top", o), Partial: o.N / 2} })
			lf.SetHook(func(o fsx.Op) fsx.Verdict { return fsx.Verdict{Err: hook("below", o), Partial: o.N / 2} })
			defer lf.SetHook(nil)
			closed := false
			from := lent{dripping{vroot.Widen[vroot.File](lf), n, func() {}}, &closed}
			defer syscall.Umask(syscall.Umask(umask))
			err = policy.CopyUp(from, top, name)
			if again {
				tf.SetHook(nil)
				lf.SetHook(nil)
				if err := policy.CopyUp(from, top, name); err != nil {
					rt.Fatalf("done again: %v", err)
				}
			}
			if h := tf.OpenHandles(); len(h) > 0 {
				rt.Fatalf("left open in the top: %q (%v)", h, err)
			}
			if h := lf.OpenHandles(); len(h) > 0 {
				rt.Fatalf("left open below: %q (%v)", h, err)
			}
			if closed {
				rt.Fatalf("the layer copied from is closed")
			}
			all, serr := fsmodel.SnapDir(dir)
			fail(serr)
			out := fsmodel.Tree{}
			for p, n := range all {
				switch r, in := strings.CutPrefix(p, "merged/"); {
				case in:
					out[r] = n
				case p == "merged":
					out["."] = n
				case p != "." && p != "work":
					out["../"+p] = n
				}
			}
			if t, terr := fsmodel.SnapDir(low); terr != nil || t.Diff(below) != "" {
				rt.Fatalf("the layer copied from was changed: %v\n%s", terr, t.Diff(below))
			}
			return err, out
		}
		var calls []string
		var ops []fsx.Op
		err, got := attempt(func(where string, o fsx.Op) error {
			calls, ops = append(calls, where+"."+o.String()), append(ops, o)
			return nil
		}, false)
		c.Log("  = %v: %s", err, strings.Join(calls, "; "))
		if !sorts {
			if !errors.Is(err, overlayfs.ErrTypeNotSupported) {
				rt.Fatalf("copying up %v: %v", what, err)
			}
			if d := noDirTimes(got).Diff(noDirTimes(content)); d != "" {
				rt.Fatalf("what can not be copied up leaves\n%s", d)
			}
			return
		}
		if err != nil {
			rt.Fatalf("copy up %q: %v", name, err)
		}
		same := func(a, b fsmodel.Tree) string {
			x, y := noDirTimes(a), noDirTimes(b)
			if n, ok := b[name]; ok && n.Mode.IsDir() { // nothing comes after it
				x[name], y[name] = a[name], n
			}
			return x.Diff(y)
		}
		if d := same(got, want); d != "" {
			rt.Fatalf("after copying %q up the top differs from what it should hold:\n%s", name, d)
		}
		if len(calls) > 60 {
			calls = calls[:60]
		}
		for k := range calls {
			if !vt.Chance(rt, 2, "fail it") {
				continue
			}
			fault := fsx.Vary(rt, fsx.ErrInjected)
			seen := 0
			hook := func(where string, o fsx.Op) error {
				seen++
				if seen == k+1 {
					return fault
				}
				return nil
			}
			err, got := attempt(hook, false)
			o := ops[k]
			let := o.Kind == "Chmod" || o.Kind == "Chtimes" || o.Kind == "Stat" || o.Kind == "File.Close" && strings.HasPrefix(calls[k], "below") || o.Kind == "Remove" || o.Kind == "File.Fd"
			tell := fmt.Sprintf("copying %q up, %s failing as %v: %v", name, calls[k], fault, err)
			switch {
			case err == nil && !let:
				rt.Fatalf("%s", tell)
			case err != nil && !errors.Is(err, fault):
				rt.Fatalf("%s: not what failed", tell)
			case err == nil && (o.Kind == "Chmod" || o.Kind == "Chtimes" || o.Kind == "Stat"):
				// attributes may be let go, no more
				plain := func(t fsmodel.Tree) fsmodel.Tree {
					out := fsmodel.Tree{}
					for p, n := range t {
						n.Mode, n.Mtime = n.Mode.Type(), 0
						out[p] = n
					}
					return out
				}
				if d := plain(got).Diff(plain(want)); d != "" {
					rt.Fatalf("%s: leaves\n%s", tell, d)
				}
			case err == nil:
				if d := same(got, want); d != "" {
					rt.Fatalf("%s: leaves\n%s", tell, d)
				}
			default:
				// some of the parents, nothing of it, nothing else
				rest := noDirTimes(got)
				for p, n := range parents {
					if _, ok := content[p]; ok || p == name {
						continue
					}
					if g, ok := rest[p]; ok && g == n {
						delete(rest, p)
					}
				}
				if d := rest.Diff(noDirTimes(content)); d != "" {
					rt.Fatalf("%s: leaves\n%s", tell, d)
				}
				c.Label("failed at %s", o.Kind)
				seen = 0
				_, got = attempt(hook, true)
				if d := same(got, want); d != "" {
					rt.Fatalf("%s: done again it leaves\n%s", tell, d)
				}
			}
		}
	})
}

// What is no name of a layer is not copied up.
func TestC35_Names(t *testing.T) {
	vt.Check(t, vt.N(1500, 10000), "one name asked of CopyUpPolicyWork that a layer may not have; non-trivial: it does not", func(rt *rapid.T, c *vt.Case) {
		r := synthfs.NewRoot("below", nil)
		if err := fsmodel.Grow(rt, c, vroot.Widen[vroot.File](r), fsmodel.GrowOpts{Steps: 6, Names: names}); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		name := vt.Of(rt, "name", "", ".", "./", "a/..", "/", names[vt.Pick(rt, 4, "n")], names[vt.Pick(rt, 4, "n")]+"/"+names[vt.Pick(rt, 4, "n")])
		tr := synthfs.NewRoot("top", nil)
		top, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen[vroot.File](tr), memStore{newMarks()})
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		before, _ := fsmodel.Snap(top.Fsys())
		_, has := r.Lstat(name)
		err = (&overlayfs.CopyUpPolicyWork{}).CopyUp(vroot.Widen[vroot.File](r), top, name)
		c.Log("copy up %q: %v", name, err)
		after, serr := fsmodel.Snap(top.Fsys())
		if serr != nil {
			rt.Fatalf("%v", serr)
		}
		switch root := filepath.Clean("/"+name) == "/"; {
		case root && !errors.Is(err, fs.ErrInvalid), !root && (err == nil) != (has == nil), !root && has != nil && fsmodel.Class(err) != fsmodel.Class(has):
			rt.Fatalf("copy up %q: %v; the layer: %v", name, err, has)
		}
		if err != nil {
			c.NonTrivial()
			if d := noDirTimes(after).Diff(noDirTimes(before)); d != "" {
				rt.Fatalf("copy up %q: %v, and leaves\n%s", name, err, d)
			}
		}
	})
}

// One policy serves any number of overlays at once.
func TestC35_Shared(t *testing.T) {
	vt.Check(t, vt.N(150, 2000), "one policy used by two to five overlays at once, each writing to one to three of its files of up to 200001 bytes, read below in pieces; non-trivial: two or more are longer than a piece", func(rt *rapid.T, c *vt.Case) {
		policy := overlayfs.NewCopyUpPolicyWork()
		n := 2 + vt.Pick(rt, 4, "overlays")
		piece := vt.Of(rt, "piece", 4096, 16384, 65536)
		type one struct {
			ov    *overlayfs.Fs
			files map[string]string
		}
		var all []one
		long := 0
		for i := range n {
			o := one{files: map[string]string{}}
			r := synthfs.NewRoot("below", nil)
			for j := range 1 + vt.Pick(rt, 3, "files") {
				size := vt.Of(rt, "size", sizes[3:]...)
				if size > piece {
					long++
				}
				c.Log("overlay %d: %s of %d", i, names[j], size)
				o.files[names[j]] = patch(i*3+j, size)
				if err := vroot.WriteFile(r, names[j], []byte(o.files[names[j]]), 0o600); err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
			}
			tr := synthfs.NewRoot("top", nil)
			top, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen[vroot.File](tr), memStore{newMarks()})
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			pause := fsmodel.Pauses(uint64(vt.Pick(rt, 1<<20, "pauses")))
			low := overlayfs.NewDataSource[vroot.File](dripping{vroot.Widen[vroot.File](r), piece, pause})
			if o.ov, err = overlayfs.New(top, []*overlayfs.DataSource{low}, &overlayfs.Option{CopyUpPolicy: policy}); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			defer o.ov.Close()
			all = append(all, o)
		}
		c.Log("%d overlays, pieces of %d", n, piece)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i, o := range all {
			wg.Go(func() {
				for _, f := range slices.Sorted(maps.Keys(o.files)) {
					errs[i] = errors.Join(errs[i], o.ov.Chmod(f, 0o640))
				}
			})
		}
		wg.Wait()
		for i, o := range all {
			if errs[i] != nil {
				rt.Fatalf("overlay %d: %v", i, errs[i])
			}
			for f, want := range o.files {
				got, err := vroot.ReadFile(o.ov, f)
				if err != nil || string(got) != want {
					k := 0
					for k < min(len(got), len(want)) && got[k] == want[k] {
						k++
					}
					rt.Fatalf("overlay %d: %s, of %d bytes, is copied up as %d bytes which differ at %d: %v", i, f, len(want), len(got), k, err)
				}
			}
		}
		if long >= 2 {
			c.NonTrivial()
		}
	})
}
