package vroott

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// fill makes the tree of a snapshot.
func fill(fsys fsmodel.FS, t fsmodel.Tree) error {
	for _, p := range t.Paths() {
		n := t[p]
		var err error
		switch {
		case p == ".":
		case n.Mode.IsDir():
			if err = fsys.Mkdir(p, 0o777); err == nil {
				err = fsys.Chmod(p, n.Mode.Perm())
			}
		case n.Mode&fs.ModeSymlink != 0:
			err = fsys.Symlink(n.Target, p)
		default:
			if err = vroot.WriteFile(fsys, p, []byte(n.Data), 0o666); err == nil {
				err = fsys.Chmod(p, n.Mode.Perm())
			}
		}
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
	}
	return nil
}

func noDot(ps []string) []string {
	return slices.DeleteFunc(slices.Clone(ps), func(p string) bool { return p == "." })
}

// readFS is all that the bridge gives.
type readFS interface {
	fs.ReadDirFS
	fs.ReadFileFS
	fs.StatFS
	fs.ReadLinkFS
}

// ioName is a path in the tree, near it, or one fs.ValidPath refuses.
func ioName(rt *rapid.T, ps []string) string {
	p := ps[vt.Pick(rt, len(ps), "of")]
	switch vt.Pick(rt, 12, "name") {
	case 0, 1, 2, 3, 4:
	case 5, 6:
		p = path.Join(p, vt.Of(rt, "below", "a", "b", "c", "zz", "a/b"))
	case 7:
		p = vt.Of(rt, "bad", "/"+p, p+"/", "./"+p, p+"/.", p+"//a", "..", "../"+p, p+"/..", "a/../"+p, "", "/", p+"/./a", "\x00", p+"/a\x00b", "//")
	case 8:
		p = vt.Of(rt, "odd", `a\b`, "a:b", " ", "...", "a\n", "\xff", p+" ", "a.", "~", ".a", "..a", "c:")
	case 9:
		p = path.Join(p, path.Base(ps[vt.Pick(rt, len(ps), "of")]))
	default:
		p = "."
	}
	return p
}

// bad is what an fs.FS refuses on this platform.
func bad(name string) bool { return !fs.ValidPath(name) || strings.Contains(name, "\x00") }

func ioClass(err error) string {
	switch {
	case err == nil, errors.Is(err, io.EOF):
		return "ok"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "refused"
}

func infoText(fi fs.FileInfo, noName bool) string {
	if fi == nil {
		return "no info"
	}
	s := fi.Mode().String()
	if fi.Mode().IsRegular() {
		s += fmt.Sprintf(" %d", fi.Size())
	}
	if fi.IsDir() != fi.Mode().IsDir() {
		s += " IsDir?"
	}
	if !noName {
		s = fi.Name() + " " + s
	}
	return s
}

func entText(ents []fs.DirEntry) (out []string) {
	for _, e := range ents {
		fi, err := e.Info()
		if err != nil {
			out = append(out, e.Name()+" "+ioClass(err))
			continue
		}
		s := e.Name() + " " + e.Type().String() + " " + infoText(fi, false)
		out = append(out, s)
	}
	return out
}

// ioOps does one thing to an fs.FS and tells what came of it.
func ioOps(op, name string, fsys readFS, n int) (string, error) {
	switch op {
	case "Stat":
		fi, err := fsys.Stat(name)
		if err != nil {
			return "", err
		}
		return infoText(fi, true), nil
	case "Lstat":
		fi, err := fsys.Lstat(name)
		if err != nil {
			return "", err
		}
		return infoText(fi, name == "."), nil
	case "ReadLink":
		return fsys.ReadLink(name)
	case "ReadFile":
		b, err := fsys.ReadFile(name)
		return fmt.Sprintf("%q", b), err
	case "ReadDir":
		ents, err := fsys.ReadDir(name)
		return strings.Join(entText(ents), "\n"), err
	}
	f, err := fsys.Open(name)
	if err != nil {
		if f != nil {
			return "a file with the error", nil
		}
		return "", err
	}
	fi, err := f.Stat()
	if err != nil {
		_ = f.Close()
		return "", fmt.Errorf("stat of what was opened: %v", err)
	}
	out := infoText(fi, true)
	if fi.IsDir() {
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return "no ReadDirFile", nil
		}
		var all []string
		for pass := 0; ; pass++ {
			ents, err := d.ReadDir(n)
			all = append(all, entText(ents)...)
			if n > 0 && len(ents) == 0 && err == nil {
				return "empty ReadDir(n) without an error", nil
			}
			if n > 0 && len(ents) > n {
				return "more than asked for", nil
			}
			if err == io.EOF && n <= 0 {
				return "EOF of ReadDir(-1)", nil
			}
			if err != nil || n <= 0 || pass > 100 {
				if err != nil && err != io.EOF {
					return "", err
				}
				break
			}
		}
		sort.Strings(all)
		out += "\n" + strings.Join(all, "\n")
	} else {
		if ra, ok := f.(io.ReaderAt); ok && n > 0 {
			b := make([]byte, n)
			m, err := ra.ReadAt(b, 1)
			out += fmt.Sprintf(" at %q %v", b[:m], err)
		}
		var all []byte
		b := make([]byte, max(n, 1)*3)
		for {
			m, err := f.Read(b)
			all = append(all, b[:m]...)
			if err == io.EOF {
				break
			}
			if err != nil || len(all) > 1<<16 {
				_ = f.Close()
				return string(all), err
			}
		}
		out += fmt.Sprintf(" %q", all)
		if s, ok := f.(io.Seeker); ok && n > 0 {
			at, err := s.Seek(int64(-min(n, len(all))), io.SeekEnd)
			rest, err2 := io.ReadAll(f)
			out += fmt.Sprintf(" seek %d %v %q %v", at, err, rest, err2)
		}
	}
	if err := f.Close(); err != nil {
		return "", fmt.Errorf("close: %v", err)
	}
	return out, nil
}

// The bridge to io/fs tells of a tree what os.DirFS tells of it.
func TestC23_ToIoFs(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one generated tree, a file system over it put through ToIoFs or ToIoFsRoot, and 12 reads of valid, odd and invalid names answered next to os.DirFS, below a Sub too; non-trivial: an invalid name and at least three reads that worked", func(rt *rapid.T, c *vt.Case) {
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		dir, clear := fsx.Scratch()
		defer clear()
		h, err := fsx.New(dir)
		fail(err)
		defer h.Close()
		noLinks := vt.Chance(rt, 3, "nolinks")
		fail(fsmodel.Grow(rt, c, h, fsmodel.GrowOpts{Steps: 14, NoLinks: noLinks, Names: []string{"a", "b", "c", "d", "B", "a.b", ".h", "..x"}}))
		tree, err := fsmodel.SnapDir(dir)
		fail(err)
		ps := tree.Paths()
		want := os.DirFS(dir).(readFS)

		var got fs.FS
		kind := vt.Of(rt, "kind", "osfs.Fs", "osfs.Root", "hooked", "widened root", "prefix", "readonly", "synthfs", "synthfs root", "from", "readonly root", "normalized")
		c.Label("kind %s", kind)
		c.Log("%s", kind)
		root := false
		switch kind {
		case "osfs.Fs":
			f, err := osfs.NewFs(dir)
			fail(err)
			got = vroot.ToIoFs[*osfs.File](f)
		case "hooked":
			got = vroot.ToIoFs[vroot.File](h)
		case "osfs.Root", "readonly root", "widened root", "normalized":
			r, err := osfs.NewRoot(dir)
			fail(err)
			defer r.Close()
			switch kind {
			case "osfs.Root":
				got, root = vroot.ToIoFsRoot[*osfs.File](r), true
			case "normalized":
				got, root = vroot.ToIoFsRoot[*osfs.File](vroot.NewPathNormalizerRoot[*osfs.File](r)), true
			case "readonly root":
				got, root = vroot.ToIoFsRoot[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[*osfs.File](r)), true
			default:
				got = vroot.ToIoFs[vroot.File](vroot.Widen[*osfs.File](r))
			}
		case "prefix":
			f, err := osfs.NewFs(filepath.Dir(dir))
			fail(err)
			p, err := vroot.NewPathPrefixFs[*osfs.File](f, filepath.Base(dir))
			fail(err)
			got = vroot.ToIoFs[*osfs.File](p)
		case "readonly":
			got = vroot.ToIoFs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](h))
		case "synthfs", "synthfs root":
			umask := fs.FileMode(0)
			r := synthfs.NewRoot("mem", &synthfs.Option{Umask: &umask})
			fail(fill(r, tree))
			fail(r.Chmod(".", tree["."].Mode.Perm()))
			if kind == "synthfs" {
				got = vroot.ToIoFs[vroot.File](r)
			} else {
				got, root = vroot.ToIoFsRoot[vroot.File](r), true
			}
		case "from":
			got = vroot.ToIoFs[vroot.File](vroot.FromIoFs(want.(fs.ReadLinkFS), "from"))
		}
		full, ok := got.(readFS)
		if !ok {
			rt.Fatalf("%s: the bridge lacks ReadDirFS, ReadFileFS, StatFS or ReadLinkFS", kind)
		}
		works, refused := 0, 0
		inSub := false
		compare := func(full, want readFS, ps []string) {
			op := vt.Of(rt, "op", "Open", "Open", "Stat", "Lstat", "ReadFile", "ReadDir", "ReadLink")
			name := ioName(rt, ps)
			n := vt.Of(rt, "n", -1, 0, 1, 2, 5)
			c.Log("%s %q n=%d", op, name, n)
			g, gerr := ioOps(op, name, full, n)
			if bad(name) {
				refused++
				c.Label("invalid name")
				var pe *fs.PathError
				if !errors.Is(gerr, fs.ErrInvalid) || !errors.As(gerr, &pe) || pe.Path != name {
					rt.Fatalf("%s %q: %v, want fs.ErrInvalid in a PathError for that name", op, name, gerr)
				}
				return
			}
			w, werr := ioOps(op, name, want, n)
			cls := ioClass(werr)
			c.Label("%s %s", op, cls)
			if errors.Is(gerr, syscall.ELOOP) && !noLinks {
				return // os.Root follows fewer links than the kernel
			}
			if ioClass(gerr) != cls && !(cls != "ok" && gerr != nil && op != "Stat" && op != "Open" && op != "Lstat") && !inSub {
				rt.Fatalf("%s %q: %v, want %v", op, name, gerr, werr)
			}
			if gerr != nil {
				return
			}
			if werr == nil && g != w {
				rt.Fatalf("%s %q:\n%s\nwant\n%s", op, name, g, w)
			}
			if werr == nil {
				works++
			}
		}
		for range 8 {
			compare(full, want, ps)
		}
		// below a directory
		sd := ioName(rt, ps)
		c.Log("Sub %q", sd)
		sub, err := fs.Sub(got, sd)
		switch n := tree[sd]; {
		case bad(sd):
			if !errors.Is(err, fs.ErrInvalid) {
				rt.Fatalf("Sub %q: %v, want fs.ErrInvalid", sd, err)
			}
		case err != nil:
			if n.Mode.IsDir() {
				rt.Fatalf("Sub of directory %q: %v", sd, err)
			}
		default:
			fi, err := want.Stat(sd)
			if err != nil || !fi.IsDir() {
				rt.Fatalf("Sub of %q worked: %v %v", sd, fi, err)
			}
			real, err := filepath.EvalSymlinks(filepath.Join(dir, sd))
			fail(err)
			t2, err := fsmodel.SnapDir(real)
			fail(err)
			s2, ok := sub.(readFS)
			if !ok {
				rt.Fatalf("%s: Sub lacks ReadDirFS, ReadFileFS, StatFS or ReadLinkFS", kind)
			}
			if _, ok := sub.(fs.SubFS); !ok {
				rt.Fatalf("%s: Sub lacks SubFS", kind)
			}
			c.Label("sub")
			// a rooted Sub refuses links that lead out of it, a prefix does not
			inSub = root && !noLinks
			for range 4 {
				compare(s2, os.DirFS(real).(readFS), t2.Paths())
			}
			if noLinks && vt.Chance(rt, 4, "TestFS sub") {
				if err := fstest.TestFS(sub, noDot(t2.Paths())...); err != nil {
					rt.Fatalf("fstest.TestFS of Sub(%q): %v", sd, err)
				}
			}
		}
		if noLinks && vt.Chance(rt, 4, "TestFS") {
			c.Label("fstest")
			if err := fstest.TestFS(got, noDot(ps)...); err != nil {
				rt.Fatalf("fstest.TestFS: %v", err)
			}
		}
		if refused > 0 && works >= 3 {
			c.NonTrivial()
		}
		if n := h.OpenHandles(); len(n) > 0 {
			rt.Fatalf("left open: %v", n)
		}
	})
}

// narrowFS is an fs.ReadLinkFS whose files can do no more than it says, whose
// listings name entries that have vanished, and whose calls may fail.
type narrowFS struct {
	readFS
	at, seek, list bool
	gone           map[string]bool // Info fails with ErrNotExist
	sick           map[string]bool // Info fails otherwise
	opened, closed int
}

var errSick = errors.New("sick entry")

func (n *narrowFS) Open(name string) (fs.File, error) {
	f, err := n.readFS.Open(name)
	if err != nil {
		return nil, err
	}
	n.opened++
	c := &narrowFile{File: f, of: n, dir: name}
	switch {
	case n.at && n.seek && n.list:
		return struct {
			*narrowFile
			narrowAt
			narrowSeek
			narrowList
		}{c, narrowAt{c}, narrowSeek{c}, narrowList{c}}, nil
	case n.at && n.seek:
		return struct {
			*narrowFile
			narrowAt
			narrowSeek
		}{c, narrowAt{c}, narrowSeek{c}}, nil
	case n.at:
		return struct {
			*narrowFile
			narrowAt
		}{c, narrowAt{c}}, nil
	case n.seek && n.list:
		return struct {
			*narrowFile
			narrowSeek
			narrowList
		}{c, narrowSeek{c}, narrowList{c}}, nil
	case n.list:
		return struct {
			*narrowFile
			narrowList
		}{c, narrowList{c}}, nil
	}
	return c, nil
}

type narrowFile struct {
	fs.File
	of  *narrowFS
	dir string
}

func (f *narrowFile) Close() error { f.of.closed++; return f.File.Close() }

type narrowAt struct{ f *narrowFile }

func (f narrowAt) ReadAt(b []byte, off int64) (int, error) {
	return f.f.File.(io.ReaderAt).ReadAt(b, off)
}

type narrowSeek struct{ f *narrowFile }

func (f narrowSeek) Seek(off int64, whence int) (int64, error) {
	return f.f.File.(io.Seeker).Seek(off, whence)
}

type narrowList struct{ f *narrowFile }

func (f narrowList) ReadDir(n int) ([]fs.DirEntry, error) {
	ents, err := f.f.File.(fs.ReadDirFile).ReadDir(n)
	for i, e := range ents {
		p := path.Join(f.f.dir, e.Name())
		if f.f.of.gone[p] {
			ents[i] = oddEntry{e, &fs.PathError{Op: "lstat", Path: p, Err: syscall.ENOENT}}
		} else if f.f.of.sick[p] {
			ents[i] = oddEntry{e, errSick}
		}
	}
	return ents, err
}

type oddEntry struct {
	fs.DirEntry
	err error
}

func (e oddEntry) Info() (fs.FileInfo, error) { return nil, e.err }

// A foreign fs.FS taken in reads as what it is, changes nothing, and says what
// it can not do.
func TestC23_FromIoFs(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one generated tree behind an fs.FS with a generated choice of capabilities and vanishing entries, taken in with FromIoFs, and ten calls on it or its files compared with the tree; non-trivial: three or more reads that worked and a refusal", func(rt *rapid.T, c *vt.Case) {
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		dir, clear := fsx.Scratch()
		defer clear()
		h, err := fsx.New(dir)
		fail(err)
		defer h.Close()
		fail(fsmodel.Grow(rt, c, h, fsmodel.GrowOpts{Steps: 14}))
		tree, err := fsmodel.SnapDir(dir)
		fail(err)
		ps := tree.Paths()
		caps := vt.Pick(rt, 8, "caps")
		src := &narrowFS{readFS: os.DirFS(dir).(readFS), gone: map[string]bool{}, sick: map[string]bool{}}
		src.at, src.seek, src.list = caps == 0 || caps == 1 || caps == 2, caps == 0 || caps == 1 || caps == 3, caps == 0 || caps == 3 || caps >= 5
		for range vt.Pick(rt, 4, "gone") {
			src.gone[ps[vt.Pick(rt, len(ps), "of")]] = true
		}
		if vt.Chance(rt, 4, "sick") {
			src.sick[ps[vt.Pick(rt, len(ps), "of")]] = true
		}
		c.Log("at %v seek %v list %v gone %v sick %v", src.at, src.seek, src.list, src.gone, src.sick)
		fsys := vroot.FromIoFs(src, "named")
		if fsys.Name() != "named" {
			rt.Fatalf("named %q", fsys.Name())
		}
		works, refused := 0, 0
		for range 10 {
			p := ps[vt.Pick(rt, len(ps), "of")]
			name := p
			switch vt.Pick(rt, 8, "spelling") {
			case 0:
				name = p + "/."
			case 1:
				name = "./" + p
			case 2:
				name = vt.Of(rt, "up", "..", "../"+p, "/"+p, "a/../../"+p, "/")
				c.Log("escape %q", name)
				refused++
				for op, err := range climbErrs(fsys, name) {
					if !errors.Is(err, vroot.ErrPathEscapes) && !(name == "" && err != nil) {
						if name == "" { // filepath.Clean makes it "."
							continue
						}
						rt.Fatalf("%s %q: %v, want vroot.ErrPathEscapes", op, name, err)
					}
				}
				continue
			case 3:
				p = path.Join(p, "zz")
				name = p
			case 4:
				name = "a//../" + p
			}
			switch op := vt.Of(rt, "op", "open", "open", "open", "stat", "lstat", "readlink", "write"); op {
			case "write":
				c.Log("writes to %q", name)
				for op, err := range writeErrs(fsys, name) {
					if !errors.Is(err, syscall.EROFS) {
						rt.Fatalf("%s %q: %v, want EROFS", op, name, err)
					}
				}
				refused++
			case "stat", "lstat":
				c.Log("%s %q", op, name)
				get, ref := fsys.Stat, os.Stat
				if op == "lstat" {
					get, ref = fsys.Lstat, os.Lstat
				}
				fi, err := get(name)
				wi, werr := ref(filepath.Join(dir, p))
				if ioClass(err) != ioClass(werr) {
					rt.Fatalf("%s %q: %v, want %v", op, name, err, werr)
				}
				if err == nil {
					works++
					if infoText(fi, true) != infoText(wi, true) {
						rt.Fatalf("%s %q: %v, want %v", op, name, infoText(fi, true), infoText(wi, true))
					}
				}
			case "readlink":
				c.Log("readlink %q", name)
				got, err := fsys.ReadLink(name)
				want, werr := os.Readlink(filepath.Join(dir, p))
				if (err == nil) != (werr == nil) || err == nil && got != want {
					rt.Fatalf("readlink %q: %q, %v, want %q, %v", name, got, err, want, werr)
				}
			case "open":
				flag := vt.Of(rt, "flag", os.O_RDONLY, os.O_RDONLY, os.O_RDONLY|os.O_EXCL, os.O_RDWR, os.O_WRONLY, os.O_RDONLY|os.O_CREATE, os.O_RDONLY|os.O_TRUNC, os.O_APPEND)
				c.Log("open %q %#x", name, flag)
				f, err := fsys.OpenFile(name, flag, 0o666)
				if flag != os.O_RDONLY && flag != os.O_EXCL {
					if flag == os.O_APPEND && err == nil { // reading for append writes nothing
						_ = f.Close()
						continue
					}
					refused++
					if !errors.Is(err, syscall.EROFS) || f != nil {
						rt.Fatalf("open %q %#x: %v, %v, want EROFS", name, flag, f, err)
					}
					continue
				}
				wi, werr := os.Stat(filepath.Join(dir, p))
				if ioClass(err) != ioClass(werr) {
					rt.Fatalf("open %q: %v, want %v", name, err, werr)
				}
				if err != nil {
					if f != nil {
						rt.Fatalf("open %q: a file with error %v", name, err)
					}
					continue
				}
				works++
				if f.Name() != path.Clean(p) {
					rt.Fatalf("open %q: the file is named %q", name, f.Name())
				}
				if wi.IsDir() {
					listFrom(rt, c, src, f, dir, p)
				} else {
					want, err := os.ReadFile(filepath.Join(dir, p))
					fail(err)
					readFrom(rt, src, f, want)
				}
				for op, err := range fileWriteErrs(f) {
					if !errors.Is(err, syscall.EPERM) {
						rt.Fatalf("%s on a file of FromIoFs: %v, want EPERM", op, err)
					}
				}
				if err := f.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
			}
		}
		if src.opened != src.closed {
			rt.Fatalf("%d files opened, %d closed", src.opened, src.closed)
		}
		after, err := fsmodel.SnapDir(dir)
		fail(err)
		if d := after.Diff(tree); d != "" {
			rt.Fatalf("changed:\n%s", d)
		}
		if works >= 3 && refused > 0 {
			c.NonTrivial()
		}
	})
}

func climbErrs(sub fsmodel.FS, name string) map[string]error {
	m := map[string]error{}
	_, m["stat"] = sub.Stat(name)
	_, m["lstat"] = sub.Lstat(name)
	_, m["readlink"] = sub.ReadLink(name)
	_, m["open"] = sub.Open(name)
	_, m["openfile"] = sub.OpenFile(name, os.O_RDONLY, 0)
	_, m["ReadDir"] = vroot.ReadDir(sub, name)
	_, m["ReadFile"] = vroot.ReadFile(sub, name)
	return m
}

func writeErrs(sub fsmodel.FS, name string) map[string]error {
	m := map[string]error{}
	_, m["create"] = sub.Create(name)
	_, m["openfile"] = sub.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
	m["mkdir"] = sub.Mkdir(name, 0o777)
	m["mkdirall"] = sub.MkdirAll(name, 0o777)
	m["remove"] = sub.Remove(name)
	m["removeall"] = sub.RemoveAll(name)
	m["chmod"] = sub.Chmod(name, 0o700)
	m["chown"] = sub.Chown(name, -1, -1)
	m["lchown"] = sub.Lchown(name, -1, -1)
	m["chtimes"] = sub.Chtimes(name, fsmodel.Stamp(1), fsmodel.Stamp(1))
	m["rename"] = sub.Rename(name, "a")
	m["rename to"] = sub.Rename("a", name)
	m["link"] = sub.Link(name, "zzz")
	m["symlink"] = sub.Symlink("a", name)
	m["WriteFile"] = vroot.WriteFile(sub, name, []byte("x"), 0o666)
	return m
}

func fileWriteErrs(f vroot.File) map[string]error {
	m := map[string]error{}
	_, m["write"] = f.Write([]byte("x"))
	_, m["writeat"] = f.WriteAt([]byte("x"), 0)
	_, m["writestring"] = f.WriteString("x")
	m["truncate"] = f.Truncate(0)
	m["chmod"] = f.Chmod(0)
	m["chown"] = f.Chown(-1, -1)
	m["sync"] = f.Sync()
	return m
}

func readFrom(rt *rapid.T, src *narrowFS, f vroot.File, want []byte) {
	off := vt.Pick(rt, len(want)+2, "off")
	b := make([]byte, vt.Of(rt, "n", 0, 1, 7, 400))
	n, err := f.ReadAt(b, int64(off))
	if !src.at {
		if !errors.Is(err, vroot.ErrOpNotSupported) || n != 0 {
			rt.Fatalf("ReadAt of a file without it: %d, %v", n, err)
		}
	} else if w := want[min(off, len(want)):]; !bytes.Equal(b[:n], w[:min(len(w), len(b))]) {
		rt.Fatalf("ReadAt %d: %q, %v", off, b[:n], err)
	}
	got, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(got, want) {
		rt.Fatalf("read %q, %v, want %q", got, err, want)
	}
	at, err := f.Seek(int64(off), io.SeekStart)
	if !src.seek {
		if !errors.Is(err, vroot.ErrOpNotSupported) {
			rt.Fatalf("Seek of a file without it: %v", err)
		}
		return
	}
	if err != nil || at != int64(off) {
		rt.Fatalf("Seek %d: %d, %v", off, at, err)
	}
	if got, err = io.ReadAll(f); err != nil || !bytes.Equal(got, want[min(off, len(want)):]) {
		rt.Fatalf("read after seek %q, %v", got, err)
	}
	// and out again
	_, at2 := vroot.NarrowFile(f).(io.ReaderAt)
	if at2 != src.at {
		rt.Fatalf("NarrowFile: io.ReaderAt %v, the file has it: %v", at2, src.at)
	}
}

func listFrom(rt *rapid.T, c *vt.Case, src *narrowFS, f vroot.File, dir, p string) {
	how := vt.Of(rt, "how", "ReadDir", "Readdir", "Readdirnames")
	n := vt.Of(rt, "n", -1, 0, 1, 2, 3)
	c.Log("%s(%d)", how, n)
	ents, err := os.ReadDir(filepath.Join(dir, p))
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	// an entry is known to the source by the way the directory was opened
	gone := func(e fs.DirEntry) bool { return src.gone[path.Join(p, e.Name())] }
	sick := false
	var want []string
	for _, e := range ents {
		if how == "Readdir" && gone(e) {
			continue
		}
		sick = sick || how == "Readdir" && src.sick[path.Join(p, e.Name())]
		want = append(want, e.Name())
	}
	var got []string
	for i := 0; i < 200; i++ {
		m := 0
		var err error
		switch how {
		case "ReadDir":
			var es []fs.DirEntry
			es, err = f.ReadDir(n)
			for _, e := range es {
				got = append(got, e.Name())
			}
			m = len(es)
		case "Readdir":
			var is []fs.FileInfo
			is, err = f.Readdir(n)
			for i, fi := range is {
				if fi == nil {
					rt.Fatalf("Readdir(%d) info %d of %d is nil", n, i, len(is))
				}
				got = append(got, fi.Name())
			}
			m = len(is)
		case "Readdirnames":
			var ns []string
			ns, err = f.Readdirnames(n)
			got = append(got, ns...)
			m = len(ns)
		}
		if !src.list {
			if !errors.Is(err, vroot.ErrOpNotSupported) || m != 0 {
				rt.Fatalf("%s of a file without it: %d entries, %v", how, m, err)
			}
			return
		}
		if sick && errors.Is(err, errSick) {
			c.Label("sick")
			return
		}
		if err == io.EOF && n > 0 && m == 0 {
			break
		}
		if err != nil {
			rt.Fatalf("%s(%d): %v", how, n, err)
		}
		if n > 0 && (m == 0 || m > n) {
			rt.Fatalf("%s(%d): %d entries and no error", how, n, m)
		}
		if n <= 0 {
			break
		}
	}
	if sick {
		rt.Fatalf("%s(%d) said nothing of the entry it could not read", how, n)
	}
	sort.Strings(got)
	if !slices.Equal(got, want) {
		rt.Fatalf("%s(%d): %q, want %q", how, n, got, want)
	}
}

// ReadDir, ReadFile and WriteFile do the whole of it or say why not.
func TestC23_Helpers(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "one generated tree and one call of ReadDir, ReadFile, WriteFile or Sub with at most one fault below; non-trivial: every one with a fault, every success on something not empty", func(rt *rapid.T, c *vt.Case) {
		fail := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		dir, clear := fsx.Scratch()
		defer clear()
		h, err := fsx.New(dir)
		fail(err)
		defer h.Close()
		fail(fsmodel.Grow(rt, c, h, fsmodel.GrowOpts{Steps: 10}))
		tree, err := fsmodel.SnapDir(dir)
		fail(err)
		ps := tree.Paths()
		p := ps[vt.Pick(rt, len(ps), "of")]
		if vt.Chance(rt, 5, "new") {
			p = path.Join(p, "zz")
		}
		faulty := ""
		partial := 0
		after := false
		if vt.Chance(rt, 2, "fault") {
			faulty = vt.Of(rt, "kind", "OpenFile", "File.Read", "File.ReadDir", "File.Write", "File.Close", "Stat")
			partial = vt.Pick(rt, 5, "partial")
			after = faulty == "File.Close"
		}
		hit := 0
		h.SetHook(func(o fsx.Op) fsx.Verdict {
			if o.Kind == faulty || o.Kind == "Open" && faulty == "OpenFile" {
				hit++
				return fsx.Verdict{Err: syscall.EIO, Partial: partial, After: after}
			}
			return fsx.Verdict{}
		})
		full := filepath.Join(dir, p)
		op := vt.Of(rt, "op", "ReadDir", "ReadFile", "WriteFile", "WriteFile", "Sub")
		c.Log("%s %s fault %s partial %d", op, p, faulty, partial)
		c.Label("%s fault %s", op, faulty)
		switch op {
		case "ReadDir":
			es, err := vroot.ReadDir[vroot.File](h, p)
			ws, werr := os.ReadDir(full)
			names := func(es []fs.DirEntry) (out []string) {
				for _, e := range es {
					out = append(out, e.Name())
				}
				return out
			}
			if hit > 0 && faulty != "File.Close" {
				if !errors.Is(err, syscall.EIO) {
					rt.Fatalf("ReadDir: %v, want the fault", err)
				}
				c.NonTrivial()
			} else if (err == nil) != (werr == nil) || err == nil && !slices.Equal(names(es), names(ws)) {
				rt.Fatalf("ReadDir: %q, %v, want %q, %v", names(es), err, names(ws), werr)
			} else if len(ws) > 1 {
				c.NonTrivial()
			}
		case "ReadFile":
			b, err := vroot.ReadFile[vroot.File](h, p)
			w, werr := os.ReadFile(full)
			if hit > 0 && faulty != "File.Close" {
				if !errors.Is(err, syscall.EIO) {
					rt.Fatalf("ReadFile: %v, want the fault", err)
				}
				c.NonTrivial()
			} else if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(b, w) {
				rt.Fatalf("ReadFile: %q, %v, want %q, %v", b, err, w, werr)
			} else if len(w) > 0 {
				c.NonTrivial()
			}
		case "WriteFile":
			data := bytes.Repeat([]byte{'w'}, vt.Of(rt, "len", 0, 1, 10, 5000))
			perm := vt.Of(rt, "perm", fs.FileMode(0o644), 0o600, 0o777)
			old, olderr := os.Stat(full)
			err := vroot.WriteFile[vroot.File](h, p, data, perm)
			if hit > 0 {
				if !errors.Is(err, syscall.EIO) {
					rt.Fatalf("WriteFile of %d bytes: %v, want the fault of %s", len(data), err, faulty)
				}
				c.NonTrivial()
				break
			}
			fi, serr := os.Stat(full)
			if err != nil {
				// a directory, or a name below nothing or a file
				if serr == nil && fi.Mode().IsRegular() {
					rt.Fatalf("WriteFile: %v", err)
				}
				if _, perr := os.Stat(path.Dir(full)); serr != nil && perr == nil && tree[p] == (fsmodel.Node{}) && tree[path.Dir(p)].Mode.IsDir() {
					rt.Fatalf("WriteFile of a new file: %v", err)
				}
				break
			}
			b, rerr := os.ReadFile(full)
			if rerr != nil || !bytes.Equal(b, data) {
				rt.Fatalf("WriteFile left %q, %v, want %d bytes", b, rerr, len(data))
			}
			want := perm
			if olderr == nil {
				want = old.Mode().Perm()
			}
			if fi.Mode().Perm() != want {
				rt.Fatalf("WriteFile left mode %v, want %v", fi.Mode(), want)
			}
			c.NonTrivial()
		case "Sub":
			sub, err := vroot.Sub[vroot.File](h, p)
			fi, werr := os.Stat(full)
			if faulty == "Stat" && hit > 0 {
				if !errors.Is(err, syscall.EIO) {
					rt.Fatalf("Sub: %v, want the fault", err)
				}
				break
			}
			if isDir := werr == nil && fi.IsDir(); isDir != (err == nil) {
				rt.Fatalf("Sub %q: %v; it is a directory: %v", p, err, isDir)
			}
			if err == nil {
				h.SetHook(nil)
				got, err := fsmodel.Snap(sub)
				if err != nil {
					rt.Fatalf("Sub %q: %v", p, err)
				}
				want := fsmodel.Tree{}
				real, err := filepath.EvalSymlinks(full)
				fail(err)
				want, err = fsmodel.SnapDir(real)
				fail(err)
				if d := got.Diff(want); d != "" {
					rt.Fatalf("Sub %q:\n%s", p, d)
				}
				c.NonTrivial()
			}
		}
		if n := h.OpenHandles(); len(n) > 0 {
			rt.Fatalf("%s left open: %v", op, n)
		}
	})
}
