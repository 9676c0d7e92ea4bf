package tarft

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// modeOf is the mode a member says.
func modeOf(n *node) fs.FileMode {
	m := fs.FileMode(n.e.mode&0o777) | n.kind
	for bit, f := range map[int64]fs.FileMode{0o4000: fs.ModeSetuid, 0o2000: fs.ModeSetgid, 0o1000: fs.ModeSticky} {
		if n.e.mode&bit != 0 {
			m |= f
		}
	}
	return m
}

// linked is the node whose bytes a hard link shows, nil where it shows none,
// and whether that is for the archive alone to say.
func linked(root, n *node, all []*entry) (*node, bool) {
	seen := map[*node]bool{}
	for n != nil && n.hard {
		if seen[n] {
			return nil, true
		}
		seen[n] = true
		at := slices.Index(all, n.e)
		to := path.Clean(n.e.link)
		times, before := 0, false
		for i, e := range all {
			if path.Clean(e.name) == to {
				times++
				before = before || i < at
			}
		}
		if !fs.ValidPath(to) || to == "." {
			return nil, false
		}
		d := root
		for c := range strings.SplitSeq(to, "/") {
			if d == nil || d.kind == fs.ModeSymlink || d.hard {
				return nil, false
			}
			d = d.kids[c]
		}
		if d == nil {
			return nil, true
		}
		if !d.dir() && (times != 1 || !before) {
			// which of them is meant is for the reader
			return nil, false
		}
		n = d
	}
	if n != nil && n.kind == fs.ModeSymlink {
		return nil, false
	}
	return n, true
}

// info holds a file info against the node.
func info(fi fs.FileInfo, name string, n, shows *node) string {
	if fi.Name() != path.Base(name) && name != "." {
		return fmt.Sprintf("name %q", fi.Name())
	}
	if fi.IsDir() != n.dir() || fi.Mode().Type() != n.kind {
		return fmt.Sprintf("mode %v, want type %v", fi.Mode(), n.kind)
	}
	if n.e == nil {
		return ""
	}
	if fi.Mode() != modeOf(n) {
		return fmt.Sprintf("mode %v, want %v", fi.Mode(), modeOf(n))
	}
	if !fi.ModTime().Equal(n.e.mtime) {
		return fmt.Sprintf("time %v, want %v", fi.ModTime(), n.e.mtime)
	}
	if n.kind == 0 && shows != nil && fi.Size() != int64(len(shows.e.data)) {
		return fmt.Sprintf("size %d, want %d", fi.Size(), len(shows.e.data))
	}
	return ""
}

func archive(rt *rapid.T, c *vt.Case) (es []*entry, names []string) {
	for i := range 1 + vt.Pick(rt, 9, "members") {
		e := genEntry(rt, i, names)
		if vt.Chance(rt, 25, "the top") {
			e.name = vt.Of(rt, "top", ".", "./")
			e.typ, e.data, e.sparse, e.frags, e.link, e.style = '5', nil, "", nil, "", "gnu"
			e.mtime = e.mtime.Truncate(time.Second)
		} else {
			if vt.Chance(rt, 8, "spelling") && e.sparse == "" {
				e.name = vt.Of(rt, "how", "./"+e.name, strings.Replace(e.name, "/", "//", 1), strings.Replace(e.name, "/", "/./", 1))
			}
			e.restyle()
			names = append(names, path.Clean(e.name))
		}
		es = append(es, e)
	}
	for _, e := range es {
		c.Log("%s", e)
	}
	return es, names
}

// crowd gives many members of one directory, some told twice.
func crowd(rt *rapid.T, c *vt.Case, names []string) (es []*entry) {
	n := vt.Of(rt, "crowd of", 70, 257, 1030)
	names = append(slices.Clone(names), ".")
	dir := path.Join(names[vt.Pick(rt, len(names), "in")], "crowd")
	c.Log("crowd of %d in %s", n, dir)
	step := vt.Of(rt, "order", 1, 3, 7)
	for i := range n + n/5 {
		k := i * step % n
		e := &entry{name: fmt.Sprintf("%s/e%04d", dir, k), typ: '0', style: "gnu", mode: 0o644, mtime: time.Unix(1e9+int64(i)*1000, 0), data: fmt.Appendf(nil, "%d by %d", k, i)}
		switch {
		case k%11 == 3:
			e.typ, e.data, e.mode = '5', nil, 0o755
		case k%11 == 7:
			e.typ, e.data, e.link = '2', nil, "e0000"
		}
		es = append(es, e)
	}
	return es
}

// Every member is where its name says, with its bytes, mode and time, however
// it is written down.
func TestC16_Content(t *testing.T) {
	vt.Check(t, vt.N(16000, 160000), "an archive of 1 to 9 members of all kinds and formats, every directory listed, every file read in a generated way; non-trivial: a sparse or hard linked file with bytes, and a directory with three entries", func(rt *rapid.T, c *vt.Case) {
		es, names := archive(rt, c)
		if vt.Chance(rt, 400, "crowd") {
			es = append(es, crowd(rt, c, names)...)
		}
		opt := options{dev: vt.Chance(rt, 2, "dev"), symlink: vt.Chance(rt, 3, "links")}
		root := tree(es, opt)
		raw := build(es, vt.Pick(rt, 4, "trailer"))
		if tr := tar.NewReader(bytes.NewReader(raw)); true {
			for {
				h, err := tr.Next()
				if err == io.EOF {
					break
				}
				if err != nil {
					rt.Fatalf("archive/tar on what the test built: %v", err)
				}
				_ = h
			}
		}
		fsys, err := tarfs.New(bytes.NewReader(raw), &tarfs.FsOption{AllowDev: opt.dev, HandleSymlink: opt.symlink})
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		rich, wide, dangling := false, false, false
		root.walk(".", func(p string, n *node) {
			shows := n
			if n.kind == fs.ModeSymlink {
				dangling = true
				fi, err := fsys.Lstat(p)
				if err != nil {
					rt.Fatalf("Lstat(%q): %v", p, err)
				}
				if bad := info(fi, p, n, n); bad != "" {
					rt.Fatalf("Lstat(%q): %s", p, bad)
				}
				if to, err := fsys.ReadLink(p); err != nil || to != path.Clean(n.e.link) {
					rt.Fatalf("ReadLink(%q) = %q, %v; want %q", p, to, err, n.e.link)
				}
				return
			}
			if n.hard {
				to, sure := linked(root, n, es)
				if to == nil || !to.dir() && to.kind != 0 || to.dir() {
					// a link that leads nowhere, or nowhere sure
					dangling = true
					if _, err := fs.ReadFile(fsys, p); err == nil && to == nil && sure {
						rt.Fatalf("%q, a link to nothing, is read", p)
					}
					return
				}
				shows = to
			}
			f, err := fsys.Open(p)
			if err != nil {
				rt.Fatalf("Open(%q): %v", p, err)
			}
			fi, err := f.Stat()
			if err != nil {
				rt.Fatalf("Stat(%q): %v", p, err)
			}
			if bad := info(fi, p, n, shows); bad != "" {
				rt.Fatalf("Stat(%q): %s", p, bad)
			}
			lfi, err := fsys.Lstat(p)
			if err != nil || fs.FormatFileInfo(lfi) != fs.FormatFileInfo(fi) {
				rt.Fatalf("Lstat(%q): %v, %v; Stat says %v", p, lfi, err, fi)
			}
			if n.dir() {
				wide = wide || len(n.kids) >= 3
				list(rt, f, p, n, fsys)
			} else {
				if n.kind == 0 && len(shows.e.data) > 0 && (n.hard || n.e.sparse != "") {
					rich = true
				}
				var data []byte
				if n.kind == 0 {
					data = shows.e.data
				}
				readFile(rt, f, p, data)
				if g, err := fs.ReadFile(fsys, p); err != nil || !bytes.Equal(g, data) {
					rt.Fatalf("ReadFile(%q): %d bytes, %v; want %d", p, len(g), err, len(data))
				}
				if _, err := fsys.Open(p + "/x"); err == nil {
					rt.Fatalf("%q is opened, %q being a file", p+"/x", p)
				}
			}
			if err := f.Close(); err != nil {
				rt.Fatalf("Close: %v", err)
			}
			if _, err := f.Read(make([]byte, 1)); !errors.Is(err, fs.ErrClosed) {
				rt.Fatalf("Read of a closed file: %v", err)
			}
			if _, err := f.Stat(); !errors.Is(err, fs.ErrClosed) {
				rt.Fatalf("Stat of a closed file: %v", err)
			}
			if r, ok := f.(io.ReaderAt); ok {
				if n, err := r.ReadAt(make([]byte, 1), 0); n != 0 || !errors.Is(err, fs.ErrClosed) {
					rt.Fatalf("ReadAt of a closed file: %d, %v", n, err)
				}
			}
			if s, ok := f.(io.Seeker); ok {
				if _, err := s.Seek(0, io.SeekStart); !errors.Is(err, fs.ErrClosed) {
					rt.Fatalf("Seek of a closed file: %v", err)
				}
			}
			if d, ok := f.(fs.ReadDirFile); ok {
				if des, err := d.ReadDir(-1); len(des) > 0 || n.dir() && !errors.Is(err, fs.ErrClosed) {
					rt.Fatalf("ReadDir of a closed file: %d, %v", len(des), err)
				}
			}
			for _, bad := range []string{path.Join(p, "none"), path.Join(p, "none/b")} {
				if n.dir() {
					if _, err := fsys.Open(bad); !errors.Is(err, fs.ErrNotExist) {
						rt.Fatalf("Open(%q): %v", bad, err)
					}
				}
			}
			for _, bad := range []string{"/" + p, p + "/", "./" + p + "x", "../" + p, ""} {
				var pe *fs.PathError
				if _, err := fsys.Open(bad); !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) || pe.Path != bad {
					rt.Fatalf("Open(%q): %v", bad, err)
				}
			}
		})
		if !dangling && vt.Chance(rt, 4, "TestFS") {
			var all []string
			root.walk(".", func(p string, n *node) { all = append(all, p) })
			if err := fstest.TestFS(fsys, all[1:]...); err != nil {
				rt.Fatalf("fstest.TestFS: %v", err)
			}
		}
		if rich && wide {
			c.NonTrivial()
		}
	})
}

// list reads a directory in pieces.
func list(rt *rapid.T, f fs.File, p string, n *node, fsys fs.FS) {
	d, ok := f.(fs.ReadDirFile)
	if !ok {
		rt.Fatalf("%q cannot be listed", p)
	}
	for pass := range 2 {
		var got []string
		size := vt.Of(rt, "entries at a time", -1, 0, 1, 2, 3, 100, 1000)
		for range 100 + len(n.kids) {
			des, err := d.ReadDir(size)
			for _, de := range des {
				got = append(got, de.Name())
				kid := n.kids[de.Name()]
				if kid == nil {
					rt.Fatalf("%q lists %q", p, de.Name())
				}
				if de.Type() != kid.kind || de.IsDir() != kid.dir() {
					rt.Fatalf("%q lists %q as %v, want %v", p, de.Name(), de.Type(), kid.kind)
				}
				fi, err := de.Info()
				if err != nil {
					rt.Fatalf("Info of %q in %q: %v", de.Name(), p, err)
				}
				if l, lerr := fs.Lstat(fsys, path.Join(p, de.Name())); lerr == nil && fs.FormatFileInfo(l) != fs.FormatFileInfo(fi) {
					rt.Fatalf("%q in %q is %v when listed, %v by itself", de.Name(), p, fs.FormatFileInfo(fi), fs.FormatFileInfo(l))
				}
			}
			if size > 0 && (len(des) == 0) != (err == io.EOF) || size > 0 && len(des) > size || err != nil && err != io.EOF || size <= 0 && err != nil {
				rt.Fatalf("ReadDir(%d) of %q: %d entries, %v", size, p, len(des), err)
			}
			if err != nil || size <= 0 {
				break
			}
		}
		slices.Sort(got)
		var want []string
		for k := range n.kids {
			want = append(want, k)
		}
		slices.Sort(want)
		if !slices.Equal(got, want) {
			rt.Fatalf("%q lists %q, want %q", p, got, want)
		}
		if sk, ok := f.(io.Seeker); ok && pass == 0 {
			if _, err := sk.Seek(0, io.SeekStart); err != nil {
				rt.Fatalf("Seek of directory %q: %v", p, err)
			}
		} else {
			break
		}
	}
	if n, err := f.Read(make([]byte, 1)); n != 0 || err == nil {
		rt.Fatalf("directory %q is read: %d, %v", p, n, err)
	}
	if r, ok := f.(io.ReaderAt); ok {
		if n, err := r.ReadAt(make([]byte, 1), 0); n != 0 || err == nil || err == io.EOF {
			rt.Fatalf("directory %q is read: %d, %v", p, n, err)
		}
	}
	sk, ok := f.(io.Seeker)
	if !ok {
		return
	}
	for _, bad := range []struct {
		off    int64
		whence int
	}{{-1, io.SeekStart}, {1, io.SeekCurrent}, {-1, io.SeekCurrent}, {1, io.SeekEnd}, {0, 3}, {0, -1}} {
		if _, err := sk.Seek(bad.off, bad.whence); err == nil {
			rt.Fatalf("Seek(%d, %d) of directory %q is done", bad.off, bad.whence, p)
		}
	}
	if _, err := sk.Seek(0, io.SeekEnd); err != nil {
		rt.Fatalf("Seek to the end of directory %q: %v", p, err)
	}
	if des, err := d.ReadDir(1); len(des) != 0 || err != io.EOF {
		rt.Fatalf("%q lists %d more after its end: %v", p, len(des), err)
	}
	if _, err := sk.Seek(0, io.SeekStart); err != nil {
		rt.Fatalf("Seek of directory %q: %v", p, err)
	}
	if des, err := d.ReadDir(-1); len(des) != len(n.kids) || err != nil {
		rt.Fatalf("%q lists %d from the beginning: %v; want %d", p, len(des), err, len(n.kids))
	}
}

// readFile drives a file and a bytes.Reader side by side.
func readFile(rt *rapid.T, f fs.File, p string, data []byte) {
	model := bytes.NewReader(data)
	pos := func() int64 { n, _ := model.Seek(0, io.SeekCurrent); return n }
	for range vt.Pick(rt, 6, "reads") {
		size := vt.Of(rt, "buffer", 0, 1, 7, 100, 512, 600, 2000)
		switch vt.Of(rt, "call", "read", "read", "readat", "seek") {
		case "read":
			at := pos()
			buf := make([]byte, size)
			n, err := f.Read(buf)
			if !bytes.Equal(buf[:n], data[at:at+int64(n)]) {
				rt.Fatalf("Read(%d) of %q at %d: wrong bytes", size, p, at)
			}
			if _, serr := model.Seek(int64(n), io.SeekCurrent); serr != nil {
				rt.Fatalf("%v", serr)
			}
			if end := at+int64(n) == int64(len(data)); err != nil && (err != io.EOF || !end) || err == nil && n == 0 && size > 0 {
				rt.Fatalf("Read(%d) of %q at %d: %d, %v", size, p, at, n, err)
			}
		case "readat":
			ra, ok := f.(io.ReaderAt)
			if !ok {
				rt.Fatalf("%q has no ReadAt", p)
			}
			off := int64(vt.Pick(rt, len(data)+3, "off"))
			buf, want := make([]byte, size), make([]byte, size)
			n, err := ra.ReadAt(buf, off)
			wn, werr := model.ReadAt(want, off)
			if n != wn || !bytes.Equal(buf[:n], want[:n]) || (err == nil) != (werr == nil) && size > 0 || err != nil && err != io.EOF {
				rt.Fatalf("ReadAt(%d, %d) of %q: %d, %v; want %d, %v", size, off, p, n, err, wn, werr)
			}
		case "seek":
			sk, ok := f.(io.Seeker)
			if !ok {
				rt.Fatalf("%q has no Seek", p)
			}
			whence := vt.Pick(rt, 3, "whence")
			off := int64(vt.Pick(rt, len(data)+2, "off"))
			if whence == 2 {
				off = -off
			}
			if whence == 1 {
				off -= int64(vt.Pick(rt, 2, "back")) * pos()
			}
			before := pos()
			want, werr := model.Seek(off, whence)
			if want > int64(len(data)) && werr == nil {
				// at the end is far enough
				off, _ = model.Seek(before, io.SeekStart)
				continue
			}
			got, err := sk.Seek(off, whence)
			if (err != nil) != (werr != nil) || err == nil && got != want {
				rt.Fatalf("Seek(%d, %d) of %q from %d: %d, %v; want %d, %v", off, whence, p, before, got, err, want, werr)
			}
		}
	}
}

// Sections tells where each member lies.
func TestC16_Sections(t *testing.T) {
	vt.Check(t, vt.N(12000, 120000), "an archive of 1 to 9 members of all kinds and formats, the sections it is said to have against where they were written; non-trivial: a member with bytes after a sparse or reserved one", func(rt *rapid.T, c *vt.Case) {
		es, _ := archive(rt, c)
		raw := build(es, 2)
		i, stop := 0, vt.Pick(rt, 2*len(es), "stop")
		odd := false
		for s, err := range tarfs.Sections(bytes.NewReader(raw)) {
			if err != nil {
				rt.Fatalf("Sections: %v", err)
			}
			if s.Header().Typeflag == tar.TypeXGlobalHeader {
				continue
			}
			if i >= len(es) {
				rt.Fatalf("a section too many: %q", s.Header().Name)
			}
			e := es[i]
			h := s.Header()
			if h.Name != e.name && strings.TrimRight(h.Name, "/") != strings.TrimRight(e.name, "/") || h.Linkname != e.link || h.Mode != e.mode || !h.ModTime.Equal(e.mtime) {
				rt.Fatalf("section %d is of %q, want %q", i, h.Name, e.name)
			}
			if s.HeaderStart() != e.header || s.HeaderEnd() != e.body || s.BodyStart() != e.body {
				rt.Fatalf("header of member %d (%s) at %d to %d, want %d to %d", i, e, s.HeaderStart(), s.HeaderEnd(), e.header, e.body)
			}
			if e.typ != '5' && s.BodyEnd() != e.end {
				rt.Fatalf("body of member %d (%s) ends at %d, want %d", i, e, s.BodyEnd(), e.end)
			}
			if odd && e.end > e.body {
				c.NonTrivial()
			}
			odd = odd || e.sparse != "" || e.typ == '7' || e.typ > '7' && e.typ != 'S'
			i++
			if i == stop {
				return
			}
		}
		if i != len(es) {
			rt.Fatalf("%d sections of %d", i, len(es))
		}
	})
}

var errRead = errors.New("read fault")

// faulty fails one ReadAt.
type faulty struct {
	r    io.ReaderAt
	n    atomic.Int64
	fail atomic.Int64
	hit  atomic.Bool
	err  error
}

func (f *faulty) ReadAt(p []byte, off int64) (int, error) {
	if f.n.Add(1) == f.fail.Load() {
		f.hit.Store(true)
		n, _ := f.r.ReadAt(p[:len(p)/2], off)
		return n, f.err
	}
	return f.r.ReadAt(p, off)
}

// A failing read is told and leaves nothing wrong behind.
func TestC16_Faults(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "an archive, one failing read of it at a generated call, in New or later; non-trivial: the fault was met", func(rt *rapid.T, c *vt.Case) {
		es, _ := archive(rt, c)
		root := tree(es, options{})
		r := &faulty{r: bytes.NewReader(build(es, 2)), err: fsx.Vary(rt, errRead)}
		count := &faulty{r: r.r}
		if _, err := tarfs.New(count, nil); err != nil {
			rt.Fatalf("New: %v", err)
		}
		if vt.Chance(rt, 2, "in New") {
			r.fail.Store(1 + int64(vt.Pick(rt, int(count.n.Load()), "at")))
			fsys, err := tarfs.New(r, nil)
			if r.hit.Load() {
				c.NonTrivial()
			}
			if err == nil && r.hit.Load() {
				// what was not needed may fail
				compare(rt, fsys, root, es, nil)
				return
			}
			if r.hit.Load() && !errors.Is(err, errRead) {
				rt.Fatalf("New: %v", err)
			}
			return
		}
		fsys, err := tarfs.New(r, nil)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		r.fail.Store(r.n.Load() + 1 + int64(vt.Pick(rt, 12, "at")))
		compare(rt, fsys, root, es, r)
		if r.hit.Load() {
			c.NonTrivial()
		}
		r.fail.Store(0)
		compare(rt, fsys, root, es, nil)
	})
}

// compare reads all files; those a fault is met in may say so.
func compare(rt *rapid.T, fsys fs.FS, root *node, es []*entry, r *faulty) {
	root.walk(".", func(p string, n *node) {
		if n.dir() || n.hard {
			return
		}
		was := r != nil && r.hit.Load()
		g, err := fs.ReadFile(fsys, p)
		if met := r != nil && !was && r.hit.Load(); met {
			if !errors.Is(err, errRead) {
				rt.Fatalf("ReadFile(%q) at the fault: %v", p, err)
			}
			return
		}
		if err != nil || !bytes.Equal(g, n.e.data) {
			rt.Fatalf("ReadFile(%q): %d bytes, %v; want %d", p, len(g), err, len(n.e.data))
		}
	})
}

// A file system and its files are for use by many at once.
func TestC16_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(500, 3000), "an archive of a few files, 4 goroutines reading all of it, and one shared file at offsets; non-trivial: all", func(rt *rapid.T, c *vt.Case) {
		var es []*entry
		for i := range 4 {
			e := genEntry(rt, i, nil)
			if e.typ != '0' {
				e = &entry{typ: '0', name: "f", data: genData(rt, i), style: "gnu", mode: 0o644, mtime: time.Unix(5, 0)}
			}
			e.name = fmt.Sprintf("d%d/%d", i&1, i)
			es = append(es, e)
			c.Log("%s", e)
		}
		es = append(es, &entry{typ: '1', name: "l", link: es[0].name, style: "gnu", mode: 0o644, mtime: time.Unix(6, 0)})
		fsys, err := tarfs.New(bytes.NewReader(build(es, 2)), nil)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		c.NonTrivial()
		shared, err := fsys.Open(es[0].name)
		if err != nil {
			rt.Fatalf("Open: %v", err)
		}
		bad := make([]error, 4)
		var wg sync.WaitGroup
		for g := range bad {
			wg.Go(func() {
				for i, e := range es {
					data := e.data
					if e.typ == '1' {
						data = es[0].data
					}
					if got, err := fs.ReadFile(fsys, e.name); err != nil || !bytes.Equal(got, data) {
						bad[g] = fmt.Errorf("%q: %d bytes, %v", e.name, len(got), err)
					}
					if _, err := fs.ReadDir(fsys, "d0"); err != nil {
						bad[g] = err
					}
					off := min(int64(i*100), int64(len(es[0].data)))
					buf := make([]byte, 200)
					if n, err := shared.(io.ReaderAt).ReadAt(buf, off); err != nil && err != io.EOF || !bytes.Equal(buf[:n], es[0].data[off:off+int64(n)]) || n < min(200, len(es[0].data)-int(off)) {
						bad[g] = fmt.Errorf("shared at %d: %d, %v", off, n, err)
					}
					_, _ = shared.Read(make([]byte, 3))
					if _, err := shared.Stat(); err != nil {
						bad[g] = err
					}
				}
			})
		}
		wg.Wait()
		for _, err := range bad {
			if err != nil {
				rt.Fatalf("%v", err)
			}
		}
	})
}
