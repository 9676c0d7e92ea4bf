package fsutilt

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

type copyOpt = fsutil.CopyFsOption[*fsx.FS, vroot.File]

// genModeTree draws a source tree with all the modes its owner can still read.
func genModeTree(rt *rapid.T) fsx.Tree {
	t := fsx.Tree{".": {Mode: fs.ModeDir | vt.From(rt, []fs.FileMode{0o755, 0o755, 0o700, 0o555, 0o777}, "rootMode")}}
	dirs := []string{"."}
	names := []string{"a", "b", "c", "d.txt", "é", "l n"}
	for range vt.Int(rt, 0, 12, "ents") {
		p := path.Join(vt.From(rt, dirs, "in"), vt.From(rt, names, "ent"))
		if _, ok := t[p]; ok {
			continue
		}
		switch vt.Int(rt, 0, 5, "kind") {
		case 0, 1:
			t[p] = fsx.Ent{Mode: fs.ModeDir | vt.From(rt, []fs.FileMode{0o755, 0o700, 0o777, 0o555, 0o500, 0o777 | fs.ModeSticky, 0o750 | fs.ModeSetgid}, "dirMode")}
			dirs = append(dirs, p)
		case 2:
			t[p] = fsx.Ent{Mode: fs.ModeSymlink, Target: vt.From(rt, []string{"a", "../b", "missing", "a/b", "/abs", "."}, "target")}
		default:
			n := vt.From(rt, []int{0, 1, 10, 100, 33000, 70000}, "size")
			if vt.Chance(rt, 150, "big") {
				n = vt.BigSize(rt)
			}
			t[p] = fsx.Ent{
				Mode: vt.From(rt, []fs.FileMode{0o644, 0o600, 0o666, 0o777, 0o755, 0o444, 0o400, 0o640, 0o755 | fs.ModeSetuid, 0o755 | fs.ModeSetgid}, "mode"),
				Data: vt.Text(len(t), n),
			}
		}
	}
	return t
}

// basicSrc hides everything but Open.
type basicSrc struct{ fs fs.FS }

func (b basicSrc) Open(n string) (fs.File, error) { return b.fs.Open(n) }

// failSrc fails one operation on one path.
type failSrc struct {
	fs.FS
	path, how string
	err       error
	hit       bool
	open      int
}

func (s *failSrc) ReadLink(name string) (string, error) {
	if s.how == "readlink" && name == s.path {
		s.hit = true
		return "", s.err
	}
	return fs.ReadLink(s.FS, name)
}

func (s *failSrc) Lstat(name string) (fs.FileInfo, error) {
	if s.how == "lstat" && name == s.path {
		s.hit = true
		return nil, s.err
	}
	return fs.Lstat(s.FS, name)
}

func (s *failSrc) Open(name string) (fs.File, error) {
	if s.how == "open" && name == s.path {
		s.hit = true
		return nil, s.err
	}
	f, err := s.FS.Open(name)
	if err != nil {
		return nil, err
	}
	s.open++
	fi, err := f.Stat()
	if d, ok := f.(fs.ReadDirFile); ok && err == nil && fi.IsDir() {
		return &countDir{d, s}, nil
	}
	return &failFile{f, s, s.how == "read" && name == s.path}, nil
}

// countDir and failFile are counted until closed.
type countDir struct {
	fs.ReadDirFile
	s *failSrc
}

func (f *countDir) Close() error {
	f.s.open--
	return f.ReadDirFile.Close()
}

type failFile struct {
	fs.File
	s    *failSrc
	fail bool
}

func (f *failFile) Close() error {
	f.s.open--
	return f.File.Close()
}

func (f *failFile) Read(p []byte) (int, error) {
	if f.fail {
		f.s.hit = true
		return 0, f.s.err
	}
	return f.File.Read(p)
}

func TestC07_Copy(t *testing.T) {
	vt.Check(t, vt.N(8000, 60000), "a source tree with nested directories, symlinks, read-only and special modes, copied by CopyAll or CopyPath below a generated root, with or without a mode mask, onto an empty, partly existing or failing destination, as an unprivileged user; the destination is compared with the source tree; non-trivial = at least three entries copied, or a fault reached", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		srcDir, dstDir := filepath.Join(dir, "src"), filepath.Join(dir, "dst")
		_, _ = os.Mkdir(srcDir, 0o755), os.Mkdir(dstDir, 0o755)
		src := genModeTree(rt)
		if err := fsx.Make(srcDir, src); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		fsys, err := fsx.New(dstDir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()

		var opt copyOpt
		mask := func(m fs.FileMode) fs.FileMode { return m & fs.ModePerm }
		maskName := vt.From(rt, []string{"nil", "platform", "0755"}, "mask")
		switch maskName {
		case "platform":
			opt.MaskChmodMode = fsutil.MaskChmodMode
			mask = func(m fs.FileMode) fs.FileMode {
				return m & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
			}
		case "0755":
			opt.MaskChmodMode = func(m fs.FileMode) fs.FileMode { return m & 0o755 }
			mask = opt.MaskChmodMode
		}
		root := vt.From(rt, []string{".", "r", "r/s", "r/s/t"}, "root")
		srcKind := vt.From(rt, []string{"full", "full", "basic"}, "srcKind")
		var srcFS fs.FS = os.DirFS(srcDir)
		links := true
		if srcKind == "basic" {
			srcFS, links = basicSrc{srcFS}, false
		}
		method := vt.From(rt, []string{"CopyAll", "CopyPath"}, "method")
		want := fsx.Tree{".": {Mode: fs.ModeDir | 0o755}}
		for _, d := range []string{"r", "r/s", "r/s/t"} {
			if d == root || strings.HasPrefix(root, d+"/") {
				if method == "CopyAll" && d != root {
					// CopyAll makes only the root itself
					want[d] = fsx.Ent{Mode: fs.ModeDir | 0o755}
					_ = os.Mkdir(filepath.Join(dstDir, d), 0o755)
				}
			}
		}
		copied := func(e fsx.Ent) (fsx.Ent, bool) {
			switch {
			case e.Mode.IsDir():
				e.Mode = fs.ModeDir | mask(e.Mode)
			case e.Mode.IsRegular():
				e.Mode = mask(e.Mode)
			default:
				return e, links
			}
			return e, true
		}
		var paths []string
		var names []string
		for p := range src {
			names = append(names, p)
		}
		sort.Strings(names)
		if method == "CopyAll" {
			for _, p := range names {
				if e, ok := copied(src[p]); ok {
					want[path.Join(root, p)] = e
				}
			}
		} else {
			for _, p := range names {
				if p == "." || rapid.Bool().Draw(rt, "pick "+p) {
					continue
				}
				if src[p].Mode&fs.ModeSymlink != 0 && srcKind == "basic" {
					continue // a source that can not tell a link from its target
				}
				q := p
				if vt.Int(rt, 0, 3, "unclean") == 0 {
					q = "./" + p
				}
				paths = append(paths, q)
			}
			paths = rapid.Permutation(paths).Draw(rt, "order")
			// directories a picked path hangs from come with it
			for _, q := range paths {
				p := path.Clean(q)
				if e, ok := copied(src[p]); ok {
					want[path.Join(root, p)] = e
				}
				for d := path.Dir(p); d != "."; d = path.Dir(d) {
					want[path.Join(root, d)], _ = copied(src[d])
				}
				for d := root; d != "."; d = path.Dir(d) {
					want[d] = fsx.Ent{Mode: fs.ModeDir | 0o755}
				}
			}
		}
		// things already there
		var pre []string
		for p, e := range want {
			if e.Mode.IsRegular() || e.Mode.IsDir() {
				pre = append(pre, p)
			}
		}
		sort.Strings(pre)
		existing := 0
		for _, p := range pre {
			if p == "." || vt.Int(rt, 0, 5, "exists "+p) != 0 {
				continue
			}
			full := filepath.Join(dstDir, p)
			if _, err := os.Stat(filepath.Dir(full)); err != nil {
				continue
			}
			if want[p].Mode.IsDir() {
				_ = os.Mkdir(full, 0o755)
			} else if os.WriteFile(full, []byte(strings.Repeat("old", 30000)), 0o600) == nil {
				existing++
			}
		}
		// something of another kind is in the way
		conflict := ""
		if vt.Chance(rt, 5, "conflict") {
			var at []string
			for p, e := range want {
				if p != "." && (method == "CopyPath" || strings.HasPrefix(p, root+"/") || root == "." || p == root) && (e.Mode.IsDir() || e.Mode.IsRegular() || links) {
					at = append(at, p)
				}
			}
			sort.Strings(at)
			if len(at) > 0 {
				conflict = vt.From(rt, at, "conflictAt")
				full := filepath.Join(dstDir, conflict)
				_ = os.MkdirAll(filepath.Dir(full), 0o755)
				_ = os.RemoveAll(full)
				kinds := []string{"file", "dir", "full dir", "same link", "other link"}
				switch {
				case want[conflict].Mode.IsDir():
					kinds = kinds[:1]
				case want[conflict].Mode.IsRegular():
					kinds = kinds[1:3]
				}
				var err error
				switch kind := vt.From(rt, kinds, "conflictKind"); kind {
				case "file":
					err = os.WriteFile(full, []byte("in the way"), 0o644)
				case "dir", "full dir":
					if err = os.Mkdir(full, 0o755); err == nil && kind == "full dir" {
						err = os.WriteFile(filepath.Join(full, "x"), []byte("in the way"), 0o644)
					}
				case "same link":
					err = os.Symlink(want[conflict].Target, full)
				case "other link":
					err = os.Symlink("elsewhere", full)
				}
				if err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
			}
		}
		// a fault
		fault := vt.From(rt, []string{"none", "none", "dst", "src"}, "fault")
		k := vt.Int(rt, 0, 25, "k")
		after := vt.Int(rt, 0, 3, "after") == 0
		dstErr := fsx.Vary(rt, fsx.ErrInjected)
		var hit *fsx.Op
		n := 0
		fsys.SetHook(func(o fsx.Op) fsx.Verdict {
			n++
			if fault == "dst" && n-1 == k {
				hit = &o
				return fsx.Verdict{Err: dstErr, After: after}
			}
			return fsx.Verdict{}
		})
		fsrc := &failSrc{FS: srcFS}
		if fault == "src" && srcKind == "full" {
			fsrc.path = vt.From(rt, names, "failPath")
			fsrc.how = vt.From(rt, []string{"open", "read", "readlink", "lstat"}, "how")
			fsrc.err = fsx.Vary(rt, errSource, fs.ErrNotExist, fs.ErrExist, fs.ErrPermission)
			srcFS = fsrc
		}
		// an unreadable directory may be ignored: its contents, and only they, stay behind
		ignore := vt.From(rt, []string{"nil", "yes", "no"}, "ignore")
		asked := 0
		if ignore != "nil" {
			opt.IgnoreErr = func(err error) bool {
				asked++
				return ignore == "yes" && errors.Is(err, errSource)
			}
		}
		if method == "CopyAll" {
			err = opt.CopyAll(fsys, srcFS, filepath.FromSlash(root))
		} else {
			err = opt.CopyPath(fsys, srcFS, filepath.FromSlash(root), paths...)
		}
		fsys.SetHook(nil)
		what := fmt.Sprintf("conflict=%q %s root=%s paths=%q mask=%s src=%s fault=%s hit=%v after=%v srcfail=%s %q err=%v\nsource %s", conflict, method, root, paths, maskName, srcKind, fault, hit, after, fsrc.how, fsrc.path, err, src)
		c.Log("%s", what)
		c.Label("%s root depth %d", method, strings.Count(root, "/"))
		if h := fsys.OpenHandles(); len(h) > 0 {
			rt.Fatalf("%s\nleft open: %v", what, h)
		}
		if fsrc.open != 0 {
			rt.Fatalf("%s\n%d source handles left open", what, fsrc.open)
		}
		if ignore == "yes" && hit == nil && fsrc.hit && fsrc.how == "open" && method == "CopyAll" && src[fsrc.path].Mode.IsDir() {
			if conflict != "" {
				return
			}
			c.NonTrivial()
			c.Label("unreadable directory ignored")
			if err != nil || asked == 0 {
				rt.Fatalf("%s\nIgnoreErr was not heeded, asked %d times", what, asked)
			}
			if fsrc.path == "." {
				return
			}
			under := path.Join(root, fsrc.path) + "/"
			now, derr := fsx.Dir(dstDir)
			if derr != nil {
				rt.Fatalf("VT-ENV %v", derr)
			}
			for _, t := range []fsx.Tree{now, want} {
				for p := range t {
					if strings.HasPrefix(p, under) {
						delete(t, p)
					}
				}
			}
			if d := now.Diff(want); d != "" {
				rt.Fatalf("%s\nbesides the unreadable directory the copy differs:\n%s", what, d)
			}
			return
		}
		if hit != nil || fsrc.hit {
			c.NonTrivial()
			c.Label("fault reached")
			if conflict != "" && err != nil {
				return
			}
			if !errors.Is(err, fsx.ErrInjected) && !errors.Is(err, errSource) {
				rt.Fatalf("%s\nthe failure was swallowed", what)
			}
			return
		}
		if conflict != "" && err != nil {
			c.NonTrivial()
			c.Label("conflict told")
			return
		}
		if err != nil {
			rt.Fatalf("%s\nfailed though nothing went wrong", what)
		}
		if asked != 0 {
			rt.Fatalf("%s\nIgnoreErr was asked though nothing went wrong", what)
		}
		if len(want) > 3 {
			c.NonTrivial()
		}
		if existing > 0 {
			c.Label("overwrote existing files")
		}
		now, derr := fsx.Dir(dstDir)
		if derr != nil {
			rt.Fatalf("VT-ENV %v", derr)
		}
		if d := now.Diff(want); d != "" {
			rt.Fatalf("%s\nthe copy differs:\n%s", what, d)
		}
	})
}
