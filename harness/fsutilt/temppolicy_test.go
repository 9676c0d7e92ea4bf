package fsutilt

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

var tempDirRe = regexp.MustCompile(`^[0-9]{10}\.tmp$`)

// lookalike draws names that are, or nearly are, what the policies create.
func lookalike(rt *rapid.T) string {
	d := vt.From(rt, []string{"0123456789", "4294967295", "012345678", "01234567890", "01234x6789", "٠١٢٣٤٥٦٧٨٩", "9999999999"}, "digits")
	s := vt.From(rt, []string{".tmp", ".tmp", ".tmp", ".TMP", "", ".tmp.bak", "tmp"}, "suffix")
	p := vt.From(rt, []string{"f.", "f.", "", ".", ".x.", "a.b.", "f", "f..", "f-", "\n."}, "prefix")
	return p + d + s
}

func TestC06_Cleanup(t *testing.T) {
	vt.Check(t, vt.N(3000, 60000), "a tree of files and directories whose names are, or nearly are, what a temp-file policy makes, walked with that policy's WalkFunc; the tree left is compared with the tree minus exactly the entries the policy owns; non-trivial = both owned entries and look-alikes present", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		tempDir := vt.From(rt, []string{"", "TMP", "TMP", "D/TMP", ".", "0123456789.tmp"}, "tempDir")
		tree := fsx.Tree{".": {Mode: fs.ModeDir | 0o755}}
		dirs := []string{"."}
		addDir := func(p string) {
			if _, ok := tree[p]; !ok {
				tree[p] = fsx.Ent{Mode: fs.ModeDir | 0o755}
				dirs = append(dirs, p)
			}
		}
		for _, d := range []string{"TMP", "TMPX", "TM", "D", "D/TMP", "D/TMP2", "TMP/sub"} {
			if rapid.Bool().Draw(rt, "dir "+d) {
				for i := range d {
					if d[i] == '/' {
						addDir(d[:i])
					}
				}
				addDir(d)
			}
		}
		n := vt.Int(rt, 4, 18, "n")
		for range n {
			p := path.Join(vt.From(rt, dirs, "in"), lookalike(rt))
			if e, ok := tree[p]; ok || e.Mode != 0 {
				continue
			}
			if vt.Int(rt, 0, 2, "asDir") == 0 {
				addDir(p)
			} else {
				tree[p] = fsx.Ent{Mode: 0o644, Data: "x"}
			}
		}
		if err := fsx.Make(dir, tree); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		var policy swPolicy
		owned := func(p string) bool { return tempRandomRe.MatchString(path.Base(p)) }
		if tempDir == "" {
			policy = fsutil.NewTempFilePolicyRandom[*fsx.FS, vroot.File]()
		} else {
			policy = fsutil.NewTempFilePolicyDir[*fsx.FS, vroot.File](filepath.FromSlash(tempDir))
			owned = func(p string) bool {
				return p != "." && path.Dir(p) == tempDir && tempDirRe.MatchString(path.Base(p))
			}
		}
		want, gone := fsx.Tree{}, 0
		for p, e := range tree {
			keep := true
			for q := p; q != "."; q = path.Dir(q) {
				if owned(q) {
					keep = false
				}
			}
			if keep {
				want[p] = e
			} else {
				gone++
			}
		}
		c.Log("tempDir=%q tree=%s", tempDir, tree)
		if gone > 0 && len(want) > 2 {
			c.NonTrivial()
		}
		// what the walk or a removal fails with comes back, and nothing goes by it
		walkErr := fsx.Vary(rt, errSource, fs.ErrNotExist)
		if err := policy.WalkFunc(fsys, "x", nil, walkErr); err != walkErr {
			rt.Fatalf("WalkFunc turned the walk's error into %v", err)
		}
		if gone > 0 {
			removeErr := fsx.Vary(rt, fsx.ErrInjected)
			fsys.SetHook(func(o fsx.Op) fsx.Verdict {
				if o.Kind == "Remove" || o.Kind == "RemoveAll" {
					return fsx.Verdict{Err: removeErr}
				}
				return fsx.Verdict{}
			})
			err = fs.WalkDir(os.DirFS(dir), ".", func(p string, d fs.DirEntry, err error) error {
				return policy.WalkFunc(fsys, p, d, err)
			})
			fsys.SetHook(nil)
			if !errors.Is(err, fsx.ErrInjected) {
				rt.Fatalf("cleaning %q with no removal possible: %v\ntree %s", tempDir, err, tree)
			}
		}
		err = fs.WalkDir(os.DirFS(dir), ".", func(p string, d fs.DirEntry, err error) error {
			return policy.WalkFunc(fsys, p, d, err)
		})
		now, derr := fsx.Dir(dir)
		if derr != nil {
			rt.Fatalf("VT-ENV %v", derr)
		}
		if err != nil {
			rt.Fatalf("cleaning %q: %v\ntree %s", tempDir, err, tree)
		}
		if d := now.Diff(want); d != "" {
			rt.Fatalf("cleaning %q left the wrong tree:\n%sfrom %s", tempDir, d, tree)
		}
		for p := range want {
			if tempDir == "" && policy.Match(filepath.FromSlash(p)) {
				rt.Fatalf("%q matches but was not removed", p)
			}
		}
	})
}

func TestC06_Create(t *testing.T) {
	vt.Check(t, vt.N(3000, 50000), "temp files and directories made for arbitrary target names (any bytes a name can hold, up to the longest names) under either policy; non-trivial = a name over 200 bytes, multi-byte or holding a '*'", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		base := genName(rt)
		if vt.Int(rt, 0, 3, "raw") == 0 {
			b := rapid.SliceOfN(rapid.Byte(), 1, 255).Draw(rt, "bytes")
			for i := range b {
				if b[i] == 0 || b[i] == '/' {
					b[i] = '*'
				}
			}
			if s := string(b); s != "." && s != ".." {
				base = s
			}
		}
		parent := vt.From(rt, []string{".", "D", "D/E"}, "parent")
		_ = os.MkdirAll(filepath.Join(dir, "D/E"), 0o755)
		var policy swPolicy
		home := parent
		useDir := rapid.Bool().Draw(rt, "dirPolicy")
		if useDir {
			home = vt.From(rt, []string{".", "TMP", "D/TMP"}, "home")
			policy = fsutil.NewTempFilePolicyDir[*fsx.FS, vroot.File](home)
		} else {
			policy = fsutil.NewTempFilePolicyRandom[*fsx.FS, vroot.File]()
		}
		asDir := rapid.Bool().Draw(rt, "asDir")
		target := path.Join(parent, base)
		c.Log("target=%q useDir=%v home=%s asDir=%v", target, useDir, home, asDir)
		if len(base) > 200 || strings.Contains(base, "*") || !isASCII(base) {
			c.NonTrivial()
		}
		seen := map[string]bool{}
		for range 3 {
			var f vroot.File
			var in string
			if asDir {
				f, in, err = policy.Mkdir(fsys, target, 0o700)
			} else {
				f, in, err = policy.Create(fsys, target, 0o400)
			}
			if err != nil {
				rt.Fatalf("target %q: %v", target, err)
			}
			p := filepath.Join(in, filepath.Base(f.Name()))
			fi, err := os.Lstat(filepath.Join(dir, p))
			if err != nil {
				rt.Fatalf("target %q: temp %q is not where it was said to be: %v", target, p, err)
			}
			if fi.IsDir() != asDir || !asDir && fi.Mode().Perm()&0o200 == 0 {
				rt.Fatalf("target %q: temp %q has mode %v", target, p, fi.Mode())
			}
			if !asDir {
				if _, err := f.Write([]byte("x")); err != nil {
					rt.Fatalf("target %q: writing temp %q: %v", target, p, err)
				}
			}
			_ = f.Close()
			if filepath.Dir(p) != home {
				rt.Fatalf("target %q: temp %q is outside %q", target, p, home)
			}
			if !policy.Match(p) {
				rt.Fatalf("target %q: the policy does not recognise its own %q", target, p)
			}
			tb := filepath.Base(p)
			if len(tb) > 255 {
				rt.Fatalf("target %q: temp name of %d bytes", target, len(tb))
			}
			if !useDir {
				if !tempRandomRe.MatchString(tb) {
					rt.Fatalf("target %q: temp name %q", target, tb)
				}
				stem := tb[:len(tb)-len(".0123456789.tmp")]
				if !strings.HasPrefix(base, stem) || utf8.ValidString(base) && !utf8.ValidString(stem) {
					rt.Fatalf("target %q: temp name %q cuts the name badly", target, tb)
				}
			} else if !tempDirRe.MatchString(tb) {
				rt.Fatalf("target %q: temp name %q", target, tb)
			}
			if seen[p] {
				rt.Fatalf("target %q: %q made twice", target, p)
			}
			seen[p] = true
			// the cleanup removes it
			d := fs.FileInfoToDirEntry(fi)
			if err := policy.WalkFunc(fsys, p, d, nil); err != nil && err != fs.SkipDir {
				rt.Fatalf("target %q: cleaning up %q: %v", target, p, err)
			}
			if _, err := os.Lstat(filepath.Join(dir, p)); err == nil {
				rt.Fatalf("target %q: cleanup kept %q", target, p)
			}
		}
	})
}

func isASCII(s string) bool {
	for i := range len(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// namesFS is a flat file system in which the first busy names tried are taken.
// It opens a taken name when O_EXCL is not given, which is what the random names
// must never lead to.
type namesFS struct {
	busy    int
	failAt  int
	err     error
	tried   []string
	dirs    map[string]bool
	clobber string
	openErr error
	removed []string
}

type namedFile string

func (n *namesFS) take(name string) error {
	n.tried = append(n.tried, name)
	if n.failAt > 0 && len(n.tried) == n.failAt {
		return n.err
	}
	if len(n.tried) <= n.busy {
		return &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	return nil
}

func (n *namesFS) OpenFile(name string, flag int, perm fs.FileMode) (namedFile, error) {
	if n.dirs[name] {
		if n.openErr != nil {
			return "", n.openErr
		}
		return namedFile(name), nil
	}
	err := n.take(name)
	if errors.Is(err, fs.ErrExist) && flag&os.O_EXCL == 0 {
		n.clobber = name
		return namedFile(name), nil
	}
	if err == nil && flag&os.O_CREATE == 0 {
		return "", &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if err != nil {
		return "", err
	}
	return namedFile(name), nil
}

func (n *namesFS) Mkdir(name string, perm fs.FileMode) error {
	err := n.take(name)
	if err == nil {
		n.dirs[name] = true
	}
	return err
}

func (n *namesFS) Remove(name string) error {
	n.removed = append(n.removed, name)
	delete(n.dirs, name)
	return nil
}

func TestC06_Names(t *testing.T) {
	vt.Check(t, vt.N(1500, 20000), "OpenFileRandom and MkdirRandom where the first tried names are taken (0 to over 10000 of them) or a try fails for another reason, over patterns with and without '*' and separators; non-trivial = at least one collision or failure", func(rt *rapid.T, c *vt.Case) {
		busy := vt.From(rt, []int{0, 0, 1, 2, 50, 9998, 9999, 10000, 10001, 20000}, "busy")
		if busy > 5000 && vt.Int(rt, 0, 3, "rare") > 0 {
			busy = 3
		}
		fsys := &namesFS{busy: busy, dirs: map[string]bool{}}
		if vt.Int(rt, 0, 2, "fail") == 0 {
			fsys.failAt = vt.Int(rt, 1, 6, "failAt")
			fsys.err = vt.From(rt, []error{fs.ErrPermission, fs.ErrNotExist, errors.New("no space")}, "err")
		}
		pattern := vt.From(rt, []string{"p", "*", "p*.tmp", "*.tmp", "a*b*c", "", "x/y", "x*/..", "/", "é*", "sp ace*"}, "pattern")
		dir := vt.From(rt, []string{"", ".", "d", "d/e", "/abs"}, "dir")
		mk := rapid.Bool().Draw(rt, "mkdir")
		if mk && vt.Int(rt, 0, 3, "openFails") == 0 {
			fsys.openErr = errors.New("can not open")
		}
		var f namedFile
		var err error
		if mk {
			f, err = fsutil.MkdirRandom(fsys, dir, pattern, 0o777)
		} else {
			f, err = fsutil.OpenFileRandom(fsys, dir, pattern, 0o666)
		}
		what := fmt.Sprintf("mkdir=%v dir=%q pattern=%q busy=%d failAt=%d(%v) openErr=%v tried=%d", mk, dir, pattern, busy, fsys.failAt, fsys.err, fsys.openErr, len(fsys.tried))
		c.Log("%s", what)
		c.Label("mkdir=%v", mk)
		if busy > 0 || fsys.failAt > 0 || fsys.openErr != nil {
			c.NonTrivial()
		}
		what += fmt.Sprintf(" -> %q, %v", f, err)
		if fsys.clobber != "" {
			rt.Fatalf("%s: opened the existing %q", what, fsys.clobber)
		}
		if strings.Contains(pattern, "/") {
			if !errors.Is(err, fsutil.ErrBadPattern) || len(fsys.tried) > 0 {
				rt.Fatalf("%s: want ErrBadPattern", what)
			}
			return
		}
		prefix, suffix := pattern, ""
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			prefix, suffix = pattern[:i], pattern[i+1:]
		}
		re := regexp.MustCompile("^" + regexp.QuoteMeta(prefix) + "[0-9]{10}" + regexp.QuoteMeta(suffix) + "$")
		for _, n := range fsys.tried {
			if filepath.Dir(n) != filepath.Clean(dir) || !re.MatchString(filepath.Base(n)) {
				rt.Fatalf("%s: tried %q", what, n)
			}
		}
		switch {
		case fsys.failAt > 0 && fsys.failAt <= min(busy+1, 10000):
			if !errors.Is(err, fsys.err) || len(fsys.tried) != fsys.failAt {
				rt.Fatalf("%s: want %v", what, fsys.err)
			}
		case busy >= 10000:
			if !errors.Is(err, fsutil.ErrMaxRetry) || len(fsys.tried) != 10000 {
				rt.Fatalf("%s: want ErrMaxRetry after 10000 tries", what)
			}
		case fsys.openErr != nil:
			if !errors.Is(err, fsys.openErr) {
				rt.Fatalf("%s: want %v", what, fsys.openErr)
			}
			if len(fsys.dirs) > 0 {
				rt.Fatalf("%s: left %v", what, fsys.dirs)
			}
		default:
			if err != nil || string(f) != fsys.tried[len(fsys.tried)-1] || len(fsys.tried) != busy+1 {
				rt.Fatalf("%s: want the first free name", what)
			}
		}
		// tries must not repeat one name over and over
		if len(fsys.tried) > 20 {
			distinct := map[string]bool{}
			for _, n := range fsys.tried {
				distinct[n] = true
			}
			if len(distinct) < len(fsys.tried)/2 {
				rt.Fatalf("%s: only %d distinct names", what, len(distinct))
			}
		}
	})
}
