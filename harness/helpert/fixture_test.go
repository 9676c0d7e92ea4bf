package helpert

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil/testhelper"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// fakeT is a test that records how it failed. Like a real one it does not
// return from a failure.
type fakeT struct {
	*testing.T
	failed string
}

type stopped struct{}

func (f *fakeT) Fatalf(format string, args ...any) {
	f.failed = fmt.Sprintf(format, args...)
	panic(stopped{})
}

func (f *fakeT) Fatal(args ...any) { f.Fatalf("%s", fmt.Sprint(args...)) }
func (f *fakeT) FailNow()          { f.Fatalf("FailNow") }
func (f *fakeT) Errorf(format string, args ...any) {
	f.failed = fmt.Sprintf(format, args...)
}
func (f *fakeT) Error(args ...any) { f.failed = fmt.Sprint(args...) }
func (f *fakeT) Helper()           {}

func (f *fakeT) Run(name string, fn func(t *fakeT)) bool {
	return f.T.Run(name, func(t *testing.T) { fn(&fakeT{T: t}) })
}

var _ testhelper.Test[*fakeT] = (*fakeT)(nil)

// run is fn run as a test: how it failed, "" if it did not.
func run(t *testing.T, fn func(*fakeT)) string {
	f := &fakeT{T: t}
	return runOn(f, func() { fn(f) })
}

func runOn(f *fakeT, fn func()) (failed string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopped); !ok {
				panic(r)
			}
		}
		failed = f.failed
	}()
	fn()
	return f.failed
}

type (
	proc    = testhelper.SetupProc[vroot.File, *fsx.FS]
	mkDir   = testhelper.CreateDir[vroot.File, *fsx.FS]
	mkFile  = testhelper.CreateFile[vroot.File, *fsx.FS]
	mkLink  = testhelper.CreateLink[vroot.File, *fsx.FS]
	mkSymln = testhelper.CreateSymlink[vroot.File, *fsx.FS]
)

func genContent(rt *rapid.T) string {
	var b strings.Builder
	for range vt.Pick(rt, 5, "content parts") {
		b.WriteString(vt.Of(rt, "part", "x", " ", "\n", "\"", "`", "\\", ": ", " -> ", "/", "é", "\x00", "\xff", "word", "\ufffd"))
	}
	return b.String()
}

func genWord(rt *rapid.T) string {
	return vt.Of(rt, "word", "a", "b", "c.txt", "with space", "é", "x:y", "->", "a->b", "'", "\"q\"", "`")
}

// line is p spelled as a setup line; "" when there is no such line.
func line(rt *rapid.T, p proc) string {
	switch p := p.(type) {
	case *mkDir:
		if p.Mode == 0 && p.Mtime.IsZero() {
			return filepath.ToSlash(p.Name) + "/"
		}
	case *mkFile:
		if p.Mode != 0 || !p.Mtime.IsZero() {
			return ""
		}
		s := string(p.Content)
		switch {
		case strconv.CanBackquote(s) && vt.Chance(rt, 3, "backquoted"):
			return filepath.ToSlash(p.Name) + ": `" + s + "`"
		case !strings.ContainsAny(s, " \"`/\n") && vt.Chance(rt, 2, "bare"):
			return filepath.ToSlash(p.Name) + ": " + s
		}
		return filepath.ToSlash(p.Name) + ": " + strconv.Quote(s)
	case *mkSymln:
		return filepath.ToSlash(p.Name) + " -> " + filepath.ToSlash(p.TargetPath)
	}
	return ""
}

func genTime(rt *rapid.T) time.Time {
	if vt.Chance(rt, 2, "mtime") {
		return time.Unix(int64(1e9+vt.Pick(rt, 1e6, "sec")), int64(vt.Pick(rt, 1e9, "nsec"))/1000*1000)
	}
	return time.Time{}
}

const ruleC34 = "fixtures of directories, files, hard links and symlinks with drawn modes, times and contents, parents declared or left out, in a drawn order, given as values or as lines, with at most one failing call; non-trivial = at least 4 declared entries, or a failure"

func TestC34_Fixture(t *testing.T) {
	vt.Check(t, vt.N(6000, 120000), ruleC34, func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		var (
			procs  []proc
			dirs   = []string{"."}
			files  []string
			taken  = map[string]bool{".": true}
			want   = map[string]proc{}
			parent = map[string]bool{}
		)
		for range vt.Int(rt, 1, 10, "entries") {
			name := path.Join(vt.From(rt, dirs, "in"), genWord(rt))
			if vt.Chance(rt, 4, "deep") {
				name = path.Join(name, genWord(rt))
			}
			bad := taken[name] || parent[name]
			for d := path.Dir(name); d != "."; d = path.Dir(d) {
				if p, ok := want[d]; ok {
					if _, isDir := p.(*mkDir); !isDir {
						bad = true
					}
				}
			}
			if bad {
				continue
			}
			var p proc
			os := filepath.FromSlash(name)
			switch vt.Pick(rt, 5, "kind") {
			case 0, 1:
				m := &mkDir{Name: os, Mtime: genTime(rt)}
				if vt.Chance(rt, 3, "mode") {
					m.Mode = fs.FileMode(vt.Of(rt, "perm", 0o755, 0o700, 0o711, 0o555, 0o777, 0o500))
				}
				p = m
				dirs = append(dirs, name)
			case 2:
				f := &mkFile{Name: os, Content: []byte(genContent(rt)), Mtime: genTime(rt)}
				if vt.Chance(rt, 3, "mode") {
					f.Mode = fs.FileMode(vt.Of(rt, "perm", 0o644, 0o600, 0o444, 0o400, 0o777))
				}
				p = f
				files = append(files, name)
			case 3:
				if len(files) == 0 {
					continue
				}
				p = &mkLink{Name: os, TargetPath: filepath.FromSlash(vt.From(rt, files, "of"))}
			default:
				p = &mkSymln{Name: os, TargetPath: filepath.FromSlash(vt.Of(rt, "target", "a", "../b", "no such", "a: b", "d/"))}
			}
			taken[name] = true
			want[name] = p
			for d := path.Dir(name); d != "."; d = path.Dir(d) {
				parent[d] = true
			}
			procs = append(procs, p)
		}
		if len(procs) >= 4 {
			c.NonTrivial()
		}
		// any order
		for i := len(procs) - 1; i > 0; i-- {
			j := vt.Pick(rt, i+1, "order")
			procs[i], procs[j] = procs[j], procs[i]
		}
		var lines []string
		asLines := vt.Chance(rt, 2, "as lines")
		for _, p := range procs {
			l := line(rt, p)
			if l == "" {
				asLines = false
			}
			lines = append(lines, l)
		}
		var what strings.Builder
		for i, p := range procs {
			fmt.Fprintf(&what, "%T %+v %q\n", p, p, lines[i])
		}
		c.Log("%s", what.String())

		k := -1
		if vt.Chance(rt, 2, "fault") {
			k = vt.Pick(rt, 30, "k")
		}
		fault := fsx.Vary(rt, fsx.ErrInjected, fs.ErrExist)
		after := vt.Chance(rt, 4, "after")
		part := vt.Pick(rt, 3, "written")
		var hit *fsx.Op
		n := 0
		fsys.SetHook(func(o fsx.Op) fsx.Verdict {
			n++
			if n-1 == k {
				hit = &o
				return fsx.Verdict{Err: fault, After: after, Partial: part}
			}
			return fsx.Verdict{}
		})
		failed := run(t, func(ft *fakeT) {
			tc := testhelper.New[*fakeT, vroot.File, *fsx.FS](ft, fsys)
			if asLines {
				c.Label("as lines")
				tc.SetupLines(lines...)
			} else {
				tc.Setup(slices.Clone(procs)...)
			}
		})
		fsys.SetHook(nil)
		if h := fsys.OpenHandles(); len(h) > 0 {
			rt.Fatalf("%s\nleft open: %v", what.String(), h)
		}
		if hit != nil {
			c.NonTrivial()
			c.Label("a call failed")
			if !strings.Contains(failed, fsx.ErrInjected.Error()) {
				rt.Fatalf("%s\n%v failed, which the test does not say: %q", what.String(), *hit, failed)
			}
			if !strings.Contains(failed, "history") || !strings.Contains(failed, "Setup") {
				rt.Fatalf("%s\nthe failure does not tell what was done before: %q", what.String(), failed)
			}
			return
		}
		if failed != "" {
			rt.Fatalf("%s\nfails: %s", what.String(), failed)
		}
		now, err := fsx.Dir(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		for name, p := range want {
			e, ok := now[name]
			full := filepath.Join(dir, filepath.FromSlash(name))
			fi, err := os.Lstat(full)
			if !ok || err != nil {
				rt.Fatalf("%s\n%q is not there: %v", what.String(), name, err)
			}
			mode, mtime := fs.FileMode(0), time.Time{}
			switch p := p.(type) {
			case *mkDir:
				mode, mtime = p.Mode, p.Mtime
				if !e.Mode.IsDir() {
					rt.Fatalf("%s\n%q is %v", what.String(), name, e)
				}
			case *mkFile:
				mode, mtime = p.Mode, p.Mtime
				if !e.Mode.IsRegular() || e.Data != string(p.Content) {
					rt.Fatalf("%s\n%q is %v", what.String(), name, e)
				}
			case *mkLink:
				of, err := os.Lstat(filepath.Join(dir, p.TargetPath))
				if err != nil || !os.SameFile(fi, of) {
					rt.Fatalf("%s\n%q is not the same file as %q", what.String(), name, p.TargetPath)
				}
			case *mkSymln:
				if e.Mode != fs.ModeSymlink || e.Target != p.TargetPath {
					rt.Fatalf("%s\n%q is %v", what.String(), name, e)
				}
			}
			if mode != 0 && fi.Mode().Perm() != mode {
				rt.Fatalf("%s\n%q has mode %v", what.String(), name, fi.Mode())
			}
			if !mtime.IsZero() && !fi.ModTime().Equal(mtime) {
				rt.Fatalf("%s\n%q was modified at %v, want %v", what.String(), name, fi.ModTime(), mtime)
			}
		}
		for name, e := range now {
			if want[name] == nil && name != "." && !(parent[name] && e.Mode.IsDir()) {
				rt.Fatalf("%s\n%q is there too: %v", what.String(), name, e)
			}
		}
	})
}

func TestC34_Asserts(t *testing.T) {
	vt.Check(t, vt.N(6000, 120000), "errors that wrap others in drawn ways, nil ones among them, against drawn targets; non-trivial = an error that wraps", func(rt *rapid.T, c *vt.Case) {
		roots := []error{nil, fs.ErrNotExist, fs.ErrExist, errors.New("own"), &fs.PathError{Op: "open", Path: "p", Err: fs.ErrPermission}}
		err := vt.From(rt, roots, "err")
		for range vt.Pick(rt, 3, "wraps") {
			if err == nil {
				break
			}
			c.NonTrivial()
			switch vt.Pick(rt, 3, "how") {
			case 0:
				err = fmt.Errorf("wrapped: %w", err)
			case 1:
				err = errors.Join(errors.New("beside"), err)
			default:
				err = &fs.PathError{Op: "stat", Path: "q", Err: err}
			}
		}
		target := vt.From(rt, roots, "target")
		text, args := "", []any(nil)
		switch vt.Pick(rt, 3, "message") {
		case 1:
			text, args = "told as 7%", []any{"told as %d%%", 7}
		case 2:
			text, args = "42", []any{42}
		}
		c.Log("%v, target %v, %q", err, target, args)
		check := func(what string, holds bool, fn func(*fakeT)) {
			failed := run(t, fn)
			if holds != (failed == "") {
				rt.Fatalf("%s of %v (target %v): %q", what, err, target, failed)
			}
			if failed != "" && (err != nil && !strings.Contains(failed, err.Error()) || !strings.Contains(failed, text)) {
				rt.Fatalf("%s of %v, message %q: %q", what, err, text, failed)
			}
		}
		check("NilErr", err == nil, func(f *fakeT) { testhelper.NilErr(f, err, args...) })
		check("ErrIs", errors.Is(err, target), func(f *fakeT) { testhelper.ErrIs(f, err, target, args...) })
		var as *fs.PathError
		is := errors.As(err, &as)
		check("ErrAsType", is, func(f *fakeT) {
			if got := testhelper.ErrAsType[*fs.PathError](f, err, args...); got != as {
				rt.Fatalf("ErrAsType(%v) = %v, want %v", err, got, as)
			}
		})
		accept := vt.Chance(rt, 2, "accept")
		check("ErrAsTypeAnd", is && accept, func(f *fakeT) {
			testhelper.ErrAsTypeAnd(f, err, func(e *fs.PathError) bool {
				if e != as {
					rt.Fatalf("ErrAsTypeAnd(%v) asks about %v, want %v", err, e, as)
				}
				return accept
			}, args...)
		})
	})
}

func TestC34_Lines(t *testing.T) {
	vt.Check(t, vt.N(10000, 200000), "setup lines put together from names, separators and contents, well-formed or not; non-trivial = a malformed line", func(rt *rapid.T, c *vt.Case) {
		name := genWord(rt)
		content := genContent(rt)
		var l string
		bad := true
		switch kind := vt.Of(rt, "kind", "no name, link", "no target", "no name, dir", "no name, file", "open quote", "spaces", "no separator", "good"); kind {
		case "no name, link":
			l = " -> " + name
		case "no target":
			l = name + " -> "
		case "no name, dir":
			l = "/"
		case "no name, file":
			l = ": " + strconv.Quote(content)
		case "open quote":
			l = name + ": \"" + strings.NewReplacer("\"", "", "\\", "", "/", "", " -> ", "").Replace(content)
		case "spaces":
			l = name + ": x" + strings.NewReplacer("/", "", " -> ", "").Replace(content) + " y"
		case "no separator":
			l = name
		default:
			bad = false
			l = name + ": " + strconv.Quote(content)
		}
		p, err := testhelper.ParseSetupProcLine[vroot.File, *fsx.FS](l)
		c.Log("%q: %v, %v", l, p, err)
		if bad {
			c.NonTrivial()
			if err == nil {
				rt.Fatalf("%q is taken for %T %+v", l, p, p)
			}
			return
		}
		f, ok := p.(*mkFile)
		if err != nil || !ok || f.Name != filepath.FromSlash(name) || string(f.Content) != content {
			rt.Fatalf("%q is taken for %T %+v, %v", l, p, p, err)
		}
	})
}
