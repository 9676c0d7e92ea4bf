package helpert

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil/testhelper"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// stub is a file system that only notes what it is asked and answers as told.
type stub struct {
	asked []string
	err   error
	file  *stubFile
	info  fs.FileInfo
	text  string
}

type stubFile struct {
	vroot.File
	closed int
}

func (f *stubFile) Close() error { f.closed++; return nil }

func (s *stub) note(name string, args ...any) error {
	s.asked = append(s.asked, spell(name, args))
	return s.err
}

func spell(name string, args []any) string {
	return fmt.Sprintf("%s%#v", name, args)
}

func (s *stub) opened(err error) (vroot.File, error) {
	if err != nil {
		return nil, err
	}
	return s.file, nil
}

func (s *stub) Chmod(n string, m fs.FileMode) error { return s.note("Chmod", n, m) }
func (s *stub) Chown(n string, u, g int) error      { return s.note("Chown", n, u, g) }
func (s *stub) Chtimes(n string, a, m time.Time) error {
	return s.note("Chtimes", n, a.UnixNano(), m.UnixNano())
}
func (s *stub) Create(n string) (vroot.File, error)    { return s.opened(s.note("Create", n)) }
func (s *stub) Lchown(n string, u, g int) error        { return s.note("Lchown", n, u, g) }
func (s *stub) Link(o, n string) error                 { return s.note("Link", o, n) }
func (s *stub) Mkdir(n string, p fs.FileMode) error    { return s.note("Mkdir", n, p) }
func (s *stub) MkdirAll(n string, p fs.FileMode) error { return s.note("MkdirAll", n, p) }
func (s *stub) Open(n string) (vroot.File, error)      { return s.opened(s.note("Open", n)) }
func (s *stub) Remove(n string) error                  { return s.note("Remove", n) }
func (s *stub) RemoveAll(n string) error               { return s.note("RemoveAll", n) }
func (s *stub) Rename(o, n string) error               { return s.note("Rename", o, n) }
func (s *stub) Symlink(o, n string) error              { return s.note("Symlink", o, n) }
func (s *stub) OpenFile(n string, f int, p fs.FileMode) (vroot.File, error) {
	return s.opened(s.note("OpenFile", n, f, p))
}

func (s *stub) Lstat(n string) (fs.FileInfo, error) {
	if err := s.note("Lstat", n); err != nil {
		return nil, err
	}
	return s.info, nil
}

func (s *stub) Stat(n string) (fs.FileInfo, error) {
	if err := s.note("Stat", n); err != nil {
		return nil, err
	}
	return s.info, nil
}

func (s *stub) ReadLink(n string) (string, error) {
	if err := s.note("ReadLink", n); err != nil {
		return "", err
	}
	return s.text, nil
}

type caller = testhelper.C[*fakeT, vroot.File, *stub]

type args struct {
	a, b     string
	mode     fs.FileMode
	uid, gid int
	t1, t2   time.Time
	flag     int
}

type call struct {
	name string
	args func(v args) []any
	// do makes the call that must succeed and returns what it yields, doE the one
	// that must fail and returns its error.
	do  func(c *caller, v args) any
	doE func(c *caller, v args) error
}

func of[A any](_ A, err error) error { return err }

var calls = []call{
	{"Chmod", func(v args) []any { return []any{v.a, v.mode} },
		func(c *caller, v args) any { c.Chmod(v.a, v.mode); return nil },
		func(c *caller, v args) error { return c.ChmodE(v.a, v.mode) }},
	{"Chown", func(v args) []any { return []any{v.a, v.uid, v.gid} },
		func(c *caller, v args) any { c.Chown(v.a, v.uid, v.gid); return nil },
		func(c *caller, v args) error { return c.ChownE(v.a, v.uid, v.gid) }},
	{"Chtimes", func(v args) []any { return []any{v.a, v.t1.UnixNano(), v.t2.UnixNano()} },
		func(c *caller, v args) any { c.Chtimes(v.a, v.t1, v.t2); return nil },
		func(c *caller, v args) error { return c.ChtimesE(v.a, v.t1, v.t2) }},
	{"Create", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { return c.Create(v.a) },
		func(c *caller, v args) error { return of(c.CreateE(v.a)) }},
	{"Lchown", func(v args) []any { return []any{v.a, v.uid, v.gid} },
		func(c *caller, v args) any { c.Lchown(v.a, v.uid, v.gid); return nil },
		func(c *caller, v args) error { return c.LchownE(v.a, v.uid, v.gid) }},
	{"Link", func(v args) []any { return []any{v.a, v.b} },
		func(c *caller, v args) any { c.Link(v.a, v.b); return nil },
		func(c *caller, v args) error { return c.LinkE(v.a, v.b) }},
	{"Lstat", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { return c.Lstat(v.a) },
		func(c *caller, v args) error { return of(c.LstatE(v.a)) }},
	{"Mkdir", func(v args) []any { return []any{v.a, v.mode} },
		func(c *caller, v args) any { c.Mkdir(v.a, v.mode); return nil },
		func(c *caller, v args) error { return c.MkdirE(v.a, v.mode) }},
	{"MkdirAll", func(v args) []any { return []any{v.a, v.mode} },
		func(c *caller, v args) any { c.MkdirAll(v.a, v.mode); return nil },
		func(c *caller, v args) error { return c.MkdirAllE(v.a, v.mode) }},
	{"Open", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { return c.Open(v.a) },
		func(c *caller, v args) error { return of(c.OpenE(v.a)) }},
	{"OpenFile", func(v args) []any { return []any{v.a, v.flag, v.mode} },
		func(c *caller, v args) any { return c.OpenFile(v.a, v.flag, v.mode) },
		func(c *caller, v args) error { return of(c.OpenFileE(v.a, v.flag, v.mode)) }},
	{"ReadLink", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { return c.ReadLink(v.a) },
		func(c *caller, v args) error { return of(c.ReadLinkE(v.a)) }},
	{"Remove", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { c.Remove(v.a); return nil },
		func(c *caller, v args) error { return c.RemoveE(v.a) }},
	{"RemoveAll", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { c.RemoveAll(v.a); return nil },
		func(c *caller, v args) error { return c.RemoveAllE(v.a) }},
	{"Rename", func(v args) []any { return []any{v.a, v.b} },
		func(c *caller, v args) any { c.Rename(v.a, v.b); return nil },
		func(c *caller, v args) error { return c.RenameE(v.a, v.b) }},
	{"Stat", func(v args) []any { return []any{v.a} },
		func(c *caller, v args) any { return c.Stat(v.a) },
		func(c *caller, v args) error { return of(c.StatE(v.a)) }},
	{"Symlink", func(v args) []any { return []any{v.a, v.b} },
		func(c *caller, v args) any { c.Symlink(v.a, v.b); return nil },
		func(c *caller, v args) error { return c.SymlinkE(v.a, v.b) }},
}

type sizeInfo struct{ fs.FileInfo }

var when = time.Unix(1e9, 0)

func TestC34_Calls(t *testing.T) {
	vt.Check(t, vt.N(20000, 400000), "histories of a test case's calls, those that must succeed and those that must fail, over a file system that answers with drawn values and errors; non-trivial = a history of at least 2 calls that ends in a reported failure", func(rt *rapid.T, c *vt.Case) {
		s := &stub{}
		var done []string // what the history has to show, in order
		steps := vt.Int(rt, 1, 8, "calls")
		ft := &fakeT{T: t}
		tc := testhelper.New[*fakeT, vroot.File, *stub](ft, s)
		for i := range steps {
			cl := vt.From(rt, calls, "call")
			v := args{
				a: fmt.Sprintf("a%d %s", i, vt.Of(rt, "a", "", "é", "\n", "%d", "x/y")), b: fmt.Sprintf("b%d", i),
				mode: fs.FileMode(vt.Pick(rt, 512, "mode")), uid: vt.Int(rt, -1, 9, "uid"), gid: vt.Int(rt, -1, 9, "gid"),
				t1: when.Add(time.Duration(vt.Pick(rt, 1000, "atime"))), t2: when.Add(time.Duration(vt.Pick(rt, 1000, "mtime"))),
				flag: vt.Pick(rt, 2048, "flag"),
			}
			mustFail := vt.Chance(rt, 3, "must fail")
			fails := mustFail != vt.Chance(rt, 5, "surprise")
			s.err, s.asked = nil, nil
			s.file, s.info, s.text = &stubFile{}, &sizeInfo{}, fmt.Sprint("text", i)
			if fails {
				s.err = fsx.Vary(rt, fsx.ErrInjected)
			}
			var got any
			var gotErr error
			ft.failed = ""
			failed := runOn(ft, func() {
				if mustFail {
					gotErr = cl.doE(tc, v)
				} else {
					got = cl.do(tc, v)
				}
			})
			what := fmt.Sprintf("%s (must fail: %v) answered with %v: yields %v, %v, fails %q", spell(cl.name, cl.args(v)), mustFail, s.err, got, gotErr, failed)
			c.Log("%s", what)
			if len(s.asked) != 1 || s.asked[0] != spell(cl.name, cl.args(v)) {
				rt.Fatalf("%s\nasked %q", what, s.asked)
			}
			done = append(done, cl.name+"("+fmt.Sprintf("%q", v.a))
			if mustFail != fails {
				if len(done) > 1 {
					c.NonTrivial()
				}
				c.Label("failure reported")
				if failed == "" {
					rt.Fatalf("%s\nthe test goes on", what)
				}
				if s.err != nil && !strings.Contains(failed, s.err.Error()) {
					rt.Fatalf("%s\ndoes not tell the error", what)
				}
				_, rest, ok := strings.Cut(failed, "history")
				for _, d := range done {
					if ok {
						_, rest, ok = strings.Cut(rest, d)
					}
					if !ok {
						rt.Fatalf("%s\nthe history does not show %s of %q", what, d, done)
					}
				}
				if mustFail && (cl.name == "Create" || strings.HasPrefix(cl.name, "Open")) && s.file.closed != 1 {
					rt.Fatalf("%s\nwhat was opened is closed %d times", what, s.file.closed)
				}
				return
			}
			if failed != "" {
				rt.Fatalf("%s", what)
			}
			if s.file.closed != 0 {
				rt.Fatalf("%s\nwhat was opened is closed", what)
			}
			if mustFail {
				if !errors.Is(gotErr, s.err) {
					rt.Fatalf("%s", what)
				}
				continue
			}
			var want any
			switch cl.name {
			case "Create", "Open", "OpenFile":
				want = s.file
			case "Lstat", "Stat":
				want = s.info
			case "ReadLink":
				want = s.text
			}
			if got != want {
				rt.Fatalf("%s\nwant %v", what, want)
			}
		}
	})
}
