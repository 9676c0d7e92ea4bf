package fsutilt

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/pathutil"
	"pgregory.net/rapid"
	"verifharness/vt"
)

func TestC11_Truncate(t *testing.T) {
	vt.Check(t, vt.N(20000, 200000), "a string of one- to four-byte runes, or arbitrary bytes, cut at every byte limit around its length; non-trivial = some limit falls inside a rune", func(rt *rapid.T, c *vt.Case) {
		var s string
		if vt.Int(rt, 0, 3, "raw") == 0 {
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "bytes"))
		} else {
			s = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "é", "あ", "😀", "\u0301", "\x00", "\ufffd"}), 0, 20).Draw(rt, "runes"), "")
		}
		c.Log("%q", s)
		for lim := -1; lim <= len(s)+2; lim++ {
			got := fsutil.TruncateUTF8(s, lim)
			if !strings.HasPrefix(s, got) || len(got) > max(lim, 0) {
				rt.Fatalf("TruncateUTF8(%q, %d) = %q", s, lim, got)
			}
			if lim >= len(s) && got != s {
				rt.Fatalf("TruncateUTF8(%q, %d) = %q cut a string that fits", s, lim, got)
			}
			if utf8.ValidString(s) {
				want := 0
				for i := range s {
					if i <= lim {
						want = i
					}
				}
				if len(s) <= lim {
					want = len(s)
				}
				if len(got) != want {
					rt.Fatalf("TruncateUTF8(%q, %d) = %q, want %q", s, lim, got, s[:want])
				}
				if want != min(max(lim, 0), len(s)) {
					c.NonTrivial()
				}
			}
		}
	})
}

func TestC11_Paths(t *testing.T) {
	vt.Check(t, vt.N(20000, 200000), "relative and absolute paths, clean or not, iterated from head and tail, fully and stopped early; non-trivial = at least three components", func(rt *rapid.T, c *vt.Case) {
		comps := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "bb", "..", ".", "", "é", "c.d", "a b"}), 0, 7).Draw(rt, "comps")
		p := strings.Join(comps, "/")
		if rapid.Bool().Draw(rt, "abs") {
			p = "/" + p
		}
		clean := path.Clean(p)
		// every path from the outermost component down to the whole
		var want []string
		for q := clean; ; q = path.Dir(q) {
			want = append(want, q)
			if path.Dir(q) == q || path.Dir(q) == "." {
				break
			}
		}
		slices.Reverse(want)
		c.Log("%q", p)
		if len(want) >= 3 {
			c.NonTrivial()
		}
		head := slices.Collect(pathutil.PathFromHead(p))
		if !slices.Equal(head, want) {
			rt.Fatalf("PathFromHead(%q) = %q, want %q", p, head, want)
		}
		tail := slices.Collect(pathutil.PathFromTail(p))
		slices.Reverse(tail)
		if !slices.Equal(tail, want) {
			rt.Fatalf("PathFromTail(%q) reversed = %q, want %q", p, tail, want)
		}
		for stop := 1; stop <= len(want); stop++ {
			n := 0
			for range pathutil.PathFromHead(p) {
				if n++; n == stop {
					break
				}
			}
			n = 0
			for range pathutil.PathFromTail(p) {
				if n++; n == stop {
					break
				}
			}
		}
	})
}

func TestC11_ModesAndErrors(t *testing.T) {
	vt.Check(t, vt.N(20000, 200000), "arbitrary 32-bit modes through every platform's chmod mask, and errors of every kind through the path and link error wrappers; non-trivial = a mode with bits the mask drops, or an error that is already wrapped", func(rt *rapid.T, c *vt.Case) {
		m := fs.FileMode(rapid.Uint32().Draw(rt, "mode"))
		for _, x := range []struct {
			name string
			got  fs.FileMode
			keep fs.FileMode
		}{
			{"unix", fsutil.MaskChmodModeUnix(m), fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky},
			{"plan9", fsutil.MaskChmodModePlan9(m), fs.ModePerm | fs.ModeAppend | fs.ModeExclusive | fs.ModeTemporary},
			{"here", fsutil.MaskChmodMode(m), fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky},
		} {
			if x.got != m&x.keep {
				rt.Fatalf("%s mask of %v is %v", x.name, m, x.got)
			}
			if m&^x.keep != 0 {
				c.NonTrivial()
			}
		}
		w := fsutil.MaskChmodModeWindows(m)
		want := fs.FileMode(0o444)
		if m.IsDir() {
			want |= 0o111
		}
		if m&0o200 != 0 {
			want |= 0o222
		}
		if w.Perm() != want || w&^fs.ModePerm != m&^fs.ModePerm {
			rt.Fatalf("windows mask of %v is %v", m, w)
		}

		base := vt.From(rt, []error{nil, fs.ErrNotExist, os.ErrPermission, errors.New("x")}, "base")
		op := vt.From(rt, []string{"", "open", "pull"}, "op")
		p1 := vt.From(rt, []string{"", "p", "d/p"}, "p1")
		p2 := vt.From(rt, []string{"", "q"}, "p2")
		kind := vt.From(rt, []string{"bare", "path", "link", "wrapped"}, "kind")
		mk := func() error {
			switch {
			case base == nil:
				return nil
			case kind == "path":
				return &fs.PathError{Op: "op0", Path: "path0", Err: base}
			case kind == "link":
				return &os.LinkError{Op: "op0", Old: "old0", New: "new0", Err: base}
			case kind == "wrapped":
				return fmt.Errorf("around: %w", base)
			}
			return base
		}
		or := func(a, b string) string {
			if a != "" {
				return a
			}
			return b
		}
		c.Log("mode %v; %s of %v op=%q %q %q", m, kind, base, op, p1, p2)
		perr, lerr := fsutil.WrapPathErr(op, p1, mk()), fsutil.WrapLinkErr(op, p1, p2, mk())
		if base == nil {
			if perr != nil || lerr != nil {
				rt.Fatalf("wrapping nil gives %v, %v", perr, lerr)
			}
			return
		}
		if !errors.Is(perr, base) || !errors.Is(lerr, base) {
			rt.Fatalf("wrapping %v loses it: %v, %v", base, perr, lerr)
		}
		pe, ok := perr.(*fs.PathError)
		if !ok {
			rt.Fatalf("not a PathError: %T", perr)
		}
		wantOp, wantPath := op, p1
		if kind == "path" {
			wantOp, wantPath = or(op, "op0"), or(p1, "path0")
			c.NonTrivial()
		}
		if pe.Op != wantOp || pe.Path != wantPath {
			rt.Fatalf("%q %q, want %q %q", pe.Op, pe.Path, wantOp, wantPath)
		}
		le, ok := lerr.(*os.LinkError)
		if !ok {
			rt.Fatalf("not a LinkError: %T", lerr)
		}
		wantOp, wantOld, wantNew := op, p1, p2
		if kind == "link" {
			wantOp, wantOld, wantNew = or(op, "op0"), or(p1, "old0"), or(p2, "new0")
		}
		if le.Op != wantOp || le.Old != wantOld || le.New != wantNew {
			rt.Fatalf("%+v, want %q %q %q", le, wantOp, wantOld, wantNew)
		}
	})
}

var _ = filepath.Separator
