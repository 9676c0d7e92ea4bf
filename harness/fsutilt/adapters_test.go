package fsutilt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

func TestC09_Source(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "the file-system source opened at offsets within, at and past the end of its file, with and without an etag, with any one call of the file system failing; non-trivial = opened past its start, or a fault reached", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		size := vt.From(rt, []int{0, 1, 2, 10, 100, 5000}, "size")
		if vt.Chance(rt, 40, "big") {
			size = vt.BigSize(rt)
		}
		data := vt.Text(0, size)
		if err := os.WriteFile(filepath.Join(dir, "F"), []byte(data), 0o644); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		name := "F"
		if vt.Chance(rt, 8, "missing") {
			name = "G"
		}
		etag := vt.Of(rt, "etag", "", "e1")
		off := vt.Int(rt, 0, size+3, "off")
		if rapid.Bool().Draw(rt, "start") {
			off = 0
		}
		k := -1
		if rapid.Bool().Draw(rt, "fault") {
			k = vt.Pick(rt, 4, "k")
		}
		fault := fsx.Vary(rt, fsx.ErrInjected, fs.ErrNotExist)
		n := 0
		var hit *fsx.Op
		fsys.SetHook(func(o fsx.Op) fsx.Verdict {
			n++
			if n-1 == k {
				hit = &o
				return fsx.Verdict{Err: fault}
			}
			return fsx.Verdict{}
		})
		src := fsutil.NewFsSource[*fsx.FS, vroot.File](fsys, name, etag)
		var got []byte
		r, info, err := src.Open(context.Background(), int64(off))
		what := fmt.Sprintf("Open(%d) of %s with %d bytes, etag %q", off, name, size, etag)
		if err == nil {
			if info.ETag != etag || info.Size != int64(size) {
				rt.Fatalf("%s tells %+v", what, info)
			}
			got, err = io.ReadAll(r)
			if cerr := r.Close(); err == nil {
				err = cerr
			}
		} else if info != (fsutil.ContentInfo{}) || r != nil {
			rt.Fatalf("%s: failed and gave %v %+v", what, r, info)
		}
		fsys.SetHook(nil)
		c.Log("%s, fault %v: %d bytes, %v", what, hit, len(got), err)
		if off > 0 {
			c.NonTrivial()
		}
		if h := fsys.OpenHandles(); len(h) > 0 {
			rt.Fatalf("%s, fault %v\nleft open %v", what, hit, h)
		}
		switch {
		case hit != nil:
			c.NonTrivial()
			c.Label("fault %s", hit.Kind)
			if !errors.Is(err, fsx.ErrInjected) {
				rt.Fatalf("%s, fault %v: swallowed, %v", what, hit, err)
			}
		case name == "G":
			if !errors.Is(err, fs.ErrNotExist) {
				rt.Fatalf("%s: %v", what, err)
			}
		case err != nil:
			rt.Fatalf("%s: %v", what, err)
		case string(got) != data[min(off, size):]:
			rt.Fatalf("%s read %q", what, clipS(string(got)))
		}
	})
}

func TestC10_Sink(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "State, Append (at the start, where the partial copy ends, before or past it, of any etag or none, from a reader that may fail) and Commit of the file-system sink in any order, over new instances, some with a failing file-system call; compared with a model of the interface's contract; non-trivial = an append after the first, or a fault reached", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		ctx := context.Background()
		suffix := vt.Of(rt, "suffix", "", ".wip")
		partName := "F" + suffix
		if suffix == "" {
			partName = "F.part"
		}
		// the model
		var final, part *string
		etag := ""
		str := func(s string) *string { return &s }
		show := func(p *string) string {
			if p == nil {
				return "none"
			}
			return fmt.Sprintf("%q", clipS(*p))
		}
		same := func(a, b *string) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
		onDisk := func(name string) *string {
			if s, ok := readOr(dir, name); ok {
				return &s
			}
			return nil
		}
		appends := 0
		for step := range vt.Int(rt, 2, 10, "steps") {
			fsys, err := fsx.New(dir)
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			k := -1
			if vt.Chance(rt, 3, "fault") {
				k = vt.Pick(rt, 9, "k")
			}
			fault := fsx.Vary(rt, fsx.ErrInjected)
			after, partial := vt.Chance(rt, 3, "after"), vt.Pick(rt, 4, "partial")
			n := 0
			var hit *fsx.Op
			telling, hitTelling := false, false // the sidecar is open for writing
			fsys.SetHook(func(o fsx.Op) fsx.Verdict {
				n++
				if o.Kind == "OpenFile" && strings.HasSuffix(o.Path, ".etag") {
					telling = o.Flag&os.O_WRONLY != 0
				}
				if n-1 == k {
					hit, hitTelling = &o, telling
					return fsx.Verdict{Err: fault, After: after, Partial: partial}
				}
				return fsx.Verdict{}
			})
			sink := fsutil.NewFsSink[*fsx.FS, vroot.File](fsys, "F", 0o644)
			sink.PartSuffix = suffix
			oldFinal, oldPart, oldEtag := final, part, etag
			op := vt.Of(rt, "op", "state", "append", "append", "append", "commit")
			var what string
			var srcErr, readErr error
			var st fsutil.SinkState
			var info fsutil.ContentInfo
			off, sent := 0, ""
			switch op {
			case "state":
				st, err = sink.State(ctx)
				what = fmt.Sprintf("State = %+v", st)
			case "commit":
				err = sink.Commit(ctx)
				what = "Commit"
			case "append":
				appends++
				have := 0
				if part != nil {
					have = len(*part)
				}
				off = vt.Of(rt, "off", 0, have, have, have, vt.Int(rt, 0, have, "before"), have+vt.Int(rt, 1, 3, "past"))
				sent = strings.Repeat(string(rune('A'+step)), vt.From(rt, []int{0, 1, 5, 40}, "n"))
				if vt.Chance(rt, 40, "big") {
					// its letter tells whose it is here, too
					b := []byte(vt.Text(step, vt.BigSize(rt)))
					for i := range b {
						if b[i] >= 'A' && b[i] <= 'Z' {
							b[i] = byte('a' + i%26)
						}
					}
					b[0] = byte('A' + step)
					sent = string(b)
				}
				info = fsutil.ContentInfo{ETag: vt.Of(rt, "etag", "", "e1", "e2"), Size: int64(off + len(sent))}
				var r io.Reader = strings.NewReader(sent)
				if vt.Chance(rt, 4, "readFails") {
					srcErr = fsx.Vary(rt, errSource)
					r = io.MultiReader(r, iotest.ErrReader(srcErr))
				}
				err = sink.Append(ctx, info, int64(off), r)
				what = fmt.Sprintf("Append(%q, %d, %d bytes then %v)", info.ETag, off, len(sent), srcErr)
				readErr = srcErr
			}
			fsys.SetHook(nil)
			what = fmt.Sprintf("step %d: %s = %v, fault %v after=%v; before: final %s part %s etag %q", step, what, err, hit, after, show(oldFinal), show(oldPart), oldEtag)
			c.Log("%s", what)
			if h := fsys.OpenHandles(); len(h) > 0 {
				rt.Fatalf("%s\nleft open %v", what, h)
			}
			fsys.Close()
			if appends > 1 || hit != nil {
				c.NonTrivial()
			}
			nowFinal, nowPart := onDisk("F"), onDisk(partName)
			nowEtag, _ := readOr(dir, partName+".etag")
			if hit != nil {
				c.Label("fault in %s: %s", op, hit.Kind)
				// tidying up once the file is there may fail unnoticed, and so may
				// the end of reading
				tidy := op == "commit" && hit.Kind == "Remove" && strings.HasSuffix(hit.Path, ".etag") ||
					hit.Kind == "File.Close" && strings.HasSuffix(hit.Path, ".etag") && !hitTelling
				if !tidy && !errors.Is(err, fsx.ErrInjected) && !(readErr != nil && errors.Is(err, errSource)) && !errors.Is(err, fsutil.ErrSizeMismatch) {
					rt.Fatalf("%s\nthe failure was swallowed", what)
				}
				if oldFinal != nil && !same(nowFinal, oldFinal) {
					rt.Fatalf("%s\na committed file is now %s", what, show(nowFinal))
				}
				if oldFinal == nil && nowFinal != nil && (op != "commit" || !same(nowFinal, oldPart)) {
					rt.Fatalf("%s\nthe file is now %s", what, show(nowFinal))
				}
				if oldFinal == nil && op == "commit" && nowFinal == nil && !same(nowPart, oldPart) {
					rt.Fatalf("%s\nthe partial copy is now %s", what, show(nowPart))
				}
				// data is never kept under an identity it has not
				if op == "append" && nowPart != nil && len(*nowPart) > off && strings.Contains(*nowPart, string(rune('A'+step))) && nowEtag != info.ETag && (off == 0 || info.ETag != "") {
					rt.Fatalf("%s\ndata of %q is kept as %q", what, info.ETag, nowEtag)
				}
				final, part, etag = nowFinal, nowPart, nowEtag
				if part == nil {
					etag = ""
				}
				continue
			}
			switch op {
			case "state":
				want := fsutil.SinkState{}
				switch {
				case final != nil:
					want = fsutil.SinkState{Offset: int64(len(*final)), Complete: true, ETag: st.ETag}
				case part != nil:
					want = fsutil.SinkState{Offset: int64(len(*part)), ETag: etag}
				}
				if err != nil || st != want {
					rt.Fatalf("%s\nwant %+v", what, want)
				}
			case "commit":
				switch {
				case final != nil:
					part, etag = nil, ""
				case part != nil:
					final, part, etag = part, nil, ""
				default:
					if err == nil {
						rt.Fatalf("%s\nthere was nothing to commit", what)
					}
					err = nil
				}
				if err != nil {
					rt.Fatalf("%s\nfailed", what)
				}
				if final != nil {
					c.Label("committed")
					if nowEtag != "" {
						rt.Fatalf("%s\nleft the sidecar", what)
					}
				}
			case "append":
				have := 0
				if part != nil {
					have = len(*part)
				}
				if off > have {
					if !errors.Is(err, fsutil.ErrSizeMismatch) {
						rt.Fatalf("%s\nwant ErrSizeMismatch", what)
					}
					if part == nil && nowPart != nil && *nowPart == "" {
						part = nowPart // made and found empty
						etag = nowEtag
					}
					break
				}
				if srcErr == nil && err != nil || srcErr != nil && !errors.Is(err, errSource) {
					rt.Fatalf("%s\nwant %v", what, srcErr)
				}
				keep := ""
				if part != nil {
					keep = (*part)[:off]
				}
				part = str(keep + sent)
				if off == 0 || info.ETag != "" {
					etag = info.ETag
				}
				if off > 0 {
					c.Label("appended")
				}
			}
			if !same(nowFinal, final) || !same(nowPart, part) {
				rt.Fatalf("%s\nfinal is %s, want %s; part is %s, want %s", what, show(nowFinal), show(final), show(nowPart), show(part))
			}
			if part != nil && nowEtag != etag {
				rt.Fatalf("%s\nthe partial copy is kept as %q, want %q", what, nowEtag, etag)
			}
			ents, _ := os.ReadDir(dir)
			for _, e := range ents {
				if e.Name() != "F" && e.Name() != partName && e.Name() != partName+".etag" {
					rt.Fatalf("%s\nleft %s", what, e.Name())
				}
			}
		}
	})
}
