package sftpt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// A job is one thing asked of a file system; do gives what it found out.
type job struct {
	name string
	do   func(f fsmodel.FS) (string, error)
	kind string // "one" effect at most, "more" effects, "file" writes path, "read" none
	path string
}

func infoText(fi fs.FileInfo) string {
	if fi.Mode().IsRegular() {
		return fmt.Sprintf("%s %v %d %v", fi.Name(), fi.Mode(), fi.Size(), fi.IsDir())
	}
	return fmt.Sprintf("%s %v %v", fi.Name(), fi.Mode(), fi.IsDir())
}

func genJob(rt *rapid.T, t fsmodel.Tree) job {
	paths := t.Paths()
	of := func(keep func(n fsmodel.Node) bool) string {
		var l []string
		for _, p := range paths {
			if p != "." && (keep == nil || keep(t[p])) {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return "nothere"
		}
		return l[vt.Pick(rt, len(l), "of")]
	}
	dir := func(n fsmodel.Node) bool { return n.Mode.IsDir() }
	reg := func(n fsmodel.Node) bool { return n.Mode.IsRegular() }
	link := func(n fsmodel.Node) bool { return n.Mode&fs.ModeSymlink != 0 }
	fresh := func() string {
		d := "."
		if vt.Chance(rt, 2, "below") {
			d = of(dir)
		}
		return path.Join(d, vt.Of(rt, "new", "n", "new", "n.n"))
	}
	some := func() string {
		if vt.Chance(rt, 6, "fresh") {
			return fresh()
		}
		return of(nil)
	}
	switch k := vt.Of(rt, "job", "mkdir", "mkdirall", "remove", "removeall", "removeall", "removelink", "rename", "link", "symlink", "chmod", "chtimes",
		"stat", "lstat", "readlink", "readdir", "list", "read", "write", "append", "truncate"); k {
	case "mkdir":
		p, perm := fresh(), vt.Of(rt, "perm", fs.FileMode(0o755), 0o700, 0o777)
		return job{fmt.Sprintf("mkdir %q %v", p, perm), func(f fsmodel.FS) (string, error) { return "", f.Mkdir(p, perm) }, "one", p}
	case "mkdirall":
		p, perm := path.Join(fresh(), "x", "y"), vt.Of(rt, "perm", fs.FileMode(0o755), 0o700, 0o777)
		return job{fmt.Sprintf("mkdirall %q %v", p, perm), func(f fsmodel.FS) (string, error) { return "", f.MkdirAll(p, perm) }, "more", p}
	case "remove":
		p := some()
		return job{fmt.Sprintf("remove %q", p), func(f fsmodel.FS) (string, error) { return "", f.Remove(p) }, "one", p}
	case "removeall", "removelink":
		p := some()
		if k == "removelink" {
			p = of(link)
		}
		return job{fmt.Sprintf("removeall %q", p), func(f fsmodel.FS) (string, error) { return "", f.RemoveAll(p) }, "more", p}
	case "rename":
		p, q := of(nil), fresh()
		if vt.Chance(rt, 3, "onto") {
			q = of(reg)
		}
		return job{fmt.Sprintf("rename %q %q", p, q), func(f fsmodel.FS) (string, error) { return "", f.Rename(p, q) }, "one", p}
	case "link":
		p, q := of(reg), fresh()
		return job{fmt.Sprintf("link %q %q", p, q), func(f fsmodel.FS) (string, error) { return "", f.Link(p, q) }, "one", q}
	case "symlink":
		p, q := "to/somewhere", fresh()
		return job{fmt.Sprintf("symlink %q %q", p, q), func(f fsmodel.FS) (string, error) { return "", f.Symlink(p, q) }, "one", q}
	case "chmod":
		p, perm := some(), vt.Of(rt, "perm", fs.FileMode(0o755), 0o700, 0o777)
		return job{fmt.Sprintf("chmod %q %v", p, perm), func(f fsmodel.FS) (string, error) { return "", f.Chmod(p, perm) }, "one", p}
	case "chtimes":
		p := some()
		return job{fmt.Sprintf("chtimes %q", p), func(f fsmodel.FS) (string, error) { return "", f.Chtimes(p, fsmodel.Stamp(7), fsmodel.Stamp(7)) }, "one", p}
	case "stat", "lstat":
		p := some()
		return job{fmt.Sprintf("%s %q", k, p), func(f fsmodel.FS) (string, error) {
			get := f.Stat
			if k == "lstat" {
				get = f.Lstat
			}
			fi, err := get(p)
			if err != nil {
				return "", err
			}
			return infoText(fi), nil
		}, "read", p}
	case "readlink":
		p := some()
		return job{fmt.Sprintf("readlink %q", p), func(f fsmodel.FS) (string, error) { return f.ReadLink(p) }, "read", p}
	case "readdir":
		p := of(dir)
		return job{fmt.Sprintf("readdir %q", p), func(f fsmodel.FS) (string, error) {
			es, err := vroot.ReadDir(f, p)
			if err != nil {
				return "", err
			}
			var l []string
			for _, e := range es {
				l = append(l, e.Name()+" "+e.Type().String())
			}
			return strings.Join(l, ", "), nil
		}, "read", p}
	case "list":
		p, n := of(dir), vt.Of(rt, "n", -1, 1, 2, 3)
		return job{fmt.Sprintf("list %q by %d", p, n), func(f fsmodel.FS) (string, error) {
			h, err := f.Open(p)
			if err != nil {
				return "", err
			}
			defer h.Close()
			var l []string
			for failed := 0; ; {
				fis, err := h.Readdir(n)
				for _, fi := range fis {
					l = append(l, infoText(fi))
				}
				if err == io.EOF && n > 0 {
					break
				}
				if err != nil {
					// a failed listing does not end cleanly when asked again
					if failed++; failed == 3 {
						return "", err
					}
					if n > 0 {
						continue
					}
					return "", err
				}
				if failed > 0 {
					return "", fmt.Errorf("listing failed")
				}
				if n <= 0 {
					break
				}
			}
			sort.Strings(l)
			return strings.Join(l, ", "), nil
		}, "read", p}
	case "read":
		p, how := of(reg), vt.Pick(rt, 3, "how")
		return job{fmt.Sprintf("read %q %d", p, how), func(f fsmodel.FS) (s string, err error) {
			h, err := f.Open(p)
			if err != nil {
				return "", err
			}
			defer func() {
				if cerr := h.Close(); err == nil {
					err = cerr
				}
			}()
			var b []byte
			switch how {
			case 0:
				b, err = io.ReadAll(h)
			case 1:
				var buf bytes.Buffer
				_, err = io.Copy(&buf, h)
				b = buf.Bytes()
			default:
				fi, serr := h.Stat()
				if serr != nil {
					return "", serr
				}
				b = make([]byte, fi.Size()+5)
				var n int
				n, err = h.ReadAt(b, 0)
				b = b[:n]
				if err == nil {
					return "", fmt.Errorf("a short ReadAt without an error")
				}
				if err == io.EOF {
					err = nil
				}
			}
			return string(b), err
		}, "read", p}
	case "truncate":
		p, size := of(reg), int64(vt.Of(rt, "size", 0, 1, 30))
		return job{fmt.Sprintf("truncate %q %d", p, size), func(f fsmodel.FS) (_ string, err error) {
			h, err := f.OpenFile(p, os.O_RDWR, 0)
			if err != nil {
				return "", err
			}
			err = h.Truncate(size)
			return "", errors.Join(err, h.Close())
		}, "file", p}
	default:
		p, how := fresh(), vt.Pick(rt, 4, "how")
		if vt.Chance(rt, 2, "old") {
			p = of(reg)
		}
		flag := os.O_RDWR | os.O_CREATE | os.O_TRUNC
		if k == "append" {
			flag = os.O_WRONLY | os.O_CREATE | os.O_APPEND
		}
		data := bytes.Repeat([]byte("data!"), vt.Of(rt, "times", 1, 20, 2000))
		return job{fmt.Sprintf("%s %q %d bytes %d", k, p, len(data), how), func(f fsmodel.FS) (_ string, err error) {
			h, err := f.OpenFile(p, flag, 0o640)
			if err != nil {
				return "", err
			}
			var n int
			switch {
			case how == 1:
				n, err = h.WriteString(string(data))
			case how == 2:
				var n64 int64
				n64, err = io.Copy(h, bytes.NewReader(data))
				n = int(n64)
			case how == 3 && flag&os.O_APPEND == 0:
				n, err = h.WriteAt(data, 0)
			default:
				n, err = h.Write(data)
			}
			if err == nil && n != len(data) {
				err = fmt.Errorf("%w: %d of %d", io.ErrShortWrite, n, len(data))
			}
			return "", errors.Join(err, h.Sync(), h.Close())
		}, "file", p}
	}
}

// modes empties the permissions out of a tree.
func modes(t fsmodel.Tree) fsmodel.Tree {
	out := fsmodel.Tree{}
	for p, n := range t {
		n.Mode = n.Mode.Type()
		out[p] = n
	}
	return out
}

// A call that a server refuses or that the connection breaks under fails, or is
// done in full; nothing is left open, and nothing else is touched.
func TestC32_Faults(t *testing.T) {
	vt.Check(t, vt.N(1200, 12000), "one call over a generated tree, run once for each of its requests with that one refused or the connection cut at it", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		must := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		first := filepath.Join(dir, "first")
		must(os.Mkdir(first, 0o777))
		must(fsmodel.Grow(rt, c, osAt(rt, first), fsmodel.GrowOpts{Steps: 12}))
		before, err := fsmodel.SnapDir(first)
		must(err)
		grown, err := fsx.Dir(first)
		must(err)
		j := genJob(rt, before)
		wantOut, wantErr := j.do(osAt(rt, first))
		want, err := fsmodel.SnapDir(first)
		must(err)
		f := vt.Of(rt, "fate", refuse, refuse, cutBefore, cutAfter)
		code := vt.Of(rt, "code", uint32(4), 3)
		onward := f == refuse && vt.Chance(rt, 2, "onward") // no change is let through after it either
		posix := vt.Chance(rt, 2, "posix")
		c.Log("%s: %s, every request %v (code %d)", j.name, fsmodel.Class(wantErr), f, code)
		var opts []sftp.ClientOption
		if vt.Chance(rt, 2, "small") {
			opts = append(opts, sftp.MaxPacketUnchecked(vt.Of(rt, "packet", 64, 512)))
		}
		if vt.Chance(rt, 3, "one by one") {
			opts = append(opts, sftp.UseConcurrentReads(false))
		}
		if vt.Chance(rt, 3, "side by side") {
			opts = append(opts, sftp.UseConcurrentWrites(true))
		}
		for k, hit := 0, true; hit; k++ {
			if k > 60 {
				k += 37
			}
			at := filepath.Join(dir, fmt.Sprint("at", k))
			must(os.Mkdir(at, 0o777))
			must(fsx.Make(at, grown))
			w, err := dial(opts...)
			must(err)
			sub := sftpfs.New(w.C, posix, at)
			n, kind := 0, byte(0)
			hit = false
			w.arm(code, func(k2 byte) fate {
				n++
				if n-1 == k {
					kind, hit = k2, true
					return f
				}
				if onward && hit && changes[k2] {
					return f
				}
				return pass
			})
			out, err := j.do(sub)
			open, requests := w.handles()
			w.mu.Lock()
			was, struck := kinds[kind], hit
			w.mu.Unlock()
			how := f.String()
			if onward {
				how += ", changes after it too,"
			}
			what := fmt.Sprintf("%s with request %d of %v %s", j.name, k, requests, how)
			if !struck {
				what = j.name + " without a fault"
			}
			c.Label("%s %s %s: %s", strings.Fields(j.name)[0], was, f, fsmodel.Class(err))
			if f == refuse && open != 0 {
				rt.Fatalf("%s: %d handles left open", what, open)
			}
			if struck && f != refuse {
				if _, err := sub.Stat("."); err == nil {
					rt.Fatalf("%s: the connection still answers", what)
				}
			}
			w.hangUp()
			after, serr := fsmodel.SnapDir(at)
			must(serr)
			diff := func(want fsmodel.Tree) string {
				if struck && (kind == kSetstat || kind == kStat) && j.kind != "one" || strings.HasPrefix(j.name, "mkdir") {
					return modes(after).Diff(modes(want)) // permissions are given as well as can be
				}
				return after.Diff(want)
			}
			if !struck && (err == nil) != (wantErr == nil) {
				rt.Fatalf("%s: %v, want %v", what, err, wantErr)
			}
			if err == nil {
				if wantErr != nil {
					rt.Fatalf("%s: success, want %v", what, wantErr)
				}
				if struck && was == "extended" && j.kind == "file" {
					rt.Fatalf("%s: success, and what was written is not synced", what)
				}
				if out != wantOut {
					rt.Fatalf("%s:\n  %.300q, want\n  %.300q", what, out, wantOut)
				}
				if d := diff(want); d != "" {
					rt.Fatalf("%s: success, but\n%s", what, d)
				}
				continue
			}
			bad := ""
			switch j.kind {
			case "read":
				bad = after.Diff(before)
			case "one":
				if bad = diff(before); bad != "" && wantErr == nil && diff(want) == "" {
					bad = ""
				}
			case "file":
				a, b := fsmodel.Tree{}, fsmodel.Tree{}
				for p, n := range after {
					if p != j.path {
						a[p] = n
					}
				}
				for p, n := range before {
					if p != j.path {
						b[p] = n
					}
				}
				bad = a.Diff(b)
			case "more": // some of it
				small, big := before, want
				if strings.HasPrefix(j.name, "removeall") {
					small, big = want, before
				}
				mid := modes(after)
				for p, n := range modes(small) {
					if m, ok := mid[p]; !ok || m.String() != n.String() {
						bad += fmt.Sprintf("  %s: %v, want %v\n", p, m, n)
					}
				}
				for p, n := range mid {
					if m, ok := modes(big)[p]; !ok || m.String() != n.String() {
						bad += fmt.Sprintf("  %s: %v, want %v\n", p, n, m)
					}
				}
			}
			if bad != "" {
				rt.Fatalf("%s: %v, and left\n%s", what, err, bad)
			}
			if struck {
				c.NonTrivial()
			}
			must(os.RemoveAll(at))
		}
	})
}

// Removing a tree takes the links in it, not what they lead to.
func TestC32_RemoveAll(t *testing.T) {
	vt.Check(t, vt.N(600, 6000), "RemoveAll of a directory of a tree whose links lead in and out of the base", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		must := func(err error) {
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		base, out := filepath.Join(dir, "base"), filepath.Join(dir, "out")
		must(os.Mkdir(base, 0o777))
		must(os.Mkdir(out, 0o777))
		must(fsmodel.Grow(rt, c, osAt(rt, base), fsmodel.GrowOpts{Steps: 14, Out: true}))
		must(fsmodel.Grow(rt, c, osAt(rt, out), fsmodel.GrowOpts{Steps: 6}))
		tree, err := fsmodel.SnapDir(base)
		must(err)
		var dirs []string
		for _, p := range tree.Paths() {
			if tree[p].Mode.IsDir() {
				dirs = append(dirs, p)
			}
		}
		outs := 0
		for i := range 1 + vt.Pick(rt, 4, "links") {
			at := path.Join(dirs[vt.Pick(rt, len(dirs), "in")], fmt.Sprint("l", i))
			to := vt.Of(rt, "to", out, "out", filepath.Join(out, "a"), "b")
			if !filepath.IsAbs(to) {
				to = strings.Repeat("../", strings.Count(at, "/")+1) + to
			}
			must(os.Symlink(to, filepath.Join(base, at)))
			c.Log("link %s -> %s", at, to)
			outs++
		}
		tree, err = fsmodel.SnapDir(base)
		must(err)
		before, err := fsmodel.SnapDir(out)
		must(err)
		paths := tree.Paths()
		name := paths[vt.Pick(rt, len(paths), "name")]
		if vt.Chance(rt, 3, "dir") {
			name = dirs[vt.Pick(rt, len(dirs), "name")]
		}
		if vt.Chance(rt, 8, "missing") {
			name = path.Join(name, "missing")
		}
		asked := name
		refused := name == "."
		switch vt.Pick(rt, 12, "as") {
		case 0:
			asked = "./" + name
		case 1:
			if name != "." {
				asked, refused = name+"/.", true
			}
		case 2:
			asked, refused = "../out", true
		case 3:
			asked, refused = out, true
		case 4:
			n := path.Clean(name + "/../../" + name)
			direct := true // no link on the way
			for p := path.Dir(n); p != "." && p != "/"; p = path.Dir(p) {
				direct = direct && tree[p].Mode&fs.ModeSymlink == 0
			}
			if direct {
				asked, refused = name+"/../../"+name, n == "." || n == ".." || strings.HasPrefix(n, "../")
			}
		}
		rerr := sftpfs.New(client(rt), false, base).RemoveAll(asked)
		c.Log("removeall %q: %v", asked, rerr)
		got, err := fsmodel.SnapDir(base)
		must(err)
		want := tree
		if refused {
			if rerr == nil {
				rt.Fatalf("removeall %q succeeded", asked)
			}
		} else {
			gone := path.Clean(asked)
			if rerr != nil {
				// a path below a file is an error, or nothing to do
				for p := path.Dir(gone); p != "."; p = path.Dir(p) {
					if n, ok := tree[p]; ok && !n.Mode.IsDir() {
						gone, rerr = "", nil
						break
					}
				}
				if rerr != nil {
					rt.Fatalf("removeall %q: %v", asked, rerr)
				}
			}
			want = fsmodel.Tree{}
			for p, n := range tree {
				if gone == "" || p != gone && !strings.HasPrefix(p, gone+"/") {
					want[p] = n
				}
			}
		}
		if d := got.Diff(want); d != "" {
			rt.Fatalf("after removeall %q:\n%s", asked, d)
		}
		got, err = fsmodel.SnapDir(out)
		must(err)
		if d := got.Diff(before); d != "" {
			rt.Fatalf("outside, after removeall %q:\n%s", asked, d)
		}
		if outs > 0 && len(tree)-len(want) > 1 {
			c.NonTrivial()
		}
	})
}
