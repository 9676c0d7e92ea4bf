package tarft

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"pgregory.net/rapid"
	"verifharness/vt"
)

var oddNames = []string{"", "/", ".", "./", "..", "../x", "a/../b", "a//b", "/a", "/a/b", "a/", "\xff", "a/b/c", "a", "b", "a/b", "c", "...", "a/..", "c/../../d", "a/./b"}

// mangle changes bytes of an archive; some changes leave its checksums right.
func mangle(rt *rapid.T, c *vt.Case, b []byte) []byte {
	for range vt.Pick(rt, 5, "changes") {
		if len(b) == 0 {
			return b
		}
		nblk := (len(b) + 511) / 512
		blk := vt.Pick(rt, nblk, "block")
		lo, hi := blk*512, min(blk*512+512, len(b))
		how := vt.Of(rt, "change", "field", "field", "field", "field", "byte", "cut", "drop", "double", "noise", "zero")
		switch how {
		case "byte":
			at := lo + vt.Pick(rt, hi-lo, "at")
			b[at] ^= 1 << vt.Pick(rt, 8, "bit")
			if vt.Chance(rt, 2, "sealed") && hi-lo == 512 {
				seal(b[lo:hi])
			}
		case "cut":
			b = b[:lo+vt.Pick(rt, hi-lo, "at")]
		case "drop":
			b = append(b[:lo:lo], b[hi:]...)
		case "double":
			b = append(b[:hi:hi], b[lo:]...)
		case "noise":
			n := make([]byte, 512)
			for i := range n {
				n[i] = byte(i * 7)
			}
			b = append(b[:lo:lo], append(n, b[lo:]...)...)
		case "zero":
			clear(b[lo:hi])
		case "field":
			if hi-lo < 512 {
				continue
			}
			// headers are what is worth it
			for i := range nblk {
				k := (blk + i) % nblk
				if k*512+512 <= len(b) && b[k*512+156] != 0 && b[k*512+148+6] == 0 && b[k*512+148+7] == ' ' {
					lo, hi = k*512, k*512+512
					break
				}
			}
			h := b[lo:hi]
			f := vt.Of(rt, "field", "name", "size", "type", "link", "magic", "mode", "time", "map", "ext", "real")
			switch f {
			case "name":
				clear(h[:100])
				copy(h, oddNames[vt.Pick(rt, len(oddNames), "name")])
			case "link":
				clear(h[157:257])
				copy(h[157:], oddNames[vt.Pick(rt, len(oddNames), "name")])
			case "type":
				h[156] = vt.Of[byte](rt, "to", '0', 0, '1', '2', '3', '4', '5', '6', '7', 'S', 'L', 'K', 'x', 'g', 'V', 'X', 'D')
			case "size", "mode", "time", "real":
				at := map[string]int{"size": 124, "mode": 100, "time": 136, "real": 483}[f]
				n := 12
				if f == "mode" {
					n = 8
				}
				clear(h[at : at+n])
				copy(h[at:at+n], vt.Of(rt, "number", "", "0", "1", "777", "1000", "77777777777", "-1", "8", "\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x80\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00"))
			case "magic":
				copy(h[257:], vt.Of(rt, "magic", "ustar\x0000", "ustar  \x00", "\x00\x00\x00\x00\x00\x00\x00\x00"))
			case "map":
				at := 386 + 12*vt.Pick(rt, 8, "number")
				copy(h[at:at+12], vt.Of(rt, "number", "00000000000\x00", "00000000001\x00", "77777777777\x00", "\x80\x00\x00\x00\x7f\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"))
			case "ext":
				h[482] ^= 1
			}
			seal(h)
			how += " " + f
		}
		c.Log("%s at block %d", how, lo/512)
	}
	return b
}

var errUnread = errors.New("not read")

const readMost = 1 << 16

// judge holds what an archive shows as a file system against what archive/tar
// reads in it, and reports how many entries it found.
func judge(fatal func(string, ...any), raw []byte, opt *tarfs.FsOption, sub func() bool) int {
	std := map[string][]byte{}
	bodyErr := map[string]error{}
	flags := map[string]byte{}
	var stdErr error
	tr := tar.NewReader(bytes.NewReader(raw))
	last := map[string]int{}
	oddMode := false
	for i := 0; ; i++ {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			stdErr = err
			break
		}
		k := path.Clean(h.Name)
		// bits of the mode may tell another kind than that of the entry
		oddMode = oddMode || h.Mode&^07777 != 0
		flags[k], bodyErr[k], last[k] = h.Typeflag, errUnread, i
	}
	// a failing body ends reading
	badMap, unsure := false, false
	tr = tar.NewReader(bytes.NewReader(raw))
	for i := 0; ; i++ {
		h, err := tr.Next()
		if err != nil {
			break
		}
		data, err := io.ReadAll(io.LimitReader(tr, readMost))
		if k := path.Clean(h.Name); last[k] == i {
			std[k], bodyErr[k] = data, err
		}
		unsure = unsure || len(data) == readMost
		badMap = badMap || err != nil && strings.Contains(err.Error(), "sparse")
		if err != nil {
			break
		}
	}
	fsys, err := tarfs.New(bytes.NewReader(raw), opt)
	if err == nil && (stdErr != nil || badMap) || err != nil && stdErr == nil && !badMap && !unsure {
		fatal("New: %v, archive/tar: %v, map at odds with its body: %v", err, stdErr, badMap)
	}
	n := 0
	for s, err := range tarfs.Sections(bytes.NewReader(raw)) {
		if stdErr == nil && err == nil && (s.HeaderEnd() < s.HeaderStart() || s.BodyEnd() < s.BodyStart()) {
			fatal("section %q: %d %d %d", s.Header().Name, s.HeaderStart(), s.HeaderEnd(), s.BodyEnd())
		}
		n++
	}
	if err != nil {
		return 0
	}
	below := func(k string) bool {
		for o, flag := range flags {
			switch flag {
			case tar.TypeReg, tar.TypeGNUSparse, tar.TypeDir, tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeFifo:
				if strings.HasPrefix(o, k+"/") {
					return true
				}
			}
		}
		return false
	}
	seen := map[string]bool{}
	budget := 400
	// through: some parent is a link, so that full is not the member's name
	var walk func(fsys fs.FS, at, full string, through bool, depth int)
	walk = func(fsys fs.FS, at, full string, through bool, depth int) {
		if budget--; budget < 0 {
			return
		}
		lfi, lerr := fs.Lstat(fsys, at)
		if lerr == nil && lfi.Mode()&fs.ModeSymlink != 0 {
			if _, err := fs.ReadLink(fsys, at); err != nil && !oddMode {
				fatal("ReadLink(%q): %v", at, err)
			}
		} else if _, err := fs.ReadLink(fsys, at); err == nil && !oddMode {
			fatal("ReadLink(%q) of no link", at)
		}
		f, err := fsys.Open(at)
		if err != nil {
			if lerr == nil && lfi.Mode().IsDir() && !oddMode {
				fatal("Open(%q): %v", at, err)
			}
			return
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			fatal("Stat(%q): %v", at, err)
		}
		_ = fs.FormatFileInfo(fi)
		if d, ok := f.(fs.ReadDirFile); ok {
			flag, member := flags[full]
			through = through || lerr != nil || !lfi.Mode().IsDir() || full != "." && member && flag != tar.TypeDir && !below(full)
			des, err := d.ReadDir(-1)
			if err != nil {
				fatal("ReadDir(%q): %v", at, err)
			}
			twice := map[string]bool{}
			for _, de := range des {
				_ = fs.FormatDirEntry(de)
				p := path.Join(at, de.Name())
				if !fs.ValidPath(de.Name()) || strings.Contains(de.Name(), "/") || de.Name() == "." || twice[de.Name()] {
					fatal("%q lists %q", at, de.Name())
				}
				twice[de.Name()] = true
				l, err := fs.Lstat(fsys, p)
				if err == nil && l.Mode().Type() != de.Type() {
					fatal("%q is %v when listed, %v by itself", p, de.Type(), l.Mode())
				}
				if err != nil && de.Type() != 0 && !oddMode && flags[path.Join(full, de.Name())] != tar.TypeLink {
					fatal("Lstat(%q), which is listed: %v", p, err)
				}
				if depth > 0 {
					walk(fsys, p, path.Join(full, de.Name()), through, depth-1)
				}
			}
			if depth > 1 && at != "." && sub() {
				if sub, err := fs.Sub(fsys, at); err == nil {
					walk(sub, ".", full, through, depth-2)
				}
			}
			return
		}
		if !through {
			seen[full] = true
		}
		if !through && lerr == nil && lfi.Mode().IsRegular() && flags[full] != tar.TypeLink && full != "." {
			if bad := same(f, std[full], bodyErr[full]); bad != "" {
				fatal("%q: %s", full, bad)
			}
		} else {
			_, _ = io.ReadAll(io.LimitReader(f, readMost))
		}
		if ra, ok := f.(io.ReaderAt); ok {
			for _, off := range []int64{0, 1, 511, fi.Size() - 1, fi.Size(), fi.Size() + 1} {
				if off >= 0 {
					_, _ = ra.ReadAt(make([]byte, 16), off)
				}
			}
		}
	}
	walk(fsys, ".", ".", false, 6)
	for k, flag := range flags {
		if flag != tar.TypeReg && flag != tar.TypeGNUSparse || !fs.ValidPath(k) || k == "." || strings.Count(k, "/") > 5 || budget < 0 {
			continue
		}
		if !below(k) && !seen[k] {
			fatal("%q is nowhere to be found", k)
		}
	}
	return len(seen)
}

// Whatever the bytes, an archive is refused where archive/tar refuses it, and
// otherwise can be walked and read to the same effect.
func TestC18_Arbitrary(t *testing.T) {
	vt.Check(t, vt.N(60000, 600000), "an archive with odd names, links and maps, up to 4 of its blocks changed, dropped, doubled or cut, read by archive/tar and searched as a file system; non-trivial: changed, and accepted with an entry in it", func(rt *rapid.T, c *vt.Case) {
		var es []*entry
		var names []string
		for i := range 1 + vt.Pick(rt, 6, "members") {
			e := genEntry(rt, i, names)
			if vt.Chance(rt, 3, "odd name") && e.sparse == "" {
				e.name = oddNames[vt.Pick(rt, len(oddNames), "name")]
			}
			if vt.Chance(rt, 3, "link") {
				*e = entry{name: e.name, typ: vt.Of[byte](rt, "kind", '1', '2'), mode: 0o644, mtime: time.Unix(3, 0), style: "gnu"}
				e.link = oddNames[vt.Pick(rt, len(oddNames), "name")]
				switch {
				case vt.Chance(rt, 3, "to another"):
					e.link = genName(rt, names)
				case vt.Chance(rt, 3, "below itself"):
					e.link = path.Join(e.name, vt.Of(rt, "below", "a", "", "../a"))
				}
			}
			e.restyle()
			names = append(names, path.Clean(e.name))
			es = append(es, e)
			c.Log("%s", e)
		}
		raw := mangle(rt, c, build(es, vt.Pick(rt, 3, "trailer")))
		opt := &tarfs.FsOption{AllowDev: vt.Chance(rt, 2, "dev"), HandleSymlink: !vt.Chance(rt, 3, "no links"), IsRooted: vt.Chance(rt, 2, "rooted")}
		seen := judge(rt.Fatalf, raw, opt, func() bool { return vt.Chance(rt, 4, "sub") })
		if seen > 0 && len(c.Trace()) > 0 && strings.Contains(c.Trace(), "at block") {
			c.NonTrivial()
		}
	})
}

// same holds what a file reads against what archive/tar read.
func same(f io.Reader, want []byte, werr error) string {
	got, err := io.ReadAll(io.LimitReader(f, readMost))
	if werr == errUnread {
		return ""
	}
	if werr != nil {
		if err == nil && !bytes.Equal(got, want) {
			return fmt.Sprintf("read %d bytes, archive/tar says %v", len(got), werr)
		}
		return ""
	}
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Sprintf("read %d bytes and %v, archive/tar %d", len(got), err, len(want))
	}
	return ""
}

// Bytes of no archive at all are refused or give an empty one.
func TestC18_Bytes(t *testing.T) {
	vt.Check(t, vt.N(3000, 60000), "bytes of any kind; non-trivial: 512 of them or more", func(rt *rapid.T, c *vt.Case) {
		n := vt.Of(rt, "length", 0, 1, 511, 512, 513, 1024, 1536, 4096)
		b := make([]byte, n)
		fill := vt.Of(rt, "fill", "zero", "random", "octal", "header")
		seed := uint32(vt.Pick(rt, 1<<16, "seed")) + 1
		for i := range b {
			seed = seed*1664525 + 1013904223
			switch fill {
			case "random":
				b[i] = byte(seed >> 24)
			case "octal", "header":
				b[i] = '0' + byte(seed>>29)
			}
		}
		if fill == "header" && n >= 512 {
			copy(b[257:], "ustar\x0000")
			b[156] = '0' + byte(vt.Pick(rt, 8, "type"))
			clear(b[124:131])
			seal(b[:512])
		}
		if n >= 512 {
			c.NonTrivial()
		}
		c.Log("%s %d %d", fill, n, seed)
		var stdErr error
		tr := tar.NewReader(bytes.NewReader(b))
		for stdErr == nil {
			_, stdErr = tr.Next()
		}
		if stdErr == io.EOF {
			stdErr = nil
		}
		fsys, err := tarfs.New(bytes.NewReader(b), nil)
		if (err != nil) != (stdErr != nil) {
			rt.Fatalf("New: %v, archive/tar: %v", err, stdErr)
		}
		if err != nil {
			return
		}
		if err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.Type() == 0 {
				_, err = fs.ReadFile(fsys, p)
				if errors.Is(err, fs.ErrNotExist) {
					err = nil
				}
			}
			return err
		}); err != nil {
			rt.Fatalf("walk: %v", err)
		}
	})
}
