package tarft

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// stretch is a part of an archive, told by its bytes or computed.
type stretch struct {
	at, n int64
	b     []byte
	id    int
}

func byteAt(id int, off int64) byte {
	return byte(int64(id)*53 + off*7 + off>>8 + off>>29*5 + off>>45*11)
}

// vast is an archive no memory holds.
type vast struct {
	parts []stretch
	size  int64
	read  int64
}

func (v *vast) bytes(b []byte) {
	v.parts = append(v.parts, stretch{at: v.size, n: int64(len(b)), b: b})
	v.size += int64(len(b))
}

func (v *vast) virtual(id int, n int64) {
	v.parts = append(v.parts, stretch{at: v.size, n: n, id: id})
	v.size += n
}

func (v *vast) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	for n < len(p) && off < v.size {
		i, found := slices.BinarySearchFunc(v.parts, off, func(s stretch, at int64) int {
			switch {
			case at < s.at:
				return 1
			case at >= s.at+s.n:
				return -1
			}
			return 0
		})
		if !found {
			return n, fmt.Errorf("VT-ENV no part at %d", off)
		}
		s := v.parts[i]
		for n < len(p) && off < s.at+s.n {
			if s.b != nil {
				k := copy(p[n:], s.b[off-s.at:])
				n, off = n+k, off+int64(k)
				continue
			}
			p[n] = byteAt(s.id, off-s.at)
			n, off = n+1, off+1
		}
	}
	v.read += int64(n)
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func genHuge(rt *rapid.T, key string) int64 {
	about := int64(1) << vt.Of(rt, key+" about", 16, 24, 30, 31, 32, 33, 36, 40, 47, 58)
	return about + int64(vt.Of(rt, key+" and", -2, -1, 0, 1, 2, 500, 70000))
}

// Members of any size are found and read, and those behind them.
func TestC16_Huge(t *testing.T) {
	vt.Check(t, vt.N(2500, 25000), "an archive of 1 to 5 files of 64 KiB to 2^58 bytes, plain ones told by their offsets and sparse ones with a few fragments or fragments of any size, read at their start, end, fragments and widths numbers are held in; non-trivial: a file above 2 GiB with another behind it", func(rt *rapid.T, c *vt.Case) {
		v := &vast{}
		type file struct {
			name  string
			size  int64
			id    int
			frags [][2]int // of a sparse one
			parts []byte
			wide  [][2]int64 // fragments of any size
		}
		var files []file
		n := vt.Int(rt, 1, 5, "files")
		for i := range n {
			f := file{name: fmt.Sprintf("f%d", i), size: genHuge(rt, "size"), id: i + 1}
			mtime := time.Unix(1700000000, 0)
			if vt.Chance(rt, 4, "wide") {
				var cuts, lens []int64
				for range 2 * vt.Of(rt, "fragments", 1, 2, 3, 9) {
					cuts = append(cuts, vt.Of(rt, "cut", 0, f.size, min(genHuge(rt, "cut at"), f.size), min(genHuge(rt, "cut at"), f.size)))
				}
				slices.Sort(cuts)
				stored := int64(0)
				for k := 0; k < len(cuts); k += 2 {
					if l := cuts[k+1] - cuts[k]; l > 0 {
						f.wide = append(f.wide, [2]int64{cuts[k], l})
						lens = append(lens, cuts[k], l)
						stored += l
					}
				}
				if len(f.wide) == 0 {
					f.wide, lens, stored = [][2]int64{{0, f.size}}, []int64{0, f.size}, f.size
				}
				rec := paxRecord("size", fmt.Sprint(stored)) + paxRecord("GNU.sparse.size", fmt.Sprint(f.size)) + paxRecord("GNU.sparse.numblocks", fmt.Sprint(len(f.wide)))
				if vt.Chance(rt, 2, "0.0") {
					for _, g := range f.wide {
						rec += paxRecord("GNU.sparse.offset", fmt.Sprint(g[0])) + paxRecord("GNU.sparse.numbytes", fmt.Sprint(g[1]))
					}
				} else {
					rec += paxRecord("GNU.sparse.map", strings.Trim(strings.ReplaceAll(fmt.Sprint(lens), " ", ","), "[]"))
				}
				v.bytes(seal(headerBlock("PaxHeaders.0/x", 'x', int64(len(rec)), 0o644, 0, "", "pax", false)))
				v.bytes(padded([]byte(rec)))
				size := stored
				if size >= 1<<33 {
					size = 0
				}
				v.bytes(seal(headerBlock(f.name, '0', size, 0o644, mtime.Unix(), "", "pax", false)))
				v.virtual(f.id, stored)
				v.bytes(make([]byte, -stored&511))
				c.Log("%s wide %d %v", f.name, f.size, f.wide)
			} else if vt.Chance(rt, 2, "plain") {
				style := vt.Of(rt, "style", "gnu", "pax")
				size := f.size
				if style == "pax" {
					rec := paxRecord("size", fmt.Sprint(size))
					v.bytes(seal(headerBlock("PaxHeaders.0/x", 'x', int64(len(rec)), 0o644, 0, "", "pax", false)))
					v.bytes(padded([]byte(rec)))
					if size >= 1<<33 {
						size = 0 // does not fit
					}
				}
				v.bytes(seal(headerBlock(f.name, '0', size, 0o644, mtime.Unix(), "", style, false)))
				v.virtual(f.id, f.size)
				v.bytes(make([]byte, -f.size&511))
				c.Log("%s %s %d", f.name, style, f.size)
			} else {
				e := &entry{name: f.name, typ: '0', mode: 0o644, mtime: mtime, style: "pax", real: f.size, sparse: vt.Of(rt, "sparse", "gnu", "pax0.0", "pax0.1", "pax1.0")}
				if e.sparse == "gnu" {
					e.typ, e.style = 'S', "gnu"
				}
				var at []int64
				for range vt.Of(rt, "fragments", 1, 2, 3, 6, 24) {
					at = append(at, vt.Of(rt, "fragment", 0, f.size/2, f.size-700, min(genHuge(rt, "at"), f.size-700)))
				}
				slices.Sort(at)
				end := int64(0)
				e.parts = []byte{}
				for _, a := range at {
					a = max(a, end)
					l := min(vt.Of(rt, "length", int64(1), 5, 512, 700), f.size-a)
					if l <= 0 {
						continue
					}
					e.frags = append(e.frags, [2]int{int(a), int(l)})
					for o := range l {
						e.parts = append(e.parts, byteAt(f.id, a+o)|1)
					}
					end = a + l
				}
				f.frags, f.parts = e.frags, e.parts
				var out bytes.Buffer
				e.write(&out)
				v.bytes(out.Bytes())
				c.Log("%s %s %d %v", f.name, e.sparse, f.size, f.frags)
			}
			files = append(files, f)
		}
		v.bytes(make([]byte, 1024))
		if n > 1 && slices.ContainsFunc(files[:n-1], func(f file) bool { return f.size > 1<<31 }) {
			c.NonTrivial()
		}
		fsys, err := tarfs.New(v, nil)
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		for _, f := range files {
			at := func(off int64) byte {
				if f.wide != nil {
					stored := int64(0)
					for _, g := range f.wide {
						if off >= g[0] && off < g[0]+g[1] {
							return byteAt(f.id, stored+off-g[0])
						}
						stored += g[1]
					}
					return 0
				}
				if f.parts == nil {
					return byteAt(f.id, off)
				}
				for _, g := range f.frags {
					if off >= int64(g[0]) && off < int64(g[0]+g[1]) {
						return byteAt(f.id, off) | 1
					}
				}
				return 0
			}
			h, err := fsys.Open(f.name)
			if err != nil {
				rt.Fatalf("Open(%q): %v", f.name, err)
			}
			if fi, err := h.Stat(); err != nil || fi.Size() != f.size {
				rt.Fatalf("Stat(%q): %v, %v; want %d bytes", f.name, fi, err, f.size)
			}
			points := []int64{0, f.size, f.size - 1, f.size - 50, f.size / 2, 1<<31 - 20, 1<<32 - 20, genHuge(rt, "look")}
			for _, g := range f.frags {
				points = append(points, int64(g[0])-3, int64(g[0]+g[1])-3)
			}
			for _, g := range f.wide {
				points = append(points, g[0]-3, g[0]+g[1]-3, g[0]+g[1]/2)
			}
			for range vt.Int(rt, 2, 8, "looks") {
				off := max(points[vt.Pick(rt, len(points), "point")], 0)
				p := make([]byte, vt.Of(rt, "len", 1, 10, 100, 1500))
				k := int(max(min(int64(len(p)), f.size-off), 0))
				how := vt.Of(rt, "how", "at", "seek", "end", "current")
				var got int
				var err error
				if how == "at" {
					got, err = h.(io.ReaderAt).ReadAt(p, off)
				} else {
					s := h.(io.Seeker)
					var to int64
					switch how {
					case "seek":
						to, err = s.Seek(off, io.SeekStart)
					case "end":
						to, err = s.Seek(off-f.size, io.SeekEnd)
					case "current":
						if to, err = s.Seek(17, io.SeekStart); err == nil {
							to, err = s.Seek(off-17, io.SeekCurrent)
						}
					}
					if err != nil || to != off {
						rt.Fatalf("%q: Seek (%s) to %d of %d: %d, %v", f.name, how, off, f.size, to, err)
					}
					got, err = io.ReadFull(h, p)
					if err == io.ErrUnexpectedEOF {
						err = io.EOF
					}
				}
				if got != k || k < len(p) && err != io.EOF || k == len(p) && err != nil && !(err == io.EOF && off+int64(k) == f.size) {
					rt.Fatalf("%q: %d bytes at %d of %d (%s): %d, %v", f.name, len(p), off, f.size, how, got, err)
				}
				for i, b := range p[:got] {
					if w := at(off + int64(i)); b != w {
						rt.Fatalf("%q: byte %d of %d (%s) is %#x, want %#x", f.name, off+int64(i), f.size, how, b, w)
					}
				}
			}
			if err := h.Close(); err != nil {
				rt.Fatalf("Close: %v", err)
			}
		}
		if des, err := fs.ReadDir(fsys, "."); err != nil || len(des) != n {
			rt.Fatalf("ReadDir: %v, %v", des, err)
		}
		if v.read > 16<<20 {
			rt.Fatalf("%d bytes of the archive were read", v.read)
		}
	})
}
