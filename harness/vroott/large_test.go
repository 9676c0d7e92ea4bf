package vroott

import (
	"io"
	"math"
	"os"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// What no memory holds is refused, and leaves the file as it was.
func TestC24_TooLarge(t *testing.T) {
	vt.Check(t, vt.N(2000, 20000), "a file in memory, 3 to 12 calls on two handles to it (writes at, truncations to and seeks to offsets no memory reaches, writes after them, and ordinary ones); non-trivial: three refused", func(rt *rapid.T, c *vt.Case) {
		fsys := synthfs.NewRoot("mem", nil)
		far := func() int64 {
			return vt.Of(rt, "far", int64(1)<<50, 1<<53+1, 1<<62, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-5)
		}
		var hs []vroot.File
		var want []byte
		pos := make([]int64, 2)
		for range 2 {
			f, err := fsys.OpenFile("f", os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			defer f.Close()
			hs = append(hs, f)
		}
		refused := 0
		for range vt.Int(rt, 3, 12, "calls") {
			i := vt.Pick(rt, 2, "handle")
			f := hs[i]
			p := []byte("abcdefgh")[:vt.Int(rt, 1, 8, "len")]
			op := vt.Of(rt, "call", "writeat", "truncate", "seek", "write", "writestring", "read", "near", "cut")
			c.Log("%s %d", op, i)
			var n int
			var err error
			refuse := false
			put := func(off int64) {
				if grow := off + int64(len(p)) - int64(len(want)); grow > 0 {
					want = append(want, make([]byte, grow)...)
				}
				copy(want[off:], p)
			}
			switch op {
			case "writeat":
				refuse = true
				n, err = f.WriteAt(p, far())
			case "truncate":
				refuse = true
				err = f.Truncate(far())
			case "near":
				off := int64(vt.Pick(rt, 20, "at"))
				n, err = f.WriteAt(p, off)
				put(off)
			case "cut":
				size := vt.Pick(rt, len(want)+3, "size")
				err = f.Truncate(int64(size))
				want = append(want, 0, 0, 0)[:size]
				want = append([]byte(nil), want...)
			case "seek":
				off, whence := far(), vt.Of(rt, "whence", io.SeekStart, io.SeekCurrent, io.SeekEnd)
				if vt.Chance(rt, 3, "back") {
					off, whence = 0, io.SeekStart
				}
				at, err := f.Seek(off, whence)
				base := map[int]int64{io.SeekCurrent: pos[i], io.SeekEnd: int64(len(want))}[whence]
				switch {
				case off > math.MaxInt64-base:
					if err == nil {
						rt.Fatalf("Seek to %d from %d = %d", off, base, at)
					}
				case err != nil || at != base+off:
					rt.Fatalf("Seek to %d from %d = %d, %v", off, base, at, err)
				default:
					pos[i] = at
				}
				continue
			case "read":
				n, err := f.Read(make([]byte, 4))
				k := max(min(4, int64(len(want))-pos[i]), 0)
				if int64(n) != k || k == 0 && err != io.EOF || k == 4 && err != nil || err != nil && err != io.EOF {
					rt.Fatalf("Read at %d of %d = %d, %v", pos[i], len(want), n, err)
				}
				pos[i] += k
				continue
			case "write", "writestring":
				refuse = pos[i] > 1<<40
				if op == "write" {
					n, err = f.Write(p)
				} else {
					n, err = f.WriteString(string(p))
				}
				if !refuse {
					put(pos[i])
					pos[i] += int64(len(p))
				}
			}
			if refuse {
				refused++
				if err == nil || n != 0 {
					rt.Fatalf("%s = %d, %v", op, n, err)
				}
			} else if err != nil {
				rt.Fatalf("%s: %v", op, err)
			}
			got, err := vroot.ReadFile(fsys, "f")
			if err != nil || string(got) != string(want) {
				rt.Fatalf("after %s the file holds %q, %v, want %q", op, got, err, want)
			}
		}
		if refused >= 3 {
			c.NonTrivial()
		}
	})
}
