package streamt

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"testing"

	"github.com/ngicks/go-fsys-helper/stream"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// virtual is an object too big to be held: its bytes are told by their offsets.
type virtual struct {
	key   byte
	size  int64
	eager bool
}

func (v *virtual) at(off int64) byte {
	x := uint64(off)*0x9E3779B97F4A7C15 + uint64(v.key)
	return byte(x >> 56)
}

func (v *virtual) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("virtual: negative offset %d", off)
	}
	if off >= v.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), v.size-off))
	for i := range n {
		p[i] = v.at(off + int64(i))
	}
	if n < len(p) || v.eager && off+int64(n) == v.size {
		return n, io.EOF
	}
	return n, nil
}

// bigSize draws a size around the powers of two that counters are made of.
func bigSize(rt *rapid.T) int64 {
	switch vt.Pick(rt, 4, "size kind") {
	case 0:
		return int64(vt.Pick(rt, 10, "small"))
	case 1:
		return int64(1)<<vt.Int(rt, 10, 61, "bits") + int64(vt.Int(rt, -3, 3, "by"))
	case 2:
		return math.MaxInt32 + int64(vt.Int(rt, -3, 3, "by"))
	default:
		return math.MaxUint32 + int64(vt.Int(rt, -3, 3, "by"))
	}
}

const ruleHuge = "objects of up to 2^63-1 bytes whose contents are told by their offsets, in up to 40 segments of sizes around powers of two; reads and seeks around every boundary; non-trivial = an offset past 2^31"

func TestC01_Huge(t *testing.T) {
	vt.Check(t, vt.N(8000, 160000), ruleHuge, func(rt *rapid.T, c *vt.Case) {
		n := vt.Of(rt, "around", 1, 30) + vt.Pick(rt, 11, "segments")
		var segs []*virtual
		var in []stream.SizedReaderAt
		heads := []int64{0}
		for i := range n {
			head := heads[i]
			size := bigSize(rt)
			if vt.Chance(rt, 15, "to the limit") || size > math.MaxInt64-head {
				size = math.MaxInt64 - head
			}
			v := &virtual{key: byte(i * 41), size: size, eager: vt.Chance(rt, 2, "eager")}
			segs = append(segs, v)
			in = append(in, stream.SizedReaderAt{R: v, Size: size})
			heads = append(heads, head+size)
		}
		total := heads[n]
		r := stream.NewMultiReadAtSeekCloser(in)
		want := func(off int64, l int) []byte {
			var out []byte
			for i := 0; i < n && len(out) < l; i++ {
				for off >= heads[i] && off < heads[i+1] && len(out) < l {
					out = append(out, segs[i].at(off-heads[i]))
					off++
				}
			}
			return out
		}
		anyOff := func() int64 {
			off := heads[vt.Pick(rt, n+1, "boundary")]
			by := int64(vt.Int(rt, -20, 20, "by"))
			if by > math.MaxInt64-off {
				by = 0
			}
			return off + by
		}
		c.Log("heads=%v", heads)
		var pos int64
		for range vt.Int(rt, 1, 15, "steps") {
			switch vt.Pick(rt, 3, "op") {
			case 0:
				l, off := vt.Pick(rt, 50, "n"), anyOff()
				if off > math.MaxInt32 {
					c.NonTrivial()
					c.Label("ReadAt past 2^31")
				}
				p := make([]byte, l)
				k, err := r.ReadAt(p, off)
				what := fmt.Sprintf("ReadAt(%d, %d) of %d = %d, %v", l, off, total, k, err)
				c.Log("%s", what)
				if off < 0 {
					if err == nil || k != 0 {
						rt.Fatalf("%s", what)
					}
					continue
				}
				w := want(off, l)
				if k != len(w) || !bytes.Equal(p[:k], w) {
					rt.Fatalf("%s: got %x, want %x", what, p[:k], w)
				}
				if k < l && err != io.EOF || err != nil && err != io.EOF || err == io.EOF && l > 0 && off+int64(k) < total {
					rt.Fatalf("%s", what)
				}
			case 1:
				off, whence := anyOff(), vt.Pick(rt, 3, "whence")
				arg := off
				switch whence {
				case io.SeekCurrent:
					arg = off - pos
				case io.SeekEnd:
					arg = off - total
				}
				if vt.Chance(rt, 10, "overflow") && pos > 0 {
					// no position: it does not fit the type
					arg, off, whence = math.MaxInt64, -1, io.SeekCurrent
				}
				got, err := r.Seek(arg, whence)
				what := fmt.Sprintf("at %d of %d: Seek(%d, %d) = %d, %v", pos, total, arg, whence, got, err)
				c.Log("%s", what)
				if off < 0 {
					if err == nil {
						rt.Fatalf("%s", what)
					}
					continue
				}
				if err != nil || got != off {
					rt.Fatalf("%s", what)
				}
				pos = off
			case 2:
				l := vt.Int(rt, 1, 50, "n")
				p := make([]byte, l)
				k, err := io.ReadFull(r, p)
				what := fmt.Sprintf("at %d of %d: ReadFull(%d) = %d, %v", pos, total, l, k, err)
				c.Log("%s", what)
				w := want(pos, l)
				if k != len(w) || !bytes.Equal(p[:k], w) {
					rt.Fatalf("%s: got %x, want %x", what, p[:k], w)
				}
				if k < l != (err != nil) || err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
					rt.Fatalf("%s", what)
				}
				pos += int64(k)
			}
			if cur, err := r.Seek(0, io.SeekCurrent); err != nil || cur != pos {
				rt.Fatalf("position is %d, %v; want %d", cur, err, pos)
			}
		}
	})
}

func TestC03_Huge(t *testing.T) {
	vt.Check(t, vt.N(8000, 160000), ruleHuge, func(rt *rapid.T, c *vt.Case) {
		size := bigSize(rt)
		if vt.Chance(rt, 15, "to the limit") {
			size = math.MaxInt64
		}
		v := &virtual{key: 3, size: size}
		var open *io.SectionReader
		var opens int
		r := stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
			opens++
			open = io.NewSectionReader(v, off, size-off)
			return io.NopCloser(open), nil
		}, size)
		if r.Size() != size {
			rt.Fatalf("Size() = %d, want %d", r.Size(), size)
		}
		var pos int64
		for range vt.Int(rt, 1, 15, "steps") {
			l, off := vt.Pick(rt, 50, "n"), pos
			if vt.Chance(rt, 2, "jump") {
				base := vt.Of(rt, "base", 0, size/2, size)
				by := int64(vt.Int(rt, -30, 30, "by"))
				if by > math.MaxInt64-base {
					by = 0
				}
				off = base + by
			}
			before := opens
			p := make([]byte, l)
			k, err := r.ReadAt(p, off)
			what := fmt.Sprintf("ReadAt(%d, %d) of %d = %d, %v", l, off, size, k, err)
			c.Log("%s", what)
			if off < 0 || off >= size {
				if err == nil || k != 0 || off >= size && err != io.EOF {
					rt.Fatalf("%s", what)
				}
				continue
			}
			if off > math.MaxInt32 {
				c.NonTrivial()
				c.Label("ReadAt past 2^31")
			}
			w := int(min(int64(l), size-off))
			for i := range min(k, w) {
				if p[i] != v.at(off+int64(i)) {
					rt.Fatalf("%s: byte %d is wrong", what, i)
				}
			}
			if k != w || k < l && err != io.EOF || err != nil && err != io.EOF || err == io.EOF && l > 0 && off+int64(k) < size {
				rt.Fatalf("%s", what)
			}
			if off == pos && pos > 0 && opens != before && err == nil {
				rt.Fatalf("%s: a contiguous read reopened", what)
			}
			pos = off + int64(k)
			if err != nil || l == 0 {
				pos = 0
			}
		}
	})
}
