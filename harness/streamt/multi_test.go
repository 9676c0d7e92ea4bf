package streamt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// segKind says how a segment spells the end of its data, all of which
// io.ReaderAt allows.
type seg struct {
	data     []byte
	declared int64
	eager    bool  // EOF together with a full read that ends at the end of data
	failAt   int   // <0: never; else reading the byte at failAt fails with err
	err      error // what it fails with
	withData bool  // data before failAt is returned with the error
	fails    bool  // failAt was set
	passes   int   // after how many failures it stops failing; 0: never
	closed   int
	closeErr error
	mu       sync.Mutex
}

func (s *seg) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("seg: negative offset")
	}
	if off >= int64(len(s.data)) {
		if len(p) == 0 && off == int64(len(s.data)) {
			return 0, nil
		}
		return 0, io.EOF
	}
	if s.failAt >= 0 && off+int64(len(p)) > int64(s.failAt) {
		n := 0
		if s.withData && int64(s.failAt) > off {
			n = copy(p, s.data[off:s.failAt])
		}
		if s.passes > 0 {
			if s.passes--; s.passes == 0 {
				s.failAt = -1
			}
		}
		return n, s.err
	}
	n := copy(p, s.data[off:])
	if n < len(p) || (s.eager && off+int64(n) == int64(len(s.data))) {
		return n, io.EOF
	}
	return n, nil
}

func (s *seg) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed++
	return s.closeErr
}

func (s *seg) Size() int64 { return s.declared }

func (s *seg) Stat() (fs.FileInfo, error) { return sizeInfo(s.declared), nil }

type sizeInfo int64

func (s sizeInfo) Name() string       { return "seg" }
func (s sizeInfo) Size() int64        { return int64(s) }
func (s sizeInfo) Mode() fs.FileMode  { return 0o644 }
func (s sizeInfo) ModTime() time.Time { return time.Time{} }
func (s sizeInfo) IsDir() bool        { return false }
func (s sizeInfo) Sys() any           { return nil }

func genSegs(rt *rapid.T, c *vt.Case) (segs []*seg, all []byte) {
	// few segments scan linearly, many are searched: both sides of the switch.
	n := vt.Of(rt, "around", 0, 0, 0, 28, 60)
	n += vt.Pick(rt, map[int]int{0: 6, 28: 13, 60: 71}[n], "segments")
	maxLen := vt.From(rt, []int{1, 3, 9, 40}, "maxLen")
	var next byte
	for i := 0; i < n; i++ {
		l := vt.Int(rt, 0, maxLen, "len")
		data := make([]byte, l)
		for j := range data {
			data[j] = next
			next = next*5 + 3 + byte(i)
		}
		segs = append(segs, &seg{
			data: data, declared: int64(l), eager: vt.Chance(rt, 2, "eager"), failAt: -1,
		})
		all = append(all, data...)
	}
	c.Log("segments=%d total=%d", n, len(all))
	switch {
	case n > 32:
		c.Label("segments>32")
	default:
		c.Label("segments<=32")
	}
	return segs, all
}

func sized(rt *rapid.T, segs []*seg) []stream.SizedReaderAt {
	switch vt.Int(rt, 0, 2, "ctor") {
	case 0:
		out, err := stream.SizedReadersFromFileLike(segs)
		if err != nil {
			rt.Fatalf("SizedReadersFromFileLike: %v", err)
		}
		return out
	case 1:
		return stream.SizedReadersFromReadAtSizer(segs)
	default:
		out := make([]stream.SizedReaderAt, len(segs))
		for i, s := range segs {
			out[i] = stream.SizedReaderAt{R: s, Size: s.declared}
		}
		return out
	}
}

// checkReadAt is the ReaderAt contract against the bytes the reader stands for.
func checkReadAt(rt *rapid.T, r io.ReaderAt, all []byte, off int64, l int) {
	p := bytes.Repeat([]byte{0xEE}, l)
	n, err := r.ReadAt(p, off)
	if off < 0 {
		if n != 0 || err == nil {
			rt.Fatalf("ReadAt(len %d, off %d) = %d, %v; want an error", l, off, n, err)
		}
		return
	}
	want := 0
	if off < int64(len(all)) {
		want = min(l, len(all)-int(off))
	}
	if n != want {
		rt.Fatalf("ReadAt(len %d, off %d) = %d, %v; want n=%d of %d", l, off, n, err, want, len(all))
	}
	if n > 0 && !bytes.Equal(p[:n], all[off:off+int64(n)]) {
		rt.Fatalf("ReadAt(len %d, off %d) wrong bytes:\n got %x\nwant %x", l, off, p[:n], all[off:off+int64(n)])
	}
	switch {
	case n < l && err != io.EOF:
		rt.Fatalf("ReadAt(len %d, off %d) short n=%d with err=%v; want io.EOF", l, off, n, err)
	case err != nil && err != io.EOF:
		rt.Fatalf("ReadAt(len %d, off %d) n=%d err=%v", l, off, n, err)
	case err == io.EOF && l > 0 && off+int64(n) < int64(len(all)):
		rt.Fatalf("ReadAt(len %d, off %d) n=%d reports EOF before the end %d", l, off, n, len(all))
	}
}

const ruleC01 = "random segment lists (0-130 segments, empty ones included, EOF spelled eagerly or late, three constructors), random history of Read/ReadAt/Seek with offsets beyond both ends; non-trivial = at least 2 non-empty segments and a read crossing a segment boundary"

func TestC01_History(t *testing.T) {
	vt.Check(t, vt.N(30000, 600000), ruleC01, func(rt *rapid.T, c *vt.Case) {
		segs, all := genSegs(rt, c)
		r := stream.NewMultiReadAtSeekCloser(sized(rt, segs))
		bounds := map[int64]bool{}
		var acc int64
		for _, s := range segs {
			acc += s.declared
			bounds[acc] = true
		}
		crosses := func(off int64, n int) bool {
			for b := range bounds {
				if off < b && b < off+int64(n) {
					return true
				}
			}
			return false
		}
		var pos int64
		total := int64(len(all))
		anyOff := func() int64 {
			if vt.Chance(rt, 2, "at a boundary") && len(segs) > 0 {
				off := int64(0)
				for _, s := range segs[:vt.Pick(rt, len(segs)+1, "segment")] {
					off += s.declared
				}
				return off + int64(vt.Pick(rt, 3, "by")-1)
			}
			return int64(vt.Int(rt, -3, int(total)+5, "off"))
		}
		steps := vt.Int(rt, 1, 25, "steps")
		var seq struct {
			last  int64
			reset bool
		}
		_ = seq
		for i := 0; i < steps; i++ {
			switch vt.Int(rt, 0, 4, "op") {
			case 0, 1:
				l := vt.Int(rt, 0, 60, "n")
				p := make([]byte, l)
				n, err := r.Read(p)
				c.Log("Read(%d)@%d=%d,%v", l, pos, n, err)
				if n < 0 || n > l {
					rt.Fatalf("Read(%d) at %d: n=%d", l, pos, n)
				}
				if n > 0 && (pos+int64(n) > total || !bytes.Equal(p[:n], all[pos:pos+int64(n)])) {
					rt.Fatalf("Read(%d) at %d returned wrong bytes: %x", l, pos, p[:n])
				}
				if err != nil && err != io.EOF {
					rt.Fatalf("Read(%d) at %d: %v", l, pos, err)
				}
				if err == io.EOF && pos+int64(n) < total {
					rt.Fatalf("Read(%d) at %d: n=%d io.EOF before the end %d", l, pos, n, total)
				}
				if l > 0 && n == 0 && err == nil {
					rt.Fatalf("Read(%d) at %d made no progress", l, pos)
				}
				if l > 0 && pos >= total && err != io.EOF {
					rt.Fatalf("Read(%d) at %d past the end: err=%v", l, pos, err)
				}
				pos += int64(n)
			case 2:
				l := vt.Int(rt, 0, 80, "n")
				off := anyOff()
				c.Log("ReadAt(%d,%d)", l, off)
				checkReadAt(rt, r, all, off, l)
				if off >= 0 && crosses(off, l) {
					c.Label("ReadAt across a boundary")
					if len(all) > 1 {
						c.NonTrivial()
					}
				}
			case 3:
				whence := vt.Int(rt, 0, 3, "whence")
				off := anyOff()
				var want int64
				switch whence {
				case io.SeekStart:
					want = off
				case io.SeekCurrent:
					off -= pos
					want = pos + off
				case io.SeekEnd:
					off -= total
					want = total + off
				}
				got, err := r.Seek(off, whence)
				c.Log("Seek(%d,%d)=%d,%v", off, whence, got, err)
				if whence > 2 || want < 0 {
					if err == nil {
						rt.Fatalf("Seek(%d,%d) accepted", off, whence)
					}
					break
				}
				if err != nil || got != want {
					rt.Fatalf("Seek(%d,%d) at %d = %d, %v; want %d", off, whence, pos, got, err, want)
				}
				pos = want
			case 4:
				got, err := io.ReadAll(r)
				c.Log("ReadAll@%d=%d,%v", pos, len(got), err)
				var want []byte
				if pos < total {
					want = all[pos:]
				}
				if err != nil || !bytes.Equal(got, want) {
					rt.Fatalf("ReadAll at %d: %d bytes, %v; want %d bytes", pos, len(got), err, len(want))
				}
				if pos < total {
					pos = total
				}
				if crosses(pos-int64(len(got)), len(got)) {
					c.Label("ReadAll across a boundary")
					c.NonTrivial()
				}
			}
			if cur, err := r.Seek(0, io.SeekCurrent); err != nil || cur != pos {
				rt.Fatalf("position is %d, %v; want %d", cur, err, pos)
			}
		}
		if err := r.Close(); err != nil {
			rt.Fatalf("Close: %v", err)
		}
		for i, s := range segs {
			if s.closed != 1 {
				rt.Fatalf("segment %d closed %d times", i, s.closed)
			}
		}
	})
}

func TestC01_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(15000, 10*60000), "several goroutines each running a drawn list of ReadAt calls on one reader, while the owner reads sequentially; non-trivial = at least 2 goroutines over at least 2 segments", func(rt *rapid.T, c *vt.Case) {
		segs, all := genSegs(rt, c)
		r := stream.NewMultiReadAtSeekCloser(sized(rt, segs))
		type call struct {
			off int64
			n   int
		}
		gs := vt.Int(rt, 2, 6, "goroutines")
		plans := make([][]call, gs)
		for g := range plans {
			for k := 0; k < vt.Int(rt, 1, 12, "calls"); k++ {
				plans[g] = append(plans[g], call{
					int64(vt.Pick(rt, len(all)+3, "off")),
					vt.Int(rt, 0, 64, "n"),
				})
			}
		}
		if len(segs) > 1 && len(all) > 0 {
			c.NonTrivial()
		}
		c.Log("plans=%v", plans)
		errs := make(chan string, gs+1)
		var wg sync.WaitGroup
		for _, plan := range plans {
			wg.Go(func() {
				for _, cl := range plan {
					p := make([]byte, cl.n)
					n, err := r.ReadAt(p, cl.off)
					want := 0
					if cl.off < int64(len(all)) {
						want = min(cl.n, len(all)-int(cl.off))
					}
					if n != want || (n > 0 && !bytes.Equal(p[:n], all[cl.off:cl.off+int64(n)])) || (err != nil && err != io.EOF) {
						errs <- fmt.Sprintf("concurrent ReadAt(%d,%d) = %d, %v", cl.n, cl.off, n, err)
						return
					}
				}
			})
		}
		wg.Go(func() {
			got, err := io.ReadAll(onlyReader{r})
			if err != nil || !bytes.Equal(got, all) {
				errs <- fmt.Sprintf("sequential read beside ReadAt: %d bytes, %v", len(got), err)
			}
		})
		wg.Wait()
		select {
		case e := <-errs:
			rt.Fatalf("%s", e)
		default:
		}
	})
}

type onlyReader struct{ io.Reader }

var errSeg = errors.New("segment failed")

const ruleC02 = "segment lists where some segments hold fewer or more bytes than declared or fail at an offset; every read is checked against the declared bytes; non-trivial = a wrong or failing segment within what is read"

func TestC02_Missized(t *testing.T) {
	vt.Check(t, vt.N(30000, 600000), ruleC02, func(rt *rapid.T, c *vt.Case) {
		n := vt.Of(rt, "around", 1, 1, 33)
		n += vt.Pick(rt, 6, "segments")
		var segs []*seg
		// view is what a reader believing the sizes would see: the byte j of a segment.
		type cell struct {
			s *seg
			j int
		}
		var view []cell
		var bad []int
		heads := make([]int64, n)
		for i := 0; i < n; i++ {
			heads[i] = int64(len(view))
			decl := vt.Int(rt, 0, 12, "declared")
			actual := decl
			failAt := -1
			switch vt.From(rt, []string{"ok", "ok", "ok", "short", "long", "fail"}, "kind") {
			case "short":
				actual = vt.Int(rt, 0, max(decl-1, 0), "actual")
			case "long":
				actual = decl + vt.Int(rt, 1, 6, "more")
			case "fail":
				if decl > 0 {
					failAt = vt.Int(rt, 0, decl-1, "failAt")
				}
			}
			data := make([]byte, actual)
			for j := range data {
				data[j] = byte(i*31 + j*7 + 1)
			}
			if actual != decl || failAt >= 0 {
				bad = append(bad, i)
				c.Label("wrong segments")
			}
			passes := 0
			if failAt >= 0 && vt.Chance(rt, 2, "passes") {
				passes = vt.Int(rt, 1, 3, "failures")
			}
			segs = append(segs, &seg{
				data: data, declared: int64(decl), failAt: failAt, fails: failAt >= 0, passes: passes,
				err: fsx.Vary(rt, errSeg), withData: vt.Chance(rt, 2, "withData"),
				eager: vt.Chance(rt, 2, "eager"),
			})
			for j := 0; j < decl; j++ {
				view = append(view, cell{segs[i], j})
			}
			c.Log("seg %d: declared=%d actual=%d failAt=%d, %d times", i, decl, actual, failAt, passes)
		}
		total := int64(len(view))
		// ok: whether the byte exists and can be read now
		ok := func(o int64) bool {
			v := view[o]
			return v.j < len(v.s.data) && (v.s.failAt < 0 || v.j < v.s.failAt)
		}
		right := func(o int64, b byte) bool {
			v := view[o]
			return v.j < len(v.s.data) && v.s.data[v.j] == b
		}
		r := stream.NewMultiReadAtSeekCloser(sized(rt, segs))
		segOf := func(off int64) int {
			for i := n - 1; i >= 0; i-- {
				if heads[i] <= off && off < heads[i]+segs[i].declared {
					return i
				}
			}
			return -1
		}
		firstHole := func(off, end int64) int64 {
			for o := off; o < end; o++ {
				if !ok(o) {
					return o
				}
			}
			return -1
		}
		checkErr := func(what string, off int64, err error) {
			var me *stream.MultiReadError
			if !errors.As(err, &me) {
				rt.Fatalf("%s: error is not a MultiReadError: %T %v", what, err, err)
			}
			if me.Index < 0 || me.Index >= n {
				rt.Fatalf("%s: MultiReadError.Index=%d", what, me.Index)
			}
			s := segs[me.Index]
			if me.TotalOff-me.ReaderOff != heads[me.Index] {
				rt.Fatalf("%s: MultiReadError %+v: offsets do not agree with head %d", what, me, heads[me.Index])
			}
			switch {
			case errors.Is(err, errSeg):
				if !s.fails {
					rt.Fatalf("%s: blames segment %d which does not fail", what, me.Index)
				}
			case errors.Is(err, io.ErrUnexpectedEOF):
				if int64(len(s.data)) >= s.declared {
					rt.Fatalf("%s: ErrUnexpectedEOF blames segment %d which is not short", what, me.Index)
				}
			case errors.Is(err, stream.ErrInvalidSize):
				if int64(len(s.data)) <= s.declared {
					rt.Fatalf("%s: ErrInvalidSize blames segment %d which is not long", what, me.Index)
				}
			default:
				rt.Fatalf("%s: unexpected error %v", what, err)
			}
		}
		// sequential
		var pos int64
		bufLen := vt.From(rt, []int{1, 2, 3, 5, 8, 64}, "buf")
		for guard := 0; ; guard++ {
			if guard > 4000 {
				rt.Fatalf("sequential read does not end (pos %d of %d)", pos, total)
			}
			p := make([]byte, bufLen)
			k, err := r.Read(p)
			what := fmt.Sprintf("Read(%d) at %d = %d, %v", bufLen, pos, k, err)
			if err == nil || err == io.EOF {
				if i := segOf(pos); i >= 0 && int64(len(segs[i].data)) > segs[i].declared && int64(bufLen) > heads[i]+segs[i].declared-pos {
					rt.Fatalf("%s: read past the declared size of segment %d, which is long, without an error", what, i)
				}
				for j := 0; j < k; j++ {
					o := pos + int64(j)
					if o >= total || !ok(o) || !right(o, p[j]) {
						rt.Fatalf("%s: byte %d is not what the segments declare", what, o)
					}
				}
				pos += int64(k)
				if err == io.EOF {
					if pos != total {
						rt.Fatalf("%s: clean EOF at %d of %d declared bytes", what, pos, total)
					}
					break
				}
				if k == 0 {
					rt.Fatalf("%s: no progress", what)
				}
				continue
			}
			checkErr(what, pos, err)
			// what came with the error and lies before the defect must be right too
			s := segs[segOf(pos)]
			failed := errors.Is(err, errSeg)
			if failed && pos+int64(k) > total {
				rt.Fatalf("%s: more than there is", what)
			}
			avail := min(int64(k), s.declared-(pos-heads[segOf(pos)]))
			for j := int64(0); j < avail; j++ {
				if !right(pos+j, p[j]) {
					rt.Fatalf("%s: byte %d is not what the segments declare", what, pos+j)
				}
			}
			c.NonTrivial()
			if failed {
				// neither a repeat nor a gap for who reads on
				pos += int64(k)
				if cur, err := r.Seek(0, io.SeekCurrent); err != nil || cur != pos {
					rt.Fatalf("%s: the position is then %d, %v; want %d", what, cur, err, pos)
				}
				if s.failAt < 0 || k > 0 || s.passes > 0 {
					c.Label("read on after a failure")
					continue
				}
			}
			c.Label("sequential read stopped by an error")
			break
		}
		if firstHole(0, total) >= 0 && pos == total {
			rt.Fatalf("read to the end over a hole")
		}
		// random access
		for i := 0; i < 12; i++ {
			off := int64(vt.Pick(rt, int(total)+2, "off"))
			l := vt.Int(rt, 0, 40, "n")
			p := make([]byte, l)
			k, err := r.ReadAt(p, off)
			what := fmt.Sprintf("ReadAt(%d,%d) = %d, %v", l, off, k, err)
			end := min(off+int64(l), total)
			hole := firstHole(min(off, total), end)
			if err == nil || err == io.EOF {
				if hole >= 0 {
					rt.Fatalf("%s: read over byte %d, which no segment has", what, hole)
				}
				for i, s := range segs {
					if e := heads[i] + s.declared; off < e && e < end && e > heads[i] && int64(len(s.data)) > s.declared {
						rt.Fatalf("%s: read past the declared size of segment %d, which is long, without an error", what, i)
					}
				}
				if want := max(end-off, 0); int64(k) != want {
					rt.Fatalf("%s: want n=%d", what, want)
				}
				if k < l && err != io.EOF {
					rt.Fatalf("%s: short without EOF", what)
				}
				if err == io.EOF && l > 0 && off+int64(k) < total {
					rt.Fatalf("%s: EOF before the end %d", what, total)
				}
				for j := 0; j < k; j++ {
					if !right(off+int64(j), p[j]) {
						rt.Fatalf("%s: byte %d wrong", what, off+int64(j))
					}
				}
				continue
			}
			checkErr(what, off, err)
			c.Label("ReadAt stopped by an error")
			c.NonTrivial()
			var me *stream.MultiReadError
			_ = errors.As(err, &me)
			if me.Index < segOf(off) || heads[me.Index] >= end {
				rt.Fatalf("%s: blames segment %d outside the range", what, me.Index)
			}
			for j := int64(0); j < int64(k) && off+j < heads[me.Index]+segs[me.Index].declared; j++ {
				if !right(off+j, p[j]) {
					rt.Fatalf("%s: byte %d is not what the segments declare", what, off+j)
				}
			}
		}
		_ = bad
	})
}
