package streamt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/stream"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// srcStream is one stream an opener hands out.
type srcStream struct {
	data    []byte // from the opened offset on
	pos     int
	cuts    []int // read sizes to hand out, 0 = as asked, idle = none at all
	ci      int
	eager   bool
	failAt  int // absolute position in data where err is returned, <0 never
	err     error
	withErr bool // the last bytes before failAt come with err
	closed  int
	closeEr error
	readAft bool
}

func genBytes(rt *rapid.T, most int, what string) []byte {
	n, first := vt.Pick(rt, most+1, what), vt.Pick(rt, 256, "first")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(first + i*7)
	}
	return b
}

// idle is a read that hands out nothing and does not fail.
const idle = 10

func genCuts(rt *rapid.T) []int {
	var cuts []int
	for range vt.Pick(rt, 4, "cuts") {
		cuts = append(cuts, vt.Pick(rt, idle+1, "cut"))
	}
	if len(cuts) == 1 && cuts[0] == idle {
		return nil
	}
	idles := 0
	for _, k := range cuts {
		if k == idle {
			idles++
		}
	}
	if idles == len(cuts) {
		return nil
	}
	return cuts
}

func (s *srcStream) Read(p []byte) (int, error) {
	if s.closed > 0 {
		s.readAft = true
		return 0, errors.New("read after close")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, s.err
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	l := len(p)
	if len(s.cuts) > 0 {
		k := s.cuts[s.ci%len(s.cuts)]
		s.ci++
		if k == idle {
			return 0, nil
		}
		if k > 0 {
			l = min(l, k)
		}
	}
	if s.failAt >= 0 {
		l = min(l, s.failAt-s.pos)
	}
	n := copy(p[:l], s.data[s.pos:])
	s.pos += n
	if s.withErr && s.failAt >= 0 && s.pos == s.failAt {
		return n, s.err
	}
	if s.eager && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func (s *srcStream) Close() error { s.closed++; return s.closeEr }

var (
	errStream = errors.New("stream failed")
	errOpen   = errors.New("open failed")
	errClose  = errors.New("close failed")
)

const ruleC03 = "an object of 0-200 bytes behind an opener whose streams hand out drawn read sizes or nothing at times, end eagerly, late or before their time, fail mid-stream or on Close, or refuse to open; history of ReadAt (sequential runs, jumps both ways, past the end) and Close; non-trivial = a sequential run of at least 3 reads and at least one jump"

func TestC03_SeqReaderAt(t *testing.T) {
	vt.Check(t, vt.N(30000, 600000), ruleC03, func(rt *rapid.T, c *vt.Case) {
		size := vt.Int(rt, 0, 200, "size")
		obj := make([]byte, size)
		for i := range obj {
			obj[i] = byte(i*37 + 11)
		}
		type open struct {
			off int64
			s   *srcStream
		}
		var opens []open
		failOpen := false
		extra := vt.Of(rt, "longer", 0, 7) // the stream may run past the declared size
		nextFail := -1
		cutShort := false
		r := stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
			if failOpen {
				return nil, fsx.Vary(rt, errOpen)
			}
			for _, o := range opens {
				if o.s.closed == 0 {
					rt.Fatalf("a stream opened at %d is still open while another is opened at %d", o.off, off)
				}
			}
			if off < 0 || off >= int64(size) {
				rt.Fatalf("opened at %d of %d", off, size)
			}
			s := &srcStream{
				data:   append(append([]byte{}, obj[off:]...), make([]byte, extra)...),
				cuts:   genCuts(rt),
				eager:  vt.Chance(rt, 2, "eager"),
				failAt: nextFail, err: fsx.Vary(rt, errStream), withErr: vt.Chance(rt, 2, "with bytes"),
			}
			if vt.Chance(rt, 8, "close fails") {
				s.closeEr = fsx.Vary(rt, errClose)
			}
			if cutShort {
				s.data = s.data[:vt.Pick(rt, size-int(off), "ends at")]
			}
			nextFail, cutShort = -1, false
			opens = append(opens, open{off, s})
			return s, nil
		}, int64(size))
		if r.Size() != int64(size) {
			rt.Fatalf("Size() = %d, want %d", r.Size(), size)
		}
		// where the kept-open stream stands; -1 when a read is free to reopen
		at := int64(-1)
		run, longest, jumps := 0, 0, 0
		var pos int64
		for i, steps := 0, vt.Int(rt, 1, 30, "steps"); i < steps; i++ {
			op := vt.From(rt, []string{"seq", "seq", "seq", "seq", "jump", "close", "fail", "short", "failopen"}, "op")
			l := vt.Int(rt, 0, 40, "n")
			off := pos
			switch op {
			case "close":
				cur := (*srcStream)(nil)
				for _, o := range opens {
					if o.s.closed == 0 {
						cur = o.s
					}
				}
				if err := r.Close(); err != nil != (cur != nil && cur.closeEr != nil) || err != nil && !errors.Is(err, errClose) {
					rt.Fatalf("Close: %v", err)
				}
				for _, o := range opens {
					if o.s.closed == 0 {
						rt.Fatalf("Close left the stream opened at %d open", o.off)
					}
				}
				c.Log("Close")
				at = -1
				continue
			case "jump":
				off = int64(vt.Int(rt, -1, size+3, "off"))
				jumps++
			case "fail":
				nextFail = vt.Int(rt, 0, 20, "failAt")
				off = int64(vt.Pick(rt, size+1, "off"))
			case "short":
				cutShort = true
				off = int64(vt.Pick(rt, size+1, "off"))
			case "failopen":
				failOpen = true
			}
			before := len(opens)
			closeFails := map[*srcStream]bool{}
			for _, o := range opens {
				if o.s.closed == 0 && o.s.closeEr != nil {
					closeFails[o.s] = true
				}
			}
			p := bytes.Repeat([]byte{0xEE}, l)
			n, err := r.ReadAt(p, off)
			what := fmt.Sprintf("%s: ReadAt(%d,%d) = %d, %v", op, l, off, n, err)
			c.Log("%s", what)
			wasFail := failOpen
			failOpen = false
			for _, o := range opens {
				if o.s.readAft {
					rt.Fatalf("%s: read from a closed stream", what)
				}
				if o.s.closed > 1 {
					rt.Fatalf("%s: a stream was closed %d times", what, o.s.closed)
				}
			}
			if off < 0 {
				if err == nil || n != 0 {
					rt.Fatalf("%s: negative offset", what)
				}
				continue
			}
			if off >= int64(size) {
				if n != 0 || err != io.EOF {
					rt.Fatalf("%s: want 0, EOF past %d", what, size)
				}
				if len(opens) != before {
					rt.Fatalf("%s: opened a stream for a read past the end", what)
				}
				continue
			}
			if n < 0 || n > l || !bytes.Equal(p[:n], obj[off:min(off+int64(n), int64(size))]) {
				rt.Fatalf("%s: wrong bytes %x", what, p[:max(n, 0)])
			}
			want := min(l, size-int(off))
			switch {
			case errors.Is(err, errOpen):
				if !wasFail || n != 0 {
					rt.Fatalf("%s: open error out of nowhere", what)
				}
				if !strings.Contains(err.Error(), fmt.Sprint(off)) {
					rt.Fatalf("%s: open error does not name the offset", what)
				}
				c.Label("open failed")
				at = -1
			case errors.Is(err, errStream):
				c.Label("read failed by the stream")
				at = -1
			case errors.Is(err, errClose):
				if at == off {
					rt.Fatalf("%s: a contiguous read closes the stream", what)
				}
				closed := false
				for s := range closeFails {
					closed = closed || s.closed > 0
				}
				if !closed || n != 0 {
					rt.Fatalf("%s: close error out of nowhere", what)
				}
				c.Label("read failed by a close")
				at = -1
			case len(opens) > 0 && opens[len(opens)-1].s.pos == len(opens[len(opens)-1].s.data) && n <= want && err == io.EOF && int64(n)+off == opens[len(opens)-1].off+int64(opens[len(opens)-1].s.pos):
				// the stream has ended before its time
				c.Label("stream cut short")
				at = -1
			case err != nil && err != io.EOF:
				rt.Fatalf("%s: unexpected error", what)
			case n != want:
				rt.Fatalf("%s: want n=%d", what, want)
			case n < l && err != io.EOF:
				rt.Fatalf("%s: short read without EOF", what)
			case err == io.EOF && l > 0 && off+int64(n) < int64(size):
				rt.Fatalf("%s: EOF before the end %d", what, size)
			}
			if at == off && len(opens) != before {
				rt.Fatalf("%s: contiguous read reopened", what)
			}
			if len(opens) > before+1 {
				rt.Fatalf("%s: opened %d streams for one read", what, len(opens)-before)
			}
			if len(opens) > before && opens[len(opens)-1].off != off {
				rt.Fatalf("%s: opened at %d", what, opens[len(opens)-1].off)
			}
			pos = off + int64(n)
			if err == nil || (err == io.EOF && l == 0) {
				if at == off {
					run++
					longest = max(longest, run)
				} else {
					run = 1
				}
				at = pos
				if l == 0 && len(opens) == before && at != off {
					at = -1
				}
			} else {
				at = -1 // an ended stream may be reopened
			}
			if pos >= int64(size) {
				pos = 0
			}
		}
		if longest >= 3 && jumps > 0 {
			c.NonTrivial()
			c.Label("sequential run >=3 with a jump")
		}
		if err := r.Close(); err != nil && !errors.Is(err, errClose) {
			rt.Fatalf("Close: %v", err)
		}
		for _, o := range opens {
			if o.s.closed != 1 {
				rt.Fatalf("stream opened at %d closed %d times after Close", o.off, o.s.closed)
			}
		}
	})
}

const ruleC04 = "drawn readers with short reads, errors and cancellation points; non-trivial = an error or cancellation part-way, or at least two inner readers"

func TestC04_Cancellable(t *testing.T) {
	vt.Check(t, vt.N(15000, 10*30000), ruleC04, func(rt *rapid.T, c *vt.Case) {
		data := genBytes(rt, 60, "data")
		src := &srcStream{
			data: data, cuts: genCuts(rt),
			eager: vt.Chance(rt, 2, "eager"), failAt: vt.Int(rt, -1, 70, "failAt"), err: fsx.Vary(rt, errStream), withErr: vt.Chance(rt, 2, "with bytes"),
		}
		ctx, cancel := context.WithCancelCause(context.Background())
		defer cancel(nil)
		count := 0
		midway := 0
		if vt.Chance(rt, 3, "midway") {
			midway = vt.Int(rt, 1, 8, "midway at")
		}
		r := stream.NewCancellable(ctx, readerFunc(func(p []byte) (int, error) {
			count++
			if midway == count {
				cancel(errors.New("cause")) // while the source is being read
			}
			return src.Read(p)
		}))
		var got []byte
		var sticky error
		cancelled := false
		for i, steps := 0, vt.Int(rt, 1, 30, "steps"); i < steps; i++ {
			if vt.Int(rt, 0, 9, "cancel?") == 0 {
				cancel(errors.New("cause"))
				cancelled = true
				c.Log("cancel")
				c.NonTrivial()
			}
			p := make([]byte, vt.Int(rt, 1, 12, "n"))
			before := count
			n, err := r.Read(p)
			c.Log("Read(%d)=%d,%v", len(p), n, err)
			got = append(got, p[:n]...)
			if sticky != nil {
				if n != 0 || err != sticky || count != before {
					rt.Fatalf("after %v: Read = %d, %v, inner called %d times", sticky, n, err, count-before)
				}
				continue
			}
			if before >= midway && midway > 0 {
				cancelled = true
				c.Label("cancelled amid a read")
				c.NonTrivial()
			}
			if cancelled {
				if n != 0 || !errors.Is(err, context.Canceled) || count != before {
					rt.Fatalf("after cancellation: Read = %d, %v, inner called %d times", n, err, count-before)
				}
			}
			if err != nil {
				sticky = err
				c.Label("sticky %v", err)
				c.NonTrivial()
				if !cancelled && err != io.EOF && !errors.Is(err, errStream) {
					rt.Fatalf("Read: %v", err)
				}
			}
			if !bytes.HasPrefix(data, got) {
				rt.Fatalf("bytes are not the inner reader's: %x vs %x", got, data)
			}
			if err == io.EOF && !bytes.Equal(got, data) {
				rt.Fatalf("EOF after %d of %d bytes", len(got), len(data))
			}
		}
	})
}

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

type closeErrStream struct {
	srcStream
	closeErr error
}

func (s *closeErrStream) Close() error { s.closed++; return s.closeErr }

func TestC04_MultiReadCloser(t *testing.T) {
	vt.Check(t, vt.N(15000, 10*30000), ruleC04, func(rt *rapid.T, c *vt.Case) {
		n := vt.Int(rt, 0, 6, "readers")
		var rs []*closeErrStream
		var all []byte
		failed := false
		closeFails := 0
		for i := 0; i < n; i++ {
			s := &closeErrStream{srcStream: srcStream{
				data:  genBytes(rt, 20, "data"),
				cuts:  genCuts(rt),
				eager: vt.Chance(rt, 2, "eager"), failAt: -1, err: fsx.Vary(rt, errStream), withErr: vt.Chance(rt, 2, "with bytes"),
			}}
			if vt.Int(rt, 0, 7, "fail?") == 0 {
				s.failAt = vt.Int(rt, 0, len(s.data), "failAt")
				if s.failAt == len(s.data) && s.eager && s.failAt > 0 {
					s.failAt-- // an eager stream has ended before it could fail
				}
			}
			if vt.Int(rt, 0, 3, "closeFail?") == 0 {
				s.closeErr = fmt.Errorf("close %d failed", i)
				closeFails++
			}
			if !failed {
				if s.failAt >= 0 {
					all = append(all, s.data[:s.failAt]...)
					failed = true
				} else {
					all = append(all, s.data...)
				}
			}
			rs = append(rs, s)
		}
		c.Log("readers=%d failed=%v closeFails=%d all=%x", n, failed, closeFails, all)
		if n > 1 {
			c.NonTrivial()
		}
		r := stream.NewMultiReadCloser(rs...)
		got, err := io.ReadAll(r)
		if failed != errors.Is(err, errStream) || (!failed && err != nil) {
			rt.Fatalf("ReadAll: %v; a reader fails: %v", err, failed)
		}
		if !bytes.Equal(got, all) {
			rt.Fatalf("ReadAll = %x; want %x", got, all)
		}
		err = r.Close()
		if (err != nil) != (closeFails > 0) {
			rt.Fatalf("Close = %v with %d failing closers", err, closeFails)
		}
		for i, s := range rs {
			if s.closed != 1 {
				rt.Fatalf("reader %d closed %d times", i, s.closed)
			}
			if s.closeErr != nil && !errors.Is(err, s.closeErr) {
				rt.Fatalf("Close = %v; loses %v", err, s.closeErr)
			}
		}
	})
}

func TestC04_MultiReadAtSeekCloserClose(t *testing.T) {
	vt.Check(t, vt.N(6000, 10000), ruleC04, func(rt *rapid.T, c *vt.Case) {
		n := vt.Int(rt, 0, 40, "readers")
		var rs []*seg
		closeFails := 0
		for i := 0; i < n; i++ {
			s := &seg{failAt: -1}
			if vt.Int(rt, 0, 3, "closeFail?") == 0 {
				s.closeErr = fmt.Errorf("close %d failed", i)
				closeFails++
				c.Log("close %d fails", i)
			}
			rs = append(rs, s)
		}
		c.Log("readers=%d closeFails=%d", n, closeFails)
		if n > 1 && closeFails > 0 {
			c.NonTrivial()
		}
		err := stream.NewMultiReadAtSeekCloser(stream.SizedReadersFromReadAtSizer(rs)).Close()
		if (err != nil) != (closeFails > 0) {
			rt.Fatalf("Close = %v with %d failing closers", err, closeFails)
		}
		for i, s := range rs {
			if s.closed != 1 {
				rt.Fatalf("reader %d closed %d times", i, s.closed)
			}
			if s.closeErr != nil && !errors.Is(err, s.closeErr) {
				rt.Fatalf("Close = %v; loses %v", err, s.closeErr)
			}
		}
	})
}

func TestC04_ByteRepeater(t *testing.T) {
	vt.Check(t, vt.N(4000, 5000), ruleC04, func(rt *rapid.T, c *vt.Case) {
		b := byte(vt.Pick(rt, 256, "b"))
		r := stream.NewByteRepeater(b)
		for i := 0; i < 5; i++ {
			p := genBytes(rt, 64, "buf")
			var n int
			var err error
			if vt.Chance(rt, 2, "at") {
				off := vt.Of(rt, "off", int64(0), 1, 63, 64, 65, 1<<31, 1<<32, 1<<62, math.MaxInt64)
				n, err = r.ReadAt(p, off)
			} else {
				n, err = r.Read(p)
			}
			c.Log("n=%d", len(p))
			c.NonTrivial()
			if n != len(p) || err != nil || bytes.Count(p, []byte{b}) != len(p) {
				rt.Fatalf("read of %d = %d, %v, %x", len(p), n, err, p)
			}
		}
	})
}
