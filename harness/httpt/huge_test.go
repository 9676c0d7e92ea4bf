package httpt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// virtual reads an object that is computed where it is read.
type virtual struct {
	v        *version
	off, end int64
	read     int64
}

func (r *virtual) Read(p []byte) (int, error) {
	if r.off >= r.end {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && r.off < r.end {
		p[n] = r.v.at(r.off)
		n++
		r.off++
	}
	r.read += int64(n)
	return n, nil
}

// hugeServer holds one object no memory could.
type hugeServer struct {
	mu   sync.Mutex
	v    *version
	log  []*request
	sent []int64 // declared by puts
	lazy []*virtual
}

func (s *hugeServer) RoundTrip(q *http.Request) (*http.Response, error) {
	if q.Body != nil {
		defer q.Body.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	rq := &request{url: q.Method + " " + q.URL.String(), header: q.Header.Clone()}
	s.log = append(s.log, rq)
	h := http.Header{"ETag": {s.v.etag}, "Content-Type": {"application/octet-stream"}}
	done := func(code int, r io.Reader, n int64) (*http.Response, error) {
		resp := plainly(code, q, h, r, n)
		rq.body, rq.code = resp.Body.(*body), code
		return resp, nil
	}
	switch q.Method {
	case http.MethodPut:
		s.sent = append(s.sent, q.ContentLength)
		return done(201, strings.NewReader(""), 0)
	case http.MethodHead:
		return done(200, strings.NewReader(""), s.v.size)
	}
	first, last, ranged := parseRange(q.Header.Get("Range"))
	if !ranged {
		r := &virtual{v: s.v, end: s.v.size}
		s.lazy = append(s.lazy, r)
		return done(200, r, s.v.size)
	}
	if first >= s.v.size {
		h.Set("Content-Range", fmt.Sprintf("bytes */%d", s.v.size))
		return done(416, strings.NewReader(""), 0)
	}
	if last < 0 || last >= s.v.size {
		last = s.v.size - 1
	}
	h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", first, last, s.v.size))
	r := &virtual{v: s.v, off: first, end: last + 1}
	s.lazy = append(s.lazy, r)
	return done(206, r, last+1-first)
}

// genHuge draws a size about a width a number may be held in.
func genHuge(rt *rapid.T, key string) int64 {
	about := int64(1) << vt.Of(rt, key+" about", 16, 24, 31, 32, 33, 40, 48, 53, 62)
	if vt.Chance(rt, 8, key+" most") {
		return math.MaxInt64 - int64(vt.Pick(rt, 3, key+" less"))
	}
	return about + int64(vt.Of(rt, key+" and", -2, -1, 0, 1, 2, 500, 70000))
}

// Numbers of any width come through.
func TestC12_Huge(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "one object of 64 KiB to 8 EiB whose bytes are told by their offsets, a whole or section reader, 2 to 12 reads about widths numbers are held in, and short copies; non-trivial: three reads giving bytes from beyond 2 GiB", func(rt *rapid.T, c *vt.Case) {
		v := &version{id: 1, size: genHuge(rt, "size"), etag: `"tag"`}
		s := &hugeServer{v: v}
		sec := section{whole: true}
		if vt.Chance(rt, 2, "section") {
			sec = section{off: min(genHuge(rt, "section at"), v.size)}
			if vt.Chance(rt, 3, "at start") {
				sec.off = int64(vt.Pick(rt, 3, "start"))
			}
			sec.n = vt.Of(rt, "section of", v.size-sec.off, genHuge(rt, "section n"), math.MaxInt64, math.MaxInt64-sec.off, 100)
		}
		cfg := &httprange.Config{Client: &http.Client{Transport: s}}
		if vt.Chance(rt, 3, "knows") {
			cfg.PriorKnowledge = httprange.Metadata{Size: v.size, ETag: v.etag}
		}
		c.Log("%d bytes, section %+v", v.size, sec)
		r, err := sec.open(context.Background(), cfg)
		if err != nil {
			rt.Fatalf("open: %v", err)
		}
		far, next := 0, int64(0)
		length := max(min(sec.end(), v.size)-sec.off, 0)
		for range vt.Int(rt, 2, 12, "reads") {
			p := make([]byte, vt.Of(rt, "len", 1, 2, 16, 100, 3000))
			off := next
			switch vt.Of(rt, "where", "next", "huge", "huge", "end", "near") {
			case "huge":
				off = max(genHuge(rt, "off")-vt.Of(rt, "from", 0, sec.off), 0)
			case "end":
				off = max(length-int64(vt.Of(rt, "before", 0, 1, 2, 50, 3000)), 0)
			case "near":
				off = int64(vt.Pick(rt, 100, "near"))
			}
			n, err := r.ReadAt(p, off)
			c.Log("ReadAt %d at %d = %d, %v", len(p), off, n, err)
			if bad := judge(v, sec, p, off, n, err); bad != "" {
				rt.Fatalf("ReadAt of %d at %d: %s", len(p), off, bad)
			}
			if n > 0 {
				next = off + int64(n)
				if sec.off+off > math.MaxInt32 {
					far++
				}
			}
		}
		if m, ok := r.Metadata(); len(s.log) > 0 && (!ok || m.Size != v.size) {
			rt.Fatalf("metadata is %+v, %v", m, ok)
		}
		if far >= 3 {
			c.NonTrivial()
		}
		if err := r.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		for i, l := range s.lazy {
			if l.read > 1<<20 {
				rt.Fatalf("%d bytes were taken of the answer to request %d", l.read, i)
			}
		}
	})
}

// chunkClient keeps chunks that are computed where they are read.
type chunkClient struct {
	v         *version
	cs        int64
	have      func(i int64) (size int64, ok bool)
	asked     []string
	stored    map[int64][]byte
	remaining int // chunks stored until it fails, -1 for never
	open      int
}

func (k *chunkClient) index(name string) int64 {
	s, ok := strings.CutPrefix(name, "blob/")
	i, err := strconv.ParseInt(s, 10, 64)
	if !ok || err != nil {
		panic("VT-ENV " + name)
	}
	return i
}

type counted struct {
	io.Reader
	k *chunkClient
}

func (c *counted) Close() error { c.k.open--; return nil }

func (k *chunkClient) Get(_ context.Context, name string, off int64) (io.ReadCloser, int64, error) {
	i := k.index(name)
	k.asked = append(k.asked, fmt.Sprintf("get %d@%d", i, off))
	n, ok := k.have(i)
	if !ok {
		return nil, 0, fs.ErrNotExist
	}
	k.open++
	return &counted{&virtual{v: k.v, off: i*k.cs + off, end: i*k.cs + n}, k}, n, nil
}

func (k *chunkClient) Stat(_ context.Context, name string) (int64, error) {
	i := k.index(name)
	n, ok := k.have(i)
	if !ok {
		return 0, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return n, nil
}

func (k *chunkClient) Put(_ context.Context, name string, size int64, r io.Reader) error {
	i := k.index(name)
	if k.remaining == 0 {
		return errWire
	}
	k.remaining--
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if int64(len(b)) != size {
		return fmt.Errorf("%d bytes for %d", len(b), size)
	}
	k.stored[i] = b
	return nil
}

var _ fileserver.Client = (*chunkClient)(nil)

// Objects, chunks and numbers of chunks are of any size.
func TestC15_Huge(t *testing.T) {
	t.Setenv("TMPDIR", t.TempDir())
	vt.Check(t, vt.N(2500, 25000), "one object of 64 KiB to 8 EiB whose bytes are told by their offsets, put, asked for and read by the client, read in chunks of up to all of it and asked for by chunks, and one of up to 1500 small chunks sent and read; non-trivial: a chunk read at its edge beyond 2 GiB, or more than 200 chunks sent", func(rt *rapid.T, c *vt.Case) {
		ctx := context.Background()
		v := &version{id: 1, size: genHuge(rt, "size"), etag: `"tag"`}
		switch vt.Of(rt, "what", "client", "chunks", "chunks", "many") {
		case "client":
			s := &hugeServer{v: v}
			_, base := genStore(rt, c)
			cl := &fileserver.HTTPClient{BaseURL: base, Client: &http.Client{Transport: s}}
			if n, err := cl.Stat(ctx, "a"); err != nil || n != v.size {
				rt.Fatalf("Stat: %d, %v, want %d", n, err, v.size)
			}
			if err := cl.Put(ctx, "a", v.size, io.MultiReader(strings.NewReader("x"))); err != nil || !slices.Equal(s.sent, []int64{v.size}) {
				rt.Fatalf("Put of %d: %v, sent %v", v.size, err, s.sent)
			}
			off := vt.Of(rt, "off", int64(0), min(genHuge(rt, "at"), v.size-1), v.size-1)
			rc, total, err := cl.Get(ctx, "a", off)
			c.Log("%d bytes at %d: %d, %v", v.size, off, total, err)
			if err != nil || total != v.size {
				rt.Fatalf("Get at %d of %d: %d, %v", off, v.size, total, err)
			}
			p := make([]byte, min(100, v.size-off))
			if _, err := io.ReadFull(rc, p); err != nil || !bytes.Equal(p, v.bytes(off, off+int64(len(p)))) {
				rt.Fatalf("Get at %d of %d reads %x, %v", off, v.size, p, err)
			}
			if err := rc.Close(); err != nil {
				rt.Fatalf("Close: %v", err)
			}
			if off > math.MaxInt32 {
				c.NonTrivial()
			}
			allLetGo(rt, "client", s.log)
		case "chunks":
			k := &chunkClient{v: v}
			// at most 2000 chunks
			k.cs = max(v.size/int64(vt.Of(rt, "chunks", 1, 2, 3, 7, 300, 2000)), 1)
			if vt.Chance(rt, 3, "larger") {
				k.cs = vt.Of(rt, "chunk", v.size, genHuge(rt, "chunk"), math.MaxInt64, math.MaxInt64-1)
				k.cs = max(k.cs, v.size/2000)
			} else if vt.Chance(rt, 2, "odd") {
				k.cs = min(k.cs, math.MaxInt64-2) + int64(vt.Pick(rt, 3, "more"))
			}
			n := (v.size-1)/k.cs + 1
			lost := vt.Of(rt, "lost", n, n, 0, n-1, n/2)
			k.have = func(i int64) (int64, bool) {
				return min(k.cs, v.size-i*k.cs), i >= 0 && i < n && i != lost
			}
			name := func(i int) string { return fmt.Sprintf("blob/%d", i) }
			off, complete, err := fileserver.NewChunkedSink(k, name, v.size, k.cs).State(ctx)
			want := v.size
			if lost < n {
				want = lost * k.cs
			}
			c.Log("%d bytes in %d chunks of %d, without %d: %d %v %v", v.size, n, k.cs, lost, off, complete, err)
			if err != nil || complete != (lost == n) || off != want {
				rt.Fatalf("State of %d bytes in chunks of %d, without chunk %d: %d, %v, %v; want %d", v.size, k.cs, lost, off, complete, err, want)
			}
			edge := min(max(vt.Of(rt, "of", 0, 1, n/2, n-1, n)*k.cs, 0), v.size)
			if vt.Chance(rt, 4, "anywhere") {
				edge = min(genHuge(rt, "at"), v.size)
			}
			at := min(max(edge-int64(vt.Of(rt, "before", 0, 1, 40)), 0), v.size)
			rc, err := fileserver.NewChunkedSource(k, name, v.size, k.cs).Open(ctx, at)
			if err != nil {
				rt.Fatalf("Open at %d of %d in chunks of %d: %v", at, v.size, k.cs, err)
			}
			upTo := min(100, v.size-at)
			if lost < n {
				// no further than the chunk that is not there
				if at/k.cs <= lost {
					upTo = min(upTo, max(lost*k.cs-at, 0))
				}
			}
			p := make([]byte, upTo)
			if lost < n && at/k.cs == lost {
				p = p[:0]
			}
			if _, err := io.ReadFull(rc, p); err != nil || !bytes.Equal(p, v.bytes(at, at+int64(len(p)))) {
				rt.Fatalf("reading %d at %d of %d in chunks of %d: %x, %v (%v)", len(p), at, v.size, k.cs, p, err, k.asked)
			}
			if next := at + int64(len(p)); len(p) > 0 && len(p) < 100 {
				m, err := rc.Read(make([]byte, 1))
				if m != 0 || (next == v.size) != (err == io.EOF) || next < v.size && !errors.Is(err, fs.ErrNotExist) {
					rt.Fatalf("reading on at %d of %d, without chunk %d of %d: %d, %v", next, v.size, lost, k.cs, m, err)
				}
			}
			if err := rc.Close(); err != nil || k.open != 0 {
				rt.Fatalf("Close: %v, %d chunks left open", err, k.open)
			}
			if len(p) > 0 && at > math.MaxInt32 {
				c.NonTrivial()
			}
		case "many":
			n := int64(vt.Of(rt, "chunks", 1, 99, 101, 255, 257, 513, 1030, 1500))
			k := &chunkClient{v: v, cs: int64(vt.Int(rt, 1, 5, "chunk")), stored: map[int64][]byte{}, remaining: -1}
			total := n*k.cs - int64(vt.Pick(rt, int(k.cs), "less"))
			v.size = total
			k.have = func(i int64) (int64, bool) { b, ok := k.stored[i]; return int64(len(b)), ok }
			name := func(i int) string { return fmt.Sprintf("blob/%d", i) }
			sink := fileserver.NewChunkedSink(k, name, total, k.cs)
			if vt.Chance(rt, 2, "in two") {
				k.remaining = vt.Pick(rt, int(n), "first")
			}
			stop := k.remaining
			err := sink.Append(ctx, 0, &virtual{v: v, end: total})
			if (err != nil) != (stop >= 0) {
				rt.Fatalf("Append of %d chunks, failing after %d: %v", n, stop, err)
			}
			k.remaining = -1
			if stop >= 0 {
				off, complete, err := sink.State(ctx)
				if err != nil || complete || off != int64(stop)*k.cs {
					rt.Fatalf("State after %d chunks of %d: %d, %v, %v", stop, n, off, complete, err)
				}
				if err := sink.Append(ctx, off, &virtual{v: v, off: off, end: total}); err != nil {
					rt.Fatalf("Append at %d: %v", off, err)
				}
			}
			c.Log("%d chunks of %d, stopped at %d", n, k.cs, stop)
			if off, complete, err := sink.State(ctx); err != nil || !complete || off != total {
				rt.Fatalf("State in the end: %d, %v, %v", off, complete, err)
			}
			at := int64(vt.Pick(rt, int(total), "at"))
			rc, err := fileserver.NewChunkedSource(k, name, total, k.cs).Open(ctx, at)
			if err != nil {
				rt.Fatalf("Open at %d: %v", at, err)
			}
			got, err := io.ReadAll(rc)
			if err != nil || !bytes.Equal(got, v.bytes(at, total)) {
				rt.Fatalf("reading on from %d gives %d bytes of %d, %v", at, len(got), total-at, err)
			}
			if err := rc.Close(); err != nil || k.open != 0 {
				rt.Fatalf("Close: %v, %d chunks left open", err, k.open)
			}
			for i := range n {
				if want := v.bytes(i*k.cs, min((i+1)*k.cs, total)); !bytes.Equal(k.stored[i], want) {
					rt.Fatalf("chunk %d is %x, want %x", i, k.stored[i], want)
				}
			}
			if len(k.stored) != int(n) {
				rt.Fatalf("%d chunks for %d", len(k.stored), n)
			}
			if n > 200 {
				c.NonTrivial()
			}
		}
	})
}
