package httpt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

func TestMain(m *testing.M) {
	syscall.Umask(0)
	m.Run()
}

// version is one state of the object. Its bytes tell which version and offset
// they are of.
type version struct {
	id            int
	size          int64
	etag, lastMod string
}

func (v *version) at(off int64) byte {
	return byte(v.id<<6) | byte((off*37^off>>3^(off>>29)*5^(off>>45)*11)&63)
}

func (v *version) bytes(from, to int64) []byte {
	b := make([]byte, 0, max(to-from, 0))
	for o := from; o < to; o++ {
		b = append(b, v.at(o))
	}
	return b
}

// answer says how a request is answered.
type answer struct {
	kind string
	ver  int
	n    int64
	code int
	cr   string
	host string // where a redirect leads first
}

func (a answer) String() string {
	return fmt.Sprintf("%s v%d n=%d code=%d %q %s", a.kind, a.ver, a.n, a.code, a.cr, a.host)
}

var errWire = errors.New("wire broke")

// request is what was asked, and how it was answered.
type request struct {
	url    string
	header http.Header
	ans    answer
	first  int64 // of the range, -1 without one
	last   int64 // -1 for an open one
	body   *body
	code   int
}

// body is a response body that is watched.
type body struct {
	mu     sync.Mutex
	r      io.Reader
	closed bool
	gate   func() // before each Read
}

func (b *body) Read(p []byte) (int, error) {
	if b.gate != nil {
		b.gate()
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	return b.r.Read(p)
}

func (b *body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.closed = true
	return nil
}

func (b *body) isClosed() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.closed
}

// server answers requests as an http.RoundTripper.
type server struct {
	mu       sync.Mutex
	versions []*version
	answers  []answer // of the requests in turn, the last one for the rest
	log      []*request
	chunked  bool   // no Content-Length
	empty    string // how an empty object is answered
	unit     string // how the unit is written
	pieces   int    // bytes a read gives at most, 0 for all
	eofWith  bool   // the end comes along with the last bytes
	identity bool   // says Content-Encoding: identity
	honest   bool
	secret   string // in the redirect's query
	wire     error  // what a broken wire gives
}

func (s *server) requests() []*request {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*request(nil), s.log...)
}

// pieceReader gives at most n bytes at a time.
type pieceReader struct {
	b       []byte
	n       int
	eofWith bool
	err     error
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	if r.n > 0 && len(p) > r.n {
		p = p[:r.n]
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eofWith {
		return n, r.err
	}
	return n, nil
}

func parseRange(h string) (first, last int64, ok bool) {
	spec, found := strings.CutPrefix(h, "bytes=")
	if !found {
		return -1, -1, false
	}
	a, b, found := strings.Cut(spec, "-")
	first, err := strconv.ParseInt(a, 10, 64)
	if !found || err != nil {
		return -1, -1, false
	}
	if b == "" {
		return first, -1, true
	}
	last, err = strconv.ParseInt(b, 10, 64)
	return first, last, err == nil && last >= first
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	a := s.answers[min(len(s.log), len(s.answers)-1)]
	if a.host != "" && req.URL.Host != a.host {
		// a hop on the way, not counted
		return &http.Response{
			Status: "302 Found", StatusCode: 302, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header:  http.Header{"Location": {"http://" + a.host + "/moved?sig=" + s.secret}},
			Body:    http.NoBody,
			Request: req,
		}, nil
	}
	first, last, ranged := parseRange(req.Header.Get("Range"))
	rq := &request{url: req.URL.String(), header: req.Header.Clone(), ans: a, first: first, last: last}
	s.log = append(s.log, rq)
	if a.kind == "wire" {
		return nil, s.wire
	}
	v := s.versions[a.ver]
	h := http.Header{"Content-Type": {"application/octet-stream"}}
	if a.kind != "no validators" {
		if v.etag != "" {
			h.Set("ETag", v.etag)
		}
		if v.lastMod != "" {
			h.Set("Last-Modified", v.lastMod)
		}
	}
	if s.identity {
		h.Set("Content-Encoding", "identity")
	}
	cr := func(first, last int64) {
		h.Set("Content-Range", fmt.Sprintf("%s %d-%d/%d", s.unit, first, last, v.size))
	}
	code := 206
	var data []byte
	conditional := req.Header.Get("If-Range")
	match := conditional == "" || conditional == v.etag && !strings.HasPrefix(v.etag, "W/") || conditional == v.lastMod
	whole := !ranged || !match || a.kind == "whole"
	switch {
	case a.kind == "status":
		code, data = a.code, []byte("no")
	case a.kind == "refused" && v.size > 0 && !whole:
		code = 416
		h.Set("Content-Range", fmt.Sprintf("%s */%d", s.unit, v.size))
	case v.size == 0 && s.empty == "416" && !whole:
		code = 416
		h.Set("Content-Range", "bytes */0")
	case v.size == 0:
		code = 200
	case whole:
		code, data = 200, v.bytes(0, v.size)
	case first >= v.size:
		code = 416
		h.Set("Content-Range", fmt.Sprintf("%s */%d", s.unit, v.size))
	default:
		if last < 0 || last >= v.size {
			last = v.size - 1
		}
		switch a.kind {
		case "shift":
			// an honest answer to a range that was not asked for
			first = max(first+a.n, 0)
			if first >= v.size {
				first = 0
			}
			last = max(last, first)
		case "short":
			last = max(first, last-1-a.n)
		case "over":
			last = min(v.size-1, last+1+a.n)
		}
		cr(first, last)
		data = v.bytes(first, last+1)
	}
	rd := &pieceReader{b: data, n: s.pieces, eofWith: s.eofWith, err: io.EOF}
	length := int64(len(data))
	switch a.kind {
	case "truncated", "broken":
		if length > 0 {
			rd.b = data[:min(a.n, length-1)]
			if a.kind == "broken" {
				rd.err = s.wire
			} else if length >= 0 && !s.chunked {
				rd.err = io.ErrUnexpectedEOF
			}
		}
	case "long": // more than the range it tells of
		if code != 206 {
			break
		}
		rd.b = append(bytes.Clone(data), bytes.Repeat([]byte("?"), 5)...)
	case "no range":
		h.Del("Content-Range")
	case "odd range":
		h.Set("Content-Range", a.cr)
	case "encoded":
		h.Set("Content-Encoding", "gzip")
	}
	if s.chunked {
		length = -1
	}
	rq.code = code
	rq.body = &body{r: rd}
	return &http.Response{
		Status: strconv.Itoa(code) + " " + http.StatusText(code), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: rq.body, ContentLength: length, Request: req, Uncompressed: a.kind == "inflated",
	}, nil
}

func genServer(rt *rapid.T, c *vt.Case, versions int) *server {
	s := &server{
		chunked: vt.Chance(rt, 3, "chunked"), empty: vt.Of(rt, "empty", "416", "200"),
		unit: vt.Of(rt, "unit", "bytes", "bytes", "Bytes", "bytes "), pieces: vt.Of(rt, "pieces", 0, 0, 1, 3, 7),
		eofWith: vt.Chance(rt, 2, "eof along"), identity: vt.Chance(rt, 4, "identity"), secret: "sEcReTsIg", wire: fsx.Vary(rt, errWire),
	}
	style := vt.Of(rt, "validators", "etag", "etag", "lastmod", "both", "weak", "weak and lastmod", "none")
	same := vt.Of(rt, "same", "", "", "etag", "lastmod", "opaque") // what does not tell versions apart
	sizes := []int64{0, 1, 2, 5, 16, 33, 64, 100, 300}
	size := sizes[vt.Pick(rt, len(sizes), "size")]
	for i := range versions {
		v := &version{id: i, size: size}
		if i > 0 && (style == "none" || vt.Chance(rt, 2, "other size")) {
			// with nothing else to go by the size tells them apart
			v.size = sizes[vt.Pick(rt, len(sizes), "size")]
			for slices.Contains(sizesOf(s.versions), v.size) {
				v.size++
			}
		}
		if strings.Contains(style, "etag") || style == "both" {
			v.etag = fmt.Sprintf("%q", "tag"+strconv.Itoa(i))
		}
		if strings.Contains(style, "weak") {
			v.etag = fmt.Sprintf("W/%q", "tag"+strconv.Itoa(i))
		}
		if strings.Contains(style, "lastmod") || style == "both" {
			v.lastMod = fmt.Sprintf("Mon, 02 Jan 2006 15:04:%02d GMT", i)
		}
		if v.etag != "" && v.lastMod != "" && i > 0 {
			switch same {
			case "etag":
				v.etag = s.versions[0].etag
			case "lastmod":
				v.lastMod = s.versions[0].lastMod
			}
		}
		if same == "opaque" && v.etag != "" && i == 1 {
			// equal as weak ones only
			v.etag = "W/" + s.versions[0].etag
			if o, weak := strings.CutPrefix(s.versions[0].etag, "W/"); weak {
				v.etag = o
			}
		}
		s.versions = append(s.versions, v)
	}
	c.Log("server chunked=%v empty=%s unit=%q pieces=%d eofWith=%v validators=%s same=%s sizes=%v", s.chunked, s.empty, s.unit, s.pieces, s.eofWith, style, same, sizesOf(s.versions))
	return s
}

func sizesOf(vs []*version) (o []int64) {
	for _, v := range vs {
		o = append(o, v.size)
	}
	return o
}
