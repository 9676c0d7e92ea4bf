package sftpt

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// Handles of a file on a server read and write it as those of a file do, however
// many packets a call takes.
func TestC32_Data(t *testing.T) {
	vt.Check(t, vt.N(700, 10000), "a history of up to 25 reads, writes, copies, seeks and truncates on up to 3 handles of a file, in packets of 64 bytes to 32 KiB, against the bytes", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		packet := vt.Of(rt, "packet", 64, 100, 512, 32768)
		opts := []sftp.ClientOption{
			sftp.MaxPacketUnchecked(packet),
			sftp.UseConcurrentReads(!vt.Chance(rt, 3, "reads")),
			sftp.UseConcurrentWrites(vt.Chance(rt, 3, "writes")),
			sftp.UseFstat(vt.Chance(rt, 2, "fstat")),
		}
		w, err := dial(opts...)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer w.hangUp()
		fsys := sftpfs.New(w.C, false, dir)
		sizes := []int{0, 1, 5, packet - 1, packet, packet + 1, 2*packet + 3, 5 * packet}
		size := func() int {
			n := sizes[vt.Pick(rt, len(sizes), "size")]
			if vt.Chance(rt, 4, "any") {
				n = vt.Pick(rt, 3*packet, "n")
			}
			return n
		}
		seq := 0
		data := func() []byte {
			b := make([]byte, size())
			for i := range b {
				seq++
				b[i] = byte(seq*7 + seq>>8)
			}
			return b
		}
		var content []byte
		put := func(b []byte, at int) {
			if len(b) == 0 {
				return
			}
			if n := at + len(b); n > len(content) {
				content = append(content, make([]byte, n-len(content))...)
			}
			copy(content[at:], b)
		}
		type handle struct {
			f    vroot.File
			pos  int
			r, w bool
		}
		var hs []*handle
		open := func(flag int, name string) {
			f, err := fsys.OpenFile("f", flag, 0o644)
			if err != nil {
				rt.Fatalf("open %s: %v", name, err)
			}
			h := &handle{f: f, r: flag&os.O_WRONLY == 0, w: flag&(os.O_WRONLY|os.O_RDWR) != 0}
			if flag&os.O_TRUNC != 0 {
				content = content[:0:0]
			}
			if flag&os.O_APPEND != 0 {
				h.pos = len(content)
			}
			hs = append(hs, h)
			c.Log("h%d = open %s", len(hs)-1, name)
		}
		open(os.O_RDWR|os.O_CREATE, "RDWR|CREATE")
		hs[0].f.Write(data())
		content, err = os.ReadFile(filepath.Join(dir, "f"))
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		hs[0].pos = len(content)
		moved := 0
		for range 3 + vt.Pick(rt, 23, "steps") {
			id := vt.Pick(rt, len(hs), "handle")
			h := hs[id]
			op := vt.Of(rt, "op", "open", "read", "read", "readfull", "readat", "readat", "write", "write", "writestring", "writeat", "seek", "seek", "truncate", "readfrom", "writeto", "stat", "close")
			if op == "readfull" {
				op = "read"
			}
			if !h.r && (op == "read" || op == "readat" || op == "writeto") || !h.w && (op == "write" || op == "writeat" || op == "writestring" || op == "readfrom" || op == "truncate") {
				continue
			}
			switch op {
			case "open":
				if len(hs) == 3 {
					continue
				}
				switch vt.Pick(rt, 6, "flag") {
				case 0:
					open(os.O_RDONLY, "RDONLY")
				case 1:
					open(os.O_WRONLY, "WRONLY")
				case 2:
					open(os.O_WRONLY|os.O_APPEND, "WRONLY|APPEND")
				case 3:
					open(os.O_RDWR|os.O_CREATE|os.O_TRUNC, "RDWR|CREATE|TRUNC")
				default:
					open(os.O_RDWR, "RDWR")
				}
			case "close":
				if len(hs) == 1 {
					continue
				}
				if err := h.f.Close(); err != nil {
					rt.Fatalf("h%d.close: %v", id, err)
				}
				if err := h.f.Close(); !errors.Is(err, os.ErrClosed) {
					rt.Fatalf("h%d.close again: %v", id, err)
				}
				hs = append(hs[:id], hs[id+1:]...)
				c.Log("h%d.close", id)
			case "read", "readat":
				n, at := size(), h.pos
				b := make([]byte, n)
				var got int
				var err error
				if op == "read" {
					got, err = h.f.Read(b)
				} else {
					at = vt.Pick(rt, len(content)+packet, "at")
					got, err = h.f.ReadAt(b, int64(at))
				}
				c.Log("h%d.%s %d at %d: %d %v", id, op, n, at, got, err)
				rest := content[min(at, len(content)):]
				if err != nil && err != io.EOF || err == io.EOF && got < min(n, len(rest)) ||
					err == nil && n > 0 && got == 0 || op == "readat" && (got < n) != (err == io.EOF) && !(got == n && got == len(rest)) || got > len(rest) {
					rt.Fatalf("h%d.%s of %d at %d of %d: %d, %v", id, op, n, at, len(content), got, err)
				}
				if !bytes.Equal(b[:got], rest[:got]) {
					rt.Fatalf("h%d.%s of %d at %d of %d: wrong bytes", id, op, n, at, len(content))
				}
				if op == "read" {
					h.pos += got
				}
				moved += got
			case "write", "writestring", "writeat", "readfrom":
				b, at := data(), h.pos
				var n int
				var err error
				switch op {
				case "write":
					n, err = h.f.Write(b)
				case "writestring":
					n, err = h.f.WriteString(string(b))
				case "writeat":
					at = vt.Pick(rt, len(content)+packet, "at")
					n, err = h.f.WriteAt(b, int64(at))
				default:
					var n64 int64
					n64, err = io.Copy(h.f, io.MultiReader(bytes.NewReader(b[:len(b)/3]), bytes.NewReader(b[len(b)/3:])))
					n = int(n64)
				}
				c.Log("h%d.%s %d at %d: %d %v", id, op, len(b), at, n, err)
				if n != len(b) || err != nil {
					rt.Fatalf("h%d.%s of %d: %d, %v", id, op, len(b), n, err)
				}
				put(b, at)
				if op != "writeat" {
					h.pos += n
				}
				moved += n
			case "writeto":
				var got bytes.Buffer
				n, err := io.Copy(&got, h.f)
				rest := content[min(h.pos, len(content)):]
				c.Log("h%d.writeto from %d: %d %v", id, h.pos, n, err)
				if err != nil || int(n) != len(rest) || !bytes.Equal(got.Bytes(), rest) {
					rt.Fatalf("h%d.writeto from %d of %d: %d, %v", id, h.pos, len(content), n, err)
				}
				h.pos = max(h.pos, len(content))
				moved += int(n)
				// where pkg/sftp's WriteTo leaves the position is its own matter
				if _, err := h.f.Seek(int64(h.pos), io.SeekStart); err != nil {
					rt.Fatalf("h%d.seek %d: %v", id, h.pos, err)
				}
			case "seek":
				off, wh := int64(size()), vt.Of(rt, "whence", io.SeekStart, io.SeekCurrent, io.SeekEnd)
				if wh != io.SeekStart && vt.Chance(rt, 2, "back") {
					off = -off
				}
				want := off
				switch wh {
				case io.SeekCurrent:
					want += int64(h.pos)
				case io.SeekEnd:
					want += int64(len(content))
				}
				got, err := h.f.Seek(off, wh)
				c.Log("h%d.seek %d %d: %d %v", id, off, wh, got, err)
				if (want < 0) != (err != nil) || err == nil && got != want {
					rt.Fatalf("h%d.seek %d %d: %d, %v, want %d", id, off, wh, got, err, want)
				}
				if err == nil {
					h.pos = int(want)
				}
			case "truncate":
				n := size()
				if err := h.f.Truncate(int64(n)); err != nil {
					rt.Fatalf("h%d.truncate %d: %v", id, n, err)
				}
				c.Log("h%d.truncate %d", id, n)
				if n <= len(content) {
					content = content[:n:n]
				} else {
					content = append(content, make([]byte, n-len(content))...)
				}
			case "stat":
				fi, err := h.f.Stat()
				if err != nil || fi.Size() != int64(len(content)) {
					rt.Fatalf("h%d.stat: %v, %v, want %d bytes", id, fi, err, len(content))
				}
			}
			got, err := os.ReadFile(filepath.Join(dir, "f"))
			if err != nil || !bytes.Equal(got, content) {
				rt.Fatalf("after h%d.%s the file has %d bytes (%v), want %d, or others", id, op, len(got), err, len(content))
			}
		}
		for _, h := range hs {
			if err := errors.Join(h.f.Sync(), h.f.Close()); err != nil {
				rt.Fatalf("sync and close: %v", err)
			}
		}
		if n, _ := w.handles(); n != 0 {
			rt.Fatalf("%d handles left open", n)
		}
		if moved > packet {
			c.NonTrivial()
		}
	})
}
