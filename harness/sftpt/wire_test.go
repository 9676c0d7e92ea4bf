package sftpt

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"

	"github.com/pkg/sftp"
)

// what becomes of a request on its way to the server
type fate int

const (
	pass      fate = iota
	refuse         // answered with a failure, not done
	cutBefore      // the connection breaks before the server has it
	cutAfter       // the server does it, the connection breaks before its answer
)

func (f fate) String() string {
	return []string{"passed", "refused", "cut before", "cut after"}[f]
}

const (
	kOpen     = 3
	kClose    = 4
	kSetstat  = 9
	kOpendir  = 11
	kStat     = 17
	kHandle   = 102
	kRename   = 18
	kExtended = 200
	kStatus   = 101
)

var kinds = map[byte]string{3: "open", 4: "close", 5: "read", 6: "write", 7: "lstat", 8: "fstat", 9: "setstat", 10: "fsetstat",
	11: "opendir", 12: "readdir", 13: "remove", 14: "mkdir", 15: "rmdir", 16: "realpath", 17: "stat", 18: "rename", 19: "readlink", 20: "symlink", 200: "extended"}

// the requests that change something
var changes = map[byte]bool{6: true, 9: true, 10: true, 13: true, 14: true, 15: true, 18: true, 20: true, 200: true}

// wire is what lies between a client and a server.
type wire struct {
	mu    sync.Mutex
	ask   func(kind byte) fate
	deny  func(kind byte, ext string) bool // what this server can not do
	code  uint32
	n     int
	cut   bool
	seen  []string
	open  map[string]bool // handles the server gave out
	down  sync.Mutex      // writes to the client
	c, s  net.Conn        // ours: towards the client and the server
	await map[uint32]bool // the answer to this one is not sent on, the connection breaks
	done  sync.WaitGroup
	C     *sftp.Client
}

func packet(r io.Reader) ([]byte, error) {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(l[:])
	if n == 0 || n > 1<<20 {
		return nil, fmt.Errorf("a packet of %d bytes", n)
	}
	b := make([]byte, 4+n)
	copy(b, l[:])
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

func (w *wire) tell(b []byte) error {
	w.down.Lock()
	defer w.down.Unlock()
	_, err := w.c.Write(b)
	return err
}

func status(id, code uint32) []byte {
	b := []byte{0, 0, 0, 0, kStatus}
	b = binary.BigEndian.AppendUint32(b, id)
	b = binary.BigEndian.AppendUint32(b, code)
	msg := "not now"
	b = binary.BigEndian.AppendUint32(b, uint32(len(msg)))
	b = append(b, msg...)
	b = binary.BigEndian.AppendUint32(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

// extension is what an extended request asks for.
func extension(b []byte) string {
	if b[4] != kExtended || len(b) < 13 {
		return ""
	}
	n := binary.BigEndian.Uint32(b[9:])
	if int(n) > len(b)-13 {
		return ""
	}
	return string(b[13 : 13+n])
}

func (w *wire) breakDown() {
	w.c.Close()
	w.s.Close()
}

func (w *wire) up() {
	defer w.done.Done()
	defer w.breakDown()
	for first := true; ; first = false {
		b, err := packet(w.c)
		if err != nil {
			return
		}
		if first { // the greeting
			if _, err := w.s.Write(b); err != nil {
				return
			}
			continue
		}
		kind, id := b[4], binary.BigEndian.Uint32(b[5:])
		w.mu.Lock()
		f := pass
		if w.cut {
			f = cutBefore
		} else if w.ask != nil {
			f = w.ask(kind)
		}
		if w.deny != nil && w.deny(kind, extension(b)) {
			f = refuse
		}
		if w.deny == nil {
			w.seen = append(w.seen, kinds[kind])
		}
		if kind == kClose {
			delete(w.open, string(b[9:]))
		}
		if f == cutAfter {
			w.await[id] = true
		}
		if f == cutBefore || f == cutAfter {
			w.cut = true
		}
		w.mu.Unlock()
		switch f {
		case refuse:
			if w.tell(status(id, w.code)) != nil {
				return
			}
			continue
		case cutBefore:
			return
		}
		if _, err := w.s.Write(b); err != nil {
			return
		}
	}
}

func (w *wire) answers() {
	defer w.done.Done()
	defer w.breakDown()
	for first := true; ; first = false {
		b, err := packet(w.s)
		if err != nil {
			return
		}
		if first { // the greeting: it can sync, it says
			for _, s := range []string{"fsync@openssh.com", "1"} {
				b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
				b = append(b, s...)
			}
			binary.BigEndian.PutUint32(b, uint32(len(b)-4))
			if w.tell(b) != nil {
				return
			}
			continue
		}
		if len(b) >= 9 {
			id := binary.BigEndian.Uint32(b[5:])
			w.mu.Lock()
			stop := w.await[id]
			if b[4] == kHandle {
				w.open[string(b[9:])] = true
			}
			w.mu.Unlock()
			if stop {
				return
			}
		}
		if w.tell(b) != nil {
			return
		}
	}
}

// dial starts a server, and a client of it, whose requests ask decides about.
func dial(opts ...sftp.ClientOption) (*wire, error) {
	w := &wire{open: map[string]bool{}, await: map[uint32]bool{}, code: 4}
	cl, c := net.Pipe()
	s, sv := net.Pipe()
	w.c, w.s = c, s
	server, err := sftp.NewServer(sv)
	if err != nil {
		return nil, err
	}
	w.done.Go(func() {
		if err := server.Serve(); err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrClosedPipe) && !errors.Is(err, io.ErrUnexpectedEOF) {
			fmt.Println("server:", err)
		}
		server.Close()
		sv.Close()
	})
	w.done.Add(2)
	go w.up()
	go w.answers()
	w.C, err = sftp.NewClientPipe(cl, cl, opts...)
	if err != nil {
		w.breakDown()
		return nil, err
	}
	return w, nil
}

// arm sets what decides about requests from now on.
func (w *wire) arm(code uint32, ask func(kind byte) fate) {
	w.mu.Lock()
	w.ask, w.code, w.seen = ask, code, nil
	w.mu.Unlock()
}

func (w *wire) handles() (n int, requests []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.open), w.seen
}

func (w *wire) hangUp() {
	w.C.Close()
	w.breakDown()
	w.done.Wait()
}
