package vroott

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

// lockFs opens dir in one of the ways that give lockable files.
func lockFs(rt *rapid.T, dir string) (func(name string, flag int) (vroot.File, error), string, func()) {
	switch kind := vt.Of(rt, "kind", "Fs", "Root", "widened Root", "widened Fs"); kind {
	case "Fs", "widened Fs":
		f, err := osfs.NewFs(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		if kind == "Fs" {
			return func(n string, flag int) (vroot.File, error) { return opened(f.OpenFile(n, flag, 0o666)) }, kind, func() { _ = f.Close() }
		}
		w := vroot.Widen(f)
		return func(n string, flag int) (vroot.File, error) { return opened(w.OpenFile(n, flag, 0o666)) }, kind, func() { _ = f.Close() }
	default:
		r, err := osfs.NewRoot(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		if kind == "Root" {
			return func(n string, flag int) (vroot.File, error) { return opened(r.OpenFile(n, flag, 0o666)) }, kind, func() { _ = r.Close() }
		}
		w := vroot.Widen(r)
		return func(n string, flag int) (vroot.File, error) { return opened(w.OpenFile(n, flag, 0o666)) }, kind, func() { _ = r.Close() }
	}
}

func opened[F vroot.File](f F, err error) (vroot.File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

func levelName(l vroot.LockLevel) string {
	switch l {
	case 0:
		return "none"
	case vroot.LockShared:
		return "shared"
	case vroot.LockExclusive:
		return "exclusive"
	}
	return "level " + strconv.Itoa(int(l))
}

// Every history of locks on handles of two files leaves what a table of holders
// says, seen by someone else who asks for a lock without waiting.
func TestC33_LockTable(t *testing.T) {
	vt.Check(t, vt.N(1500, 15000), "history of 3 to 20 Lock, Unlock, Close, read and write calls on up to 5 handles of two files, calls that have to wait made aside; after every step another descriptor tries both levels; non-trivial: a conversion, or a call that had to wait", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		names := []string{"a", "b"}
		probe := map[string]*os.File{}
		for _, n := range names {
			if err := os.WriteFile(filepath.Join(dir, n), []byte("0"), 0o666); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			f, err := os.OpenFile(filepath.Join(dir, n), os.O_RDWR, 0)
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			defer f.Close()
			probe[n] = f
		}
		open, kind, end := lockFs(rt, dir)
		defer end()
		c.Log("%s", kind)
		type handle struct {
			f      vroot.File
			name   string
			held   vroot.LockLevel
			closed bool
		}
		var hs []*handle
		for i := range 2 + vt.Pick(rt, 4, "handles") {
			n := names[0]
			if i > 1 && vt.Chance(rt, 3, "other file") {
				n = names[1]
			}
			f, err := open(n, vt.Of(rt, "flag", os.O_RDWR, os.O_RDONLY, os.O_WRONLY))
			if err != nil {
				rt.Fatalf("open %s: %v", n, err)
			}
			defer f.Close()
			if _, ok := f.(vroot.Locker); !ok {
				rt.Fatalf("%s: a file of %s has no locks: %T", kind, n, f)
			}
			hs = append(hs, &handle{f: f, name: n})
			c.Log("handle %d of %s", i, n)
		}
		// free: would level be granted to h, or to nobody's handle if h is nil
		free := func(h *handle, name string, level vroot.LockLevel) bool {
			for _, o := range hs {
				if o != h && o.name == name && (o.held == vroot.LockExclusive || o.held != 0 && level == vroot.LockExclusive) {
					return false
				}
			}
			return true
		}
		check := func(when string) {
			for _, n := range names {
				for _, l := range []vroot.LockLevel{vroot.LockShared, vroot.LockExclusive} {
					how := syscall.LOCK_SH
					if l == vroot.LockExclusive {
						how = syscall.LOCK_EX
					}
					err := syscall.Flock(int(probe[n].Fd()), how|syscall.LOCK_NB)
					if err == nil {
						_ = syscall.Flock(int(probe[n].Fd()), syscall.LOCK_UN)
					} else if !errors.Is(err, syscall.EWOULDBLOCK) {
						rt.Fatalf("VT-ENV probe: %v", err)
					}
					if got, want := err == nil, free(nil, n, l); got != want {
						var b strings.Builder
						for i, h := range hs {
							b.WriteString(" " + strconv.Itoa(i) + ":" + h.name + " " + levelName(h.held))
						}
						rt.Fatalf("%s: another's %s lock on %s granted: %v, holders%s", when, levelName(l), n, got, b.String())
					}
				}
			}
		}
		wantErr := func(when string, h *handle, op string, err, target error) {
			var pe *fs.PathError
			if !errors.As(err, &pe) || pe.Op != op || pe.Path != h.f.Name() {
				rt.Fatalf("%s: %#v is no path error of %s %q", when, err, op, h.f.Name())
			}
			if target != nil && !errors.Is(err, target) {
				rt.Fatalf("%s: %v, not %v", when, err, target)
			}
		}
		for range 3 + vt.Pick(rt, 18, "steps") {
			i := vt.Pick(rt, len(hs), "handle")
			h := hs[i]
			l := h.f.(vroot.Locker)
			what := vt.Of(rt, "step", "shared", "exclusive", "shared", "exclusive", "unlock", "unlock", "bad", "close", "io")
			c.Log("%s %d", what, i)
			when := what + " of handle " + strconv.Itoa(i)
			switch what {
			case "shared", "exclusive":
				level := vroot.LockShared
				if what == "exclusive" {
					level = vroot.LockExclusive
				}
				if h.closed {
					wantErr(when, h, "lock", l.Lock(level), nil)
					break
				}
				if h.held != 0 && h.held != level {
					c.Label("conversion")
					c.NonTrivial()
				}
				if free(h, h.name, level) {
					if err := l.Lock(level); err != nil {
						rt.Fatalf("%s: %v", when, err)
					}
					h.held = level
					break
				}
				c.Label("waits")
				c.NonTrivial()
				// Made aside, it must not come back before the ones in its way are gone.
				res := make(chan error, 1)
				go func() { res <- l.Lock(level) }()
				for range vt.Pick(rt, 200, "yields") {
					runtime.Gosched()
				}
				// conversion may give up what is held first; both is documented
				h.held = 0
				var blockers []*handle
				for _, o := range hs {
					if o != h && o.name == h.name && (o.held == vroot.LockExclusive || o.held != 0 && level == vroot.LockExclusive) {
						blockers = append(blockers, o)
					}
				}
				for k, o := range blockers {
					select {
					case err := <-res:
						rt.Fatalf("%s: came back with %v while %d holders were in its way", when, err, len(blockers)-k)
					default:
					}
					if vt.Chance(rt, 2, "by closing") {
						if err := o.f.Close(); err != nil {
							rt.Fatalf("close: %v", err)
						}
						o.closed = true
					} else if level == vroot.LockShared && vt.Chance(rt, 2, "by downgrading") {
						if err := o.f.(vroot.Locker).Lock(vroot.LockShared); err != nil {
							rt.Fatalf("downgrade: %v", err)
						}
						o.held = vroot.LockShared
						continue
					} else if err := o.f.(vroot.Locker).Unlock(); err != nil {
						rt.Fatalf("unlock: %v", err)
					}
					o.held = 0
				}
				if err := <-res; err != nil {
					rt.Fatalf("%s after waiting: %v", when, err)
				}
				h.held = level
			case "unlock":
				err := l.Unlock()
				if h.closed {
					wantErr(when, h, "unlock", err, nil)
					break
				}
				if err != nil {
					rt.Fatalf("%s: %v", when, err)
				}
				h.held = 0
			case "bad":
				wantErr(when, h, "lock", l.Lock(vt.Of(rt, "level", vroot.LockLevel(0), 3, -1, 4, 8, 6)), syscall.EINVAL)
			case "close":
				if !h.closed {
					if err := h.f.Close(); err != nil {
						rt.Fatalf("%s: %v", when, err)
					}
				}
				h.closed, h.held = true, 0
			case "io":
				if h.closed {
					break
				}
				// a locked handle still reads and writes like any other
				_, err := h.f.WriteAt([]byte("7"), 0)
				b := make([]byte, 1)
				_, err2 := h.f.ReadAt(b, 0)
				if err != nil && err2 != nil || err2 == nil && b[0] != '0' && b[0] != '7' {
					rt.Fatalf("%s: %v, %v %q", when, err, err2, b)
				}
			}
			check(when)
		}
	})
}

// Holders side by side: never a writer with anybody else, and no update lost.
func TestC33_Exclusion(t *testing.T) {
	vt.Check(t, vt.N(300, 3000), "2 to 6 goroutines with handles of their own, each some rounds of lock, look, maybe upgrade or downgrade, unlock; non-trivial: readers and writers both", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		if err := os.WriteFile(filepath.Join(dir, "a"), []byte("0"), 0o666); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		open, kind, end := lockFs(rt, dir)
		defer end()
		c.Log("%s", kind)
		n := 2 + vt.Pick(rt, 5, "goroutines")
		plans := make([][]string, n)
		writes, reads := 0, 0
		for i := range plans {
			for range 1 + vt.Pick(rt, 8, "rounds") {
				p := vt.Of(rt, "round", "write", "write", "read", "read", "write then read", "read then write", "write by close")
				plans[i] = append(plans[i], p)
				if strings.Contains(p, "write") {
					writes++
				}
				if strings.Contains(p, "read") {
					reads++
				}
			}
			c.Log("%d: %v", i, plans[i])
		}
		if writes > 0 && reads > 0 {
			c.NonTrivial()
		}
		var readers, writers atomic.Int32
		var mu sync.Mutex
		var bad []string
		fail := func(f string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			bad = append(bad, f)
			for _, a := range args {
				if e, ok := a.(error); ok {
					bad = append(bad, e.Error())
				}
			}
		}
		write := func(f vroot.File) {
			if writers.Add(1) != 1 || readers.Load() != 0 {
				fail("a writer is not alone")
			}
			b := make([]byte, 20)
			k, err := f.ReadAt(b, 0)
			if err != nil && err != io.EOF {
				fail("read", err)
			}
			v, err := strconv.Atoi(string(b[:k]))
			if err != nil {
				fail("a torn counter", err)
			}
			runtime.Gosched()
			if _, err := f.WriteAt([]byte(strconv.Itoa(v+1)), 0); err != nil {
				fail("write", err)
			}
			if writers.Load() != 1 || readers.Load() != 0 {
				fail("a writer is not alone")
			}
			writers.Add(-1)
		}
		read := func() {
			readers.Add(1)
			if writers.Load() != 0 {
				fail("a reader beside a writer")
			}
			runtime.Gosched()
			if writers.Load() != 0 {
				fail("a reader beside a writer")
			}
			readers.Add(-1)
		}
		var wg sync.WaitGroup
		for _, plan := range plans {
			wg.Go(func() {
				f, err := open("a", os.O_RDWR)
				if err != nil {
					fail("open", err)
					return
				}
				defer func() { _ = f.Close() }()
				for _, p := range plan {
					l := f.(vroot.Locker)
					lock := func(level vroot.LockLevel) {
						if err := l.Lock(level); err != nil {
							fail("lock", err)
						}
					}
					unlock := func() {
						if err := l.Unlock(); err != nil {
							fail("unlock", err)
						}
					}
					switch p {
					case "write":
						lock(vroot.LockExclusive)
						write(f)
						unlock()
					case "read":
						lock(vroot.LockShared)
						read()
						unlock()
					case "write then read":
						lock(vroot.LockExclusive)
						write(f)
						lock(vroot.LockShared)
						read()
						unlock()
					case "read then write":
						lock(vroot.LockShared)
						read()
						// flock gives up the shared lock first, so two of these do not
						// wait for each other
						lock(vroot.LockExclusive)
						write(f)
						unlock()
					case "write by close":
						lock(vroot.LockExclusive)
						write(f)
						if err := f.Close(); err != nil {
							fail("close", err)
						}
						if f, err = open("a", os.O_RDWR); err != nil {
							fail("open", err)
							return
						}
					}
				}
			})
		}
		wg.Wait()
		if bad != nil {
			rt.Fatalf("%v", bad)
		}
		b, err := os.ReadFile(filepath.Join(dir, "a"))
		if err != nil || string(b) != strconv.Itoa(writes) {
			rt.Fatalf("%d writes left %q, %v", writes, b, err)
		}
	})
}
