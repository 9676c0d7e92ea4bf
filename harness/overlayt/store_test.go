package overlayt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"os"
	"path"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

// book is what a store is to hold: the marks of each name that has any, by the
// contract of MetadataStore.
type book map[string]mark

type mark struct{ wh, op bool }

// node is the name a store knows name by.
func node(name string) string {
	var parts []string
	for _, c := range strings.Split(name, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, c)
		}
	}
	return strings.Join(parts, "/")
}

// setting is one call that changes a store.
type setting struct{ call, name string }

func (s setting) String() string { return fmt.Sprintf("%s %q", s.call, s.name) }

func (s setting) on(st overlayfs.MetadataStore) error {
	switch s.call {
	case "SetWhiteout":
		return st.SetWhiteout(s.name)
	case "ClearWhiteout":
		return st.ClearWhiteout(s.name)
	case "SetOpaque":
		return st.SetOpaque(s.name)
	}
	return st.ClearOpaque(s.name)
}

func (s setting) in(b book) book {
	b = maps.Clone(b)
	name := node(s.name)
	m := b[name]
	switch s.call {
	case "SetWhiteout":
		m = mark{wh: true}
		for n := range b {
			if n != name && (name == "" || strings.HasPrefix(n, name+"/")) {
				delete(b, n)
			}
		}
	case "ClearWhiteout":
		m.wh = false
	case "SetOpaque":
		m.op = true
	case "ClearOpaque":
		m.op = false
	}
	if m == (mark{}) {
		delete(b, name)
	} else {
		b[name] = m
	}
	return b
}

// genNames makes a set of names close to each other, so that settings meet.
func genNames(rt *rapid.T) []string {
	atoms := []string{
		"a", "a", "b", "ab", "a.", "a0", "a/", "a-", "a!", "a~", "A", "..a", "...", " ", "a b", "%", "_", "a%", "'", `"`, `\`, "?", "*", "\n", "\t", "#",
		"1", "01", "1e3", "0x10", "-1", "1.50", "NULL", "null", "true", "x'00'", "2024-05-06T07:08:09Z", "2024-05-06T07:08:09.120Z", "2024-05-06 07:08:09", "2024-05-06T07:08:09+09:00", "2024-05-06",
		"é", "é", "名", "\xff", "\xc3", "a\xff", "\x01", "\u00ff", "\U0010ffff", "meta.sqlite3", strings.Repeat("x", 300),
	}
	few := make([]string, 2+vt.Pick(rt, 4, "atoms"))
	for i := range few {
		few[i] = atoms[vt.Pick(rt, len(atoms), "atom")]
	}
	names := make([]string, 3+vt.Pick(rt, 8, "names"))
	for i := range names {
		n := ""
		for k := range vt.Pick(rt, 5, "parts") {
			if k > 0 {
				n += "/"
			}
			n += vt.Of(rt, "part", few...)
		}
		switch vt.Pick(rt, 12, "shape") {
		case 0:
			n = "/" + n
		case 1:
			n += "/"
		case 2:
			n = "./" + n
		case 3:
			n = "../" + n
		case 4:
			n = few[0] + "/../" + n
		case 5:
			n = strings.ReplaceAll(n, "/", "//")
		case 6:
			n += "/."
		case 7:
			n += "/.."
		}
		names[i] = n
	}
	return names
}

func genSetting(rt *rapid.T, names []string) setting {
	return setting{
		vt.Of(rt, "call", "SetWhiteout", "SetWhiteout", "ClearWhiteout", "SetOpaque", "SetOpaque", "ClearOpaque"),
		vt.Of(rt, "name", names...),
	}
}

// holds loads st.
func holds(st overlayfs.MetadataStore) (book, error) {
	wh, op, err := st.Load()
	if err != nil {
		return nil, err
	}
	b := book{}
	for _, n := range wh {
		if b[n].wh {
			return nil, fmt.Errorf("whiteout of %q loaded twice", n)
		}
		b[n] = mark{wh: true}
	}
	for _, n := range op {
		if b[n].op {
			return nil, fmt.Errorf("opaque mark of %q loaded twice", n)
		}
		b[n] = mark{b[n].wh, true}
	}
	return b, nil
}

func (b book) String() string {
	var s []string
	for _, n := range slices.Sorted(maps.Keys(b)) {
		m := b[n]
		s = append(s, fmt.Sprintf("%q%s%s", n, map[bool]string{true: " whiteout"}[m.wh], map[bool]string{true: " opaque"}[m.op]))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// Stores hold what was set, by any names, and hold it when opened again.
func TestC30_History(t *testing.T) {
	dbNames := []string{"meta.sqlite3", "m", "a b", "x?mode=memory", "x#y", "%41", "A", "x&vfs=os", ".m", "é;x=1", "dir/m", "dir/../n", "./o", "m-journal2", ":memory:", "file:m", "a'b\"c"}
	vt.Check(t, vt.N(700, 10000), "histories of up to 60 settings, loads and reopens on one to three stores in one file system, names related and odd; non-trivial: ten settings or more, a reopen and at least two marks held in the end", func(rt *rapid.T, c *vt.Case) {
		var fsys fsmodel.FS
		if kind := vt.Of(rt, "fs", "mem", "mem", "os", "fsx"); kind == "mem" {
			fsys = vroot.Widen[vroot.File](memfs.New("m"))
		} else {
			dir, done := fsx.Scratch()
			defer done()
			if kind == "os" {
				r, err := osfs.NewRoot(dir)
				if err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
				fsys = vroot.Widen[*osfs.File](r)
			} else {
				f, err := fsx.New(dir)
				if err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
				fsys = f
			}
		}
		defer fsys.Close()
		if err := fsys.MkdirAll("dir/dir", 0o777); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		type store struct {
			db   string
			open *overlayfs.MetadataStoreSQLite
			want book
		}
		var stores []*store
		defer func() {
			for _, s := range stores {
				if s.open != nil {
					s.open.Close()
				}
			}
		}()
		for range 1 + vt.Pick(rt, 3, "stores") {
			db := dbNames[vt.Pick(rt, len(dbNames), "db")]
			if vt.Chance(rt, 4, "likewise named") {
				db = path.Join("dir", db)
			}
			if slices.ContainsFunc(stores, func(s *store) bool { return path.Clean(s.db) == path.Clean(db) }) {
				continue
			}
			stores = append(stores, &store{db: db, want: book{}})
		}
		names := genNames(rt)
		check := func(s *store, when string) {
			got, err := holds(s.open)
			if err != nil {
				rt.Fatalf("%s: load of %q: %v", when, s.db, err)
			}
			if !maps.Equal(got, s.want) {
				rt.Fatalf("%s the store %q holds\n  %v, want\n  %v", when, s.db, got, s.want)
			}
		}
		sets, reopens := 0, 0
		for range 5 + vt.Pick(rt, 56, "steps") {
			s := vt.Of(rt, "store", stores...)
			if s.open == nil {
				c.Log("open %q", s.db)
				var err error
				if s.open, err = overlayfs.NewMetadataStoreSQLite(fsys, s.db); err != nil {
					rt.Fatalf("open %q: %v", s.db, err)
				}
				check(s, "opened")
				reopens++
			}
			switch vt.Pick(rt, 12, "step") {
			case 0:
				c.Log("close %q", s.db)
				if err := s.open.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
				s.open = nil
			case 1:
				c.Log("load %q", s.db)
				check(s, "on the way")
			default:
				x := genSetting(rt, names)
				c.Log("%q: %v", s.db, x)
				if err := x.on(s.open); err != nil {
					rt.Fatalf("%v: %v", x, err)
				}
				s.want = x.in(s.want)
				sets++
			}
		}
		held := 0
		for _, s := range stores {
			if s.open == nil {
				continue
			}
			check(s, "in the end")
			if err := s.open.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
			s.open = nil
			held += len(s.want)
		}
		c.Label("marks %d", min(held, 9))
		if sets >= 10 && reopens > len(stores) && held > 1 {
			c.NonTrivial()
		}
		// nothing of one is found in another, and nothing was left beside them
		for _, s := range stores {
			st, err := overlayfs.NewMetadataStoreSQLite(fsys, s.db)
			if err != nil {
				rt.Fatalf("open %q: %v", s.db, err)
			}
			s.open = st
			check(s, "opened last")
		}
	})
}

// disk is a file system that keeps apart what is written and what is safe.
type disk struct {
	fsmodel.FS
	mu     sync.Mutex
	files  map[string]*platter
	hook   func(op string, mutate bool) error
	locks  bool // files are Lockers
	open   int  // handles
	faults []string
}

// platter is one file: what is safe of it, and what was done to it since.
type platter struct {
	safe  []byte
	since []wrote
}

type wrote struct {
	off  int64
	data []byte // nil for a truncation to off
}

const sector = 512

func newDisk(files map[string][]byte) *disk {
	d := &disk{FS: vroot.Widen[vroot.File](memfs.New("disk")), files: map[string]*platter{}}
	for n, b := range files {
		h, err := d.FS.Create(n)
		if err == nil {
			_, err = h.Write(b)
			h.Close()
		}
		if err != nil {
			panic(err)
		}
		d.files[n] = &platter{safe: slices.Clone(b)}
	}
	return d
}

// now is what the files hold.
func (d *disk) now() map[string][]byte {
	out := map[string][]byte{}
	for n, p := range d.files {
		out[n] = p.image(func(int) bool { return true })
	}
	return out
}

// cut is what the files may hold after a loss of power.
func (d *disk) cut(rt *rapid.T) map[string][]byte {
	out := map[string][]byte{}
	for _, n := range slices.Sorted(maps.Keys(d.files)) {
		kind := vt.Pick(rt, 4, "how much is kept")
		k := 0
		out[n] = d.files[n].image(func(int) bool {
			k++
			switch kind {
			case 0:
				return false
			case 1:
				return true
			}
			return vt.Chance(rt, 2, "kept")
		})
	}
	return out
}

// image is the file with the sectors of later writes keep says.
func (p *platter) image(keep func(sector int) bool) []byte {
	b := slices.Clone(p.safe)
	for _, w := range p.since {
		if w.data == nil {
			if keep(-1) {
				b = resized(b, w.off)
			}
			continue
		}
		for i := 0; i < len(w.data); {
			at := w.off + int64(i)
			n := min(len(w.data)-i, sector-int(at%sector))
			if keep(int(at / sector)) {
				if int64(len(b)) < at+int64(n) {
					b = resized(b, at+int64(n))
				}
				copy(b[at:], w.data[i:i+n])
			}
			i += n
		}
	}
	return b
}

func resized(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n]
	}
	return append(b, make([]byte, n-int64(len(b)))...)
}

func (d *disk) ask(op string, mutate bool) error {
	if d.hook == nil {
		return nil
	}
	return d.hook(op, mutate)
}

func (d *disk) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	_, statErr := d.FS.Lstat(name)
	fresh := statErr != nil && flag&os.O_CREATE != 0
	if err := d.ask("open "+name, fresh || flag&os.O_TRUNC != 0); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	h, err := d.FS.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if p := d.files[name]; p == nil {
		d.files[name] = &platter{}
	} else if flag&os.O_TRUNC != 0 {
		p.since = append(p.since, wrote{})
	}
	d.open++
	f := &diskFile{File: h, d: d, name: name, p: d.files[name]}
	if d.locks {
		return &lockedFile{diskFile: f}, nil
	}
	return f, nil
}

func (d *disk) Open(name string) (vroot.File, error) { return d.OpenFile(name, os.O_RDONLY, 0) }

func (d *disk) Create(name string) (vroot.File, error) {
	return d.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (d *disk) Stat(name string) (fs.FileInfo, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.ask("stat "+name, false); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	return d.FS.Stat(name)
}

func (d *disk) Lstat(name string) (fs.FileInfo, error) { return d.Stat(name) }

func (d *disk) Remove(name string) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.ask("remove "+name, true); err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	if err := d.FS.Remove(name); err != nil {
		return err
	}
	delete(d.files, name)
	return nil
}

type diskFile struct {
	vroot.File
	d    *disk
	name string
	p    *platter
}

func (f *diskFile) ReadAt(b []byte, off int64) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask("read "+f.name, false); err != nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: err}
	}
	n, err := f.File.ReadAt(b, off)
	if err != nil {
		// as file systems over others tell it
		err = fmt.Errorf("%s: %w", f.name, err)
	}
	return n, err
}

func (f *diskFile) WriteAt(b []byte, off int64) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	err := f.d.ask(fmt.Sprintf("write %s %d+%d", f.name, off, len(b)), true)
	if err != nil {
		b = b[:len(b)/2]
	}
	n := 0
	if !errors.Is(err, errDead) {
		var werr error
		if n, werr = f.File.WriteAt(b, off); werr != nil && err == nil {
			err = werr
		}
		f.p.since = append(f.p.since, wrote{off, append([]byte{}, b[:n]...)})
	}
	if err != nil {
		return n, &fs.PathError{Op: "write", Path: f.name, Err: err}
	}
	return n, nil
}

func (f *diskFile) Write(b []byte) (int, error) {
	off, err := f.File.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	n, err := f.WriteAt(b, off)
	if _, serr := f.File.Seek(off+int64(n), 0); err == nil {
		err = serr
	}
	return n, err
}

func (f *diskFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *diskFile) Truncate(size int64) error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask(fmt.Sprintf("truncate %s %d", f.name, size), true); err != nil {
		return &fs.PathError{Op: "truncate", Path: f.name, Err: err}
	}
	if err := f.File.Truncate(size); err != nil {
		return err
	}
	f.p.since = append(f.p.since, wrote{off: size})
	return nil
}

func (f *diskFile) Sync() error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask("sync "+f.name, true); err != nil {
		return &fs.PathError{Op: "sync", Path: f.name, Err: err}
	}
	f.p.safe, f.p.since = f.p.image(func(int) bool { return true }), nil
	return nil
}

func (f *diskFile) Close() error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	err := f.File.Close()
	if err == nil {
		f.d.open--
	}
	return err
}

func (f *diskFile) Stat() (fs.FileInfo, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask("fstat "+f.name, false); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: err}
	}
	return f.File.Stat()
}

// lockedFile takes locks and tells of writes made without.
type lockedFile struct {
	*diskFile
	held *vroot.LockLevel
}

func (f *lockedFile) Lock(level vroot.LockLevel) error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask("lock "+f.name, false); err != nil {
		return &fs.PathError{Op: "lock", Path: f.name, Err: err}
	}
	f.held = &level
	return nil
}

func (f *lockedFile) Unlock() error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.d.ask("unlock "+f.name, false); err != nil {
		return &fs.PathError{Op: "unlock", Path: f.name, Err: err}
	}
	f.held = nil
	return nil
}

func (f *lockedFile) WriteAt(b []byte, off int64) (int, error) {
	f.mark("write")
	return f.diskFile.WriteAt(b, off)
}

func (f *lockedFile) Truncate(size int64) error {
	f.mark("truncate")
	return f.diskFile.Truncate(size)
}

func (f *lockedFile) mark(what string) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if f.name == dbName && (f.held == nil || *f.held != vroot.LockExclusive) {
		f.d.faults = append(f.d.faults, what+" without an exclusive lock")
	}
}

const dbName = "meta.sqlite3"

var (
	errDead = errors.New("crashed")
	errOnce = errors.New("injected failure")
)

// Whatever cuts a store short, what was set before is there and the setting
// under way is done or not.
func TestC30_CutShort(t *testing.T) {
	vt.Check(t, vt.N(3000, 30000), "histories of settings on a disk that loses power, keeping any of the 512-byte sectors written since the last sync, crashes, or fails single calls, at generated calls, opening and recovery included; non-trivial: a crash within a setting, an open or a close that had begun to change the disk", func(rt *rapid.T, c *vt.Case) {
		names := genNames(rt)
		d := newDisk(nil)
		can := []book{{}} // what the store may hold
		locks := vt.Chance(rt, 2, "locks")
		var st *overlayfs.MetadataStoreSQLite
		hit := new(string)
		loaded := func(when string) bool {
			got, err := holds(st)
			if err != nil {
				if *hit != "" {
					return false
				}
				rt.Fatalf("%s: load: %v", when, err)
			}
			for _, b := range can {
				if maps.Equal(b, got) {
					can = []book{b}
					return true
				}
			}
			var s []string
			for _, b := range can {
				s = append(s, b.String())
			}
			rt.Fatalf("%s: the store holds\n  %v, want\n  %s", when, got, strings.Join(s, "\n  or "))
			return false
		}
		cutBefore := false
		for range 1 + vt.Pick(rt, 5, "lives") {
			d.locks = locks
			// what this life meets: nothing, an end at the k-th change, a failure
			fate := vt.Of(rt, "fate", "none", "crash", "power", "power", "power", "fault", "fault", "fault", "kind", "kind", "no lock")
			if cutBefore && vt.Chance(rt, 2, "recovery fails") {
				fate = "kind"
			}
			cutBefore = fate == "crash" || fate == "power"
			left := vt.Pick(rt, vt.Of(rt, "soon", 12, 60), "calls left")
			onlyChanges := fate != "fault" || vt.Chance(rt, 2, "of changes")
			dead, changed := false, false
			*hit = ""
			once := fsx.Vary(rt, errOnce)
			if errors.Is(once, io.EOF) {
				once = errOnce // where a file ends may be told wrapped
			}
			kind := ""
			if fate == "kind" {
				kind = vt.Of(rt, "of", "stat ", "stat ", "remove ", "remove ", "read ", "fstat ", "truncate ", "sync ", "open ", "write ")
				left = vt.Pick(rt, 6, "calls of it left")
			}
			d.hook = func(op string, mutate bool) error {
				if dead {
					return errDead
				}
				if fate == "no lock" {
					if strings.HasPrefix(op, "lock") {
						*hit = op
						return once
					}
					return nil
				}
				if kind != "" {
					if strings.HasPrefix(op, kind) {
						left--
						if left < 0 && *hit == "" {
							*hit = op
							return once
						}
					}
					changed = changed || mutate
					return nil
				}
				if mutate || !onlyChanges {
					left--
					if left < 0 && *hit == "" && fate != "none" {
						*hit = op
						if fate == "fault" {
							return once
						}
						dead = true
						if vt.Chance(rt, 2, "torn") {
							return once // half of it happens
						}
						return errDead
					}
				}
				changed = changed || mutate
				return nil
			}
			var err error
			st, err = overlayfs.NewMetadataStoreSQLite(d, dbName)
			if err != nil {
				if *hit == "" {
					rt.Fatalf("open: %v", err)
				}
				st = nil
				c.Log("open: %v (%s %s)", err, fate, *hit)
				c.Label("%s in open", fate)
			}
			if st != nil {
				loaded("opened")
				for range vt.Pick(rt, 14, "settings") {
					x := genSetting(rt, names)
					before := *hit
					changed = false
					err := x.on(st)
					c.Log("%v: %v", x, err)
					var after []book
					for _, b := range can {
						after = append(after, x.in(b))
					}
					if err == nil {
						can = after
						continue
					}
					if *hit == "" {
						rt.Fatalf("%v: %v", x, err)
					}
					if before == "" {
						c.Log("  (%s %s)", fate, *hit)
						c.Label("%s in a setting", fate)
						if changed {
							c.NonTrivial()
						}
					}
					can = append(can, after...)
					if dead {
						break
					}
					if before != "" && fate != "no lock" {
						rt.Fatalf("%v: %v, though nothing fails any more after %s %s", x, err, *hit, once)
					}
					hook := d.hook
					d.hook = nil
					if _, err := holds(st); err == nil {
						loaded("after a fault")
					} else {
						rt.Fatalf("after a fault: %v", err)
					}
					d.hook = hook
				}
				before := *hit
				if err := st.Close(); err != nil {
					if *hit == "" {
						rt.Fatalf("close: %v", err)
					}
					c.Log("close: %v (%s %s)", err, fate, *hit)
				}
				if before == "" && *hit != "" {
					c.Label("%s in close", fate)
				}
			}
			if d.open != 0 && !dead {
				rt.Fatalf("closed, and %d of its files are still open", d.open)
			}
			if len(d.faults) > 0 {
				rt.Fatalf("the database is written at: %s", strings.Join(d.faults, "; "))
			}
			d.hook = nil
			if fate == "power" {
				d = newDisk(d.cut(rt))
			} else {
				d = newDisk(d.now())
			}
		}
		var err error
		if st, err = overlayfs.NewMetadataStoreSQLite(d, dbName); err != nil {
			rt.Fatalf("open: %v", err)
		}
		loaded("in the end")
		if err := st.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
	})
}

// A database of another version, or none at all, is refused and left alone.
func TestC30_Foreign(t *testing.T) {
	vt.Check(t, vt.N(100, 1000), "a store that holds generated marks, whose version is then made another, or whose file another kind of file, opened for writing and behind a file system that refuses writes; non-trivial: every case", func(rt *rapid.T, c *vt.Case) {
		d := newDisk(nil)
		st, err := overlayfs.NewMetadataStoreSQLite(d, dbName)
		if err != nil {
			rt.Fatalf("open: %v", err)
		}
		want := book{}
		names := genNames(rt)
		for range vt.Pick(rt, 8, "settings") {
			x := genSetting(rt, names)
			c.Log("%v", x)
			if err := x.on(st); err != nil {
				rt.Fatalf("%v: %v", x, err)
			}
			want = x.in(want)
		}
		if err := st.Close(); err != nil {
			rt.Fatalf("close: %v", err)
		}
		files := d.now()
		how := vt.Of(rt, "how", "same", "version 2", "version 0", "text", "version 1x")
		c.Log("%s", how)
		c.NonTrivial()
		switch db := files[dbName]; how {
		case "version 2", "version 0":
			i := bytes.Index(db, []byte("version1"))
			if i < 0 {
				rt.Skip("the version is not kept as expected")
			}
			db[i+7] = how[len(how)-1]
		case "version 1x":
			i := bytes.Index(db, []byte("version1"))
			if i < 0 {
				rt.Skip("the version is not kept as expected")
			}
			db[i+7] = "x "[vt.Pick(rt, 2, "as")]
		case "text":
			files[dbName] = []byte(strings.Repeat("no database ", 10+vt.Pick(rt, 1000, "times")))
		}
		d = newDisk(files)
		was := d.now()[dbName]
		st, err = overlayfs.NewMetadataStoreSQLite(d, dbName)
		if err == nil {
			if how == "same" {
				if got, err := holds(st); err != nil || !maps.Equal(got, want) {
					rt.Fatalf("holds %v (%v), want %v", got, err, want)
				}
			}
			err := st.Close()
			if how != "same" || err != nil {
				rt.Fatalf("%s: it opens, and closes with %v", how, err)
			}
		} else if how == "same" {
			rt.Fatalf("open: %v", err)
		}
		if d.open != 0 {
			rt.Fatalf("%d of its files are still open", d.open)
		}
		if how != "same" && !bytes.Equal(d.now()[dbName], was) {
			rt.Fatalf("%s: it was refused (%v) and yet changed", how, err)
		}
		// the same, as a layer that can not be written to
		lower := newDisk(files)
		for _, dir := range []string{"merged", "work"} {
			if err := lower.Mkdir(dir, 0o777); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
		}
		src, err := overlayfs.NewDataSourceCanonical(vroot.Widen(vroot.NewReadOnlyFs(fsmodel.FS(lower))))
		c.Log("read-only: %v", err)
		if (err == nil) != (how == "same") {
			rt.Fatalf("%s, read only: %v", how, err)
		}
		if err == nil {
			src.Close()
		}
		if lower.open != 0 {
			rt.Fatalf("read only: %d of its files are still open", lower.open)
		}
	})
}

// Two stores do not have one database open at once, where files can be locked.
func TestC30_Exclusion(t *testing.T) {
	vt.Check(t, vt.N(60, 600), "two or three goroutines that open one database on osfs, set, load and close, over and over; non-trivial: every one of them set something", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		n := 2 + vt.Pick(rt, 2, "goroutines")
		var plans [][][]string
		for g := range n {
			var plan [][]string
			for r := range 1 + vt.Pick(rt, 3, "rounds") {
				var names []string
				for k := range 1 + vt.Pick(rt, 4, "settings") {
					names = append(names, fmt.Sprintf("g%d/r%d-%d", g, r, k))
				}
				plan = append(plan, names)
			}
			plans = append(plans, plan)
			c.Log("%v", plan)
		}
		c.NonTrivial()
		inside := make(chan struct{}, 1)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var errs []string
		told := map[string]bool{}
		fail := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			errs = append(errs, fmt.Sprintf(format, args...))
		}
		for _, plan := range plans {
			r, err := osfs.NewRoot(dir)
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			defer r.Close()
			wg.Go(func() {
				for _, names := range plan {
					st, err := overlayfs.NewMetadataStoreSQLite(r, dbName)
					if err != nil {
						fail("open: %v", err)
						return
					}
					select {
					case inside <- struct{}{}:
					default:
						fail("opened while another has it open")
						return
					}
					mu.Lock()
					want := len(told)
					mu.Unlock()
					if b, err := holds(st); err != nil || len(b) != want {
						fail("holds %v, %v; want %d marks", b, err, want)
					}
					for _, n := range names {
						if err := st.SetOpaque(n); err != nil {
							fail("set: %v", err)
						}
						mu.Lock()
						told[n] = true
						mu.Unlock()
						time.Sleep(10 * time.Microsecond)
					}
					<-inside
					if err := st.Close(); err != nil {
						fail("close: %v", err)
					}
				}
			})
		}
		vt.Watch(60*time.Second, wg.Wait)
		if len(errs) > 0 {
			rt.Fatalf("%s", strings.Join(errs, "\n"))
		}
	})
}
