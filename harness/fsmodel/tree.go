// Package fsmodel compares a file system with a reference one over generated
// histories of calls: same outcomes, same bytes, same tree.
package fsmodel

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// FS is what is compared.
type FS = vroot.Fs[vroot.File]

// Node is one entry of a snapshot.
type Node struct {
	Mode   fs.FileMode // type and permission bits
	Data   string
	Target string
	Mtime  int64 // for a time set through Chtimes, see At; 0 for any other
}

func (n Node) String() string {
	m := ""
	if n.Mtime != 0 {
		m = fmt.Sprintf(" @%d", n.Mtime)
	}
	switch {
	case n.Mode.IsDir():
		return n.Mode.String() + m
	case n.Mode&fs.ModeSymlink != 0:
		return "-> " + n.Target
	}
	if len(n.Data) > 60 {
		return fmt.Sprintf("%v %q…(%d)%s", n.Mode, n.Data[:40], len(n.Data), m)
	}
	return fmt.Sprintf("%v %q%s", n.Mode, n.Data, m)
}

// Tree maps slash paths to nodes; "." is the root.
type Tree map[string]Node

// stampBase is the first of the times Chtimes sets: long before any clock here.
const stampBase = 1_000_000_000

// Stamp is a time a snapshot shows.
func Stamp(k int64) time.Time { return time.Unix(stampBase+k, 0) }

// Fine is one of more than whole seconds.
func Fine(k int64) time.Time { return time.Unix(stampBase+k, k*1_000_003%1_000_000_000) }

// At is the time a node's Mtime stands for.
func At(mtime int64) time.Time { return time.Unix(stampBase, mtime) }

func stampOf(t time.Time) int64 {
	s := t.Unix() - stampBase
	if s >= 0 && s < 1000 {
		return s*1_000_000_000 + int64(t.Nanosecond())
	}
	return 0
}

// Snap reads the whole tree through the file system's own methods and checks on
// the way that listing, Lstat, Stat through a handle and content agree.
func Snap(fsys FS) (Tree, error) {
	t := Tree{}
	fi, err := fsys.Stat(".")
	if err != nil {
		return nil, fmt.Errorf("stat .: %w", err)
	}
	if !fi.IsDir() {
		return nil, fmt.Errorf("the root is %v", fi.Mode())
	}
	t["."] = Node{Mode: fi.Mode(), Mtime: stampOf(fi.ModTime())}
	return t, snapDir(fsys, ".", t, 0)
}

func snapDir(fsys FS, dir string, t Tree, depth int) error {
	if depth > 64 {
		return fmt.Errorf("%s: nested deeper than anything made", dir)
	}
	f, err := fsys.Open(dir)
	if err != nil {
		return fmt.Errorf("open %s: %w", dir, err)
	}
	ents, err := f.ReadDir(-1)
	cerr := f.Close()
	if err != nil {
		return fmt.Errorf("list %s: %w", dir, err)
	}
	if cerr != nil {
		return fmt.Errorf("close %s: %w", dir, cerr)
	}
	for _, e := range ents {
		p := path.Join(dir, e.Name())
		if _, dup := t[p]; dup {
			return fmt.Errorf("%s lists %q twice", dir, e.Name())
		}
		fi, err := fsys.Lstat(p)
		if err != nil {
			return fmt.Errorf("listed but: lstat %s: %w", p, err)
		}
		if fi.Name() != e.Name() {
			return fmt.Errorf("lstat %s is named %q", p, fi.Name())
		}
		if fi.Mode().Type() != e.Type() || fi.IsDir() != e.IsDir() {
			return fmt.Errorf("%s: listed as %v, lstat %v", p, e.Type(), fi.Mode())
		}
		ei, err := e.Info()
		if err != nil {
			return fmt.Errorf("info of listed %s: %w", p, err)
		}
		if ei.Mode() != fi.Mode() || !ei.ModTime().Equal(fi.ModTime()) || fi.Mode().IsRegular() && ei.Size() != fi.Size() {
			return fmt.Errorf("%s: listed info %v %d %v, lstat %v %d %v", p, ei.Mode(), ei.Size(), ei.ModTime(), fi.Mode(), fi.Size(), fi.ModTime())
		}
		n := Node{Mode: fi.Mode(), Mtime: stampOf(fi.ModTime())}
		switch {
		case fi.IsDir():
			t[p] = n
			if err := snapDir(fsys, p, t, depth+1); err != nil {
				return err
			}
			continue
		case fi.Mode()&fs.ModeSymlink != 0:
			n = Node{Mode: fs.ModeSymlink}
			if n.Target, err = fsys.ReadLink(p); err != nil {
				return fmt.Errorf("readlink %s: %w", p, err)
			}
		case fi.Mode().IsRegular():
			b, err := readAll(fsys, p)
			if err != nil {
				return fmt.Errorf("read %s: %w", p, err)
			}
			if fi.Size() != int64(len(b)) {
				return fmt.Errorf("%s: size %d but %d bytes read", p, fi.Size(), len(b))
			}
			n.Data = string(b)
		}
		t[p] = n
	}
	return nil
}

// SnapDir reads the tree below a directory straight from the operating system.
func SnapDir(dir string) (Tree, error) {
	t := Tree{}
	fi, err := os.Lstat(dir)
	if err != nil {
		return nil, err
	}
	t["."] = Node{Mode: fi.Mode(), Mtime: stampOf(fi.ModTime())}
	return t, osDir(dir, ".", t)
}

func osDir(root, dir string, t Tree) error {
	ents, err := os.ReadDir(filepath.Join(root, dir))
	if err != nil {
		return err
	}
	for _, e := range ents {
		p := path.Join(dir, e.Name())
		full := filepath.Join(root, p)
		fi, err := os.Lstat(full)
		if err != nil {
			return err
		}
		n := Node{Mode: fi.Mode(), Mtime: stampOf(fi.ModTime())}
		switch {
		case fi.IsDir():
			if err := osDir(root, p, t); err != nil {
				return err
			}
		case fi.Mode()&fs.ModeSymlink != 0:
			n = Node{Mode: fs.ModeSymlink}
			if n.Target, err = os.Readlink(full); err != nil {
				return err
			}
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(full)
			if err != nil {
				return err
			}
			n.Data = string(b)
		}
		t[p] = n
	}
	return nil
}

func readAll(fsys FS, p string) ([]byte, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(f)
	cerr := f.Close()
	if err == nil {
		err = cerr
	}
	return b, err
}

// Diff describes how t differs from want.
func (t Tree) Diff(want Tree) string {
	keys := map[string]bool{}
	for k := range t {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	names := make([]string, 0, len(keys))
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		a, okA := t[k]
		w, okW := want[k]
		switch {
		case okA && !okW:
			fmt.Fprintf(&b, "  %s: unexpected %v\n", k, a)
		case !okA && okW:
			fmt.Fprintf(&b, "  %s: missing, want %v\n", k, w)
		case a != w:
			fmt.Fprintf(&b, "  %s: %v, want %v\n", k, a, w)
		}
	}
	return b.String()
}

func (t Tree) String() string {
	names := make([]string, 0, len(t))
	for k := range t {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		fmt.Fprintf(&b, "%s: %v; ", k, t[k])
	}
	return b.String()
}

// Class names the kind of an error.
func Class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, vroot.ErrPathEscapes) || strings.HasSuffix(err.Error(), "path escapes from parent"):
		return "escapes"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, vroot.ErrOpNotSupported):
		return "unsupported"
	case errors.Is(err, syscall.ENOTDIR):
		return "ENOTDIR"
	case errors.Is(err, syscall.EISDIR):
		return "EISDIR"
	case errors.Is(err, syscall.ENOTEMPTY):
		return "ENOTEMPTY"
	case errors.Is(err, syscall.ELOOP):
		return "ELOOP"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, syscall.EROFS):
		return "EROFS"
	case errors.Is(err, syscall.EBADF):
		return "EBADF"
	case errors.Is(err, syscall.EINVAL), errors.Is(err, fs.ErrInvalid):
		return "EINVAL"
	case errors.Is(err, fs.ErrPermission):
		return "EPERM"
	}
	return "other"
}
