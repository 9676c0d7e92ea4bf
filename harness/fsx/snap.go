package fsx

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// Ent is one entry of a snapshot.
type Ent struct {
	Mode   fs.FileMode // type and permission bits
	Data   string
	Target string
}

func (e Ent) String() string {
	switch {
	case e.Mode.IsDir():
		return fmt.Sprintf("dir %v", e.Mode.Perm())
	case e.Mode&fs.ModeSymlink != 0:
		return "-> " + e.Target
	default:
		return fmt.Sprintf("%v %q", e.Mode, clip(e.Data))
	}
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:40] + fmt.Sprintf("…(%d)", len(s))
	}
	return s
}

// Tree maps slash paths ("." is the root) to entries.
type Tree map[string]Ent

// Dir reads the tree at dir straight from the operating system.
func Dir(dir string) (Tree, error) {
	t := Tree{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		fi, err := os.Lstat(p)
		if err != nil {
			return err
		}
		e := Ent{Mode: fi.Mode()}
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			e.Data = string(b)
		case fi.Mode()&fs.ModeSymlink != 0:
			e.Mode = fs.ModeSymlink
			if e.Target, err = os.Readlink(p); err != nil {
				return err
			}
		}
		t[filepath.ToSlash(rel)] = e
		return nil
	})
	return t, err
}

// Diff describes how t differs from want, "" if it does not.
func (t Tree) Diff(want Tree) string {
	keys := map[string]bool{}
	for k := range t {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var names []string
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		a, okA := t[k]
		w, okW := want[k]
		switch {
		case okA && !okW:
			fmt.Fprintf(&b, "  %s: unexpected %v\n", k, a)
		case !okA && okW:
			fmt.Fprintf(&b, "  %s: missing, want %v\n", k, w)
		case a != w:
			fmt.Fprintf(&b, "  %s: %v, want %v\n", k, a, w)
		}
	}
	return b.String()
}

// String lists the tree.
func (t Tree) String() string {
	var names []string
	for k := range t {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		fmt.Fprintf(&b, "%s: %v; ", k, t[k])
	}
	return b.String()
}

// Make writes t under dir, parents first.
func Make(dir string, t Tree) error {
	var names []string
	for k := range t {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		e, p := t[k], filepath.Join(dir, filepath.FromSlash(k))
		var err error
		switch {
		case k == ".":
			continue
		case e.Mode.IsDir():
			err = os.Mkdir(p, 0o777)
		case e.Mode&fs.ModeSymlink != 0:
			err = os.Symlink(e.Target, p)
		default:
			err = os.WriteFile(p, []byte(e.Data), 0o666)
		}
		if err != nil {
			return err
		}
	}
	// modes last, children first, so that a read-only directory can be filled
	for i := len(names) - 1; i >= 0; i-- {
		e := t[names[i]]
		if e.Mode&fs.ModeSymlink != 0 {
			continue
		}
		if err := os.Chmod(filepath.Join(dir, filepath.FromSlash(names[i])), e.Mode); err != nil {
			return err
		}
	}
	return nil
}

// Parent is path.Dir.
func Parent(p string) string { return path.Dir(p) }
