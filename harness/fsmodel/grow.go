package fsmodel

import (
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// GrowOpts says what Grow makes.
type GrowOpts struct {
	Steps   int
	NoLinks bool
	// Out lets symlinks lead out of the tree.
	Out   bool
	Names []string
}

// Grow makes a generated tree in an empty file system; names sort and repeat on
// different levels, links lead to files, directories, links, up, and nowhere.
func Grow(rt *rapid.T, c *vt.Case, fsys FS, o GrowOpts) error {
	if o.Names == nil {
		o.Names = []string{"a", "b", "c", "d", "e", "B", "a.b"}
	}
	dirs, all := []string{"."}, []string{"."}
	have := map[string]bool{}
	for i := range 1 + vt.Pick(rt, o.Steps, "nodes") {
		d := dirs[vt.Pick(rt, len(dirs), "in")]
		p := path.Join(d, vt.Of(rt, "name", o.Names...))
		if have[p] {
			continue
		}
		have[p] = true
		kind := vt.Of(rt, "kind", "dir", "dir", "file", "file", "link", "link")
		if o.NoLinks && kind == "link" {
			kind = "file"
		}
		switch kind {
		case "dir":
			if strings.Count(p, "/") > 4 {
				continue
			}
			if err := fsys.Mkdir(p, vt.Of(rt, "perm", fs.FileMode(0o755), 0o777, 0o700)); err != nil {
				return err
			}
			dirs = append(dirs, p)
			c.Log("mkdir %s", p)
		case "file":
			n := vt.Of(rt, "len", 0, 1, 3, 20, 300)
			perm := vt.Of(rt, "perm", fs.FileMode(0o644), 0o600, 0o755)
			if err := vroot.WriteFile(fsys, p, bytes.Repeat([]byte{byte('a' + i%26)}, n), perm); err != nil {
				return err
			}
			c.Log("file %s %d %v", p, n, perm)
		case "link":
			up := strings.Repeat("../", strings.Count(p, "/"))
			t := up + all[vt.Pick(rt, len(all), "to")]
			switch vt.Pick(rt, 9, "odd") {
			case 8:
				t = path.Join(t, vt.Of(rt, "name", o.Names...)) // maybe through another link

			case 0:
				t = "nowhere"
			case 1:
				t = vt.Of(rt, "name", o.Names...)
			case 2:
				t = vt.Of(rt, "dots", ".", "./"+vt.Of(rt, "name", o.Names...), up+".")
			case 3:
				if o.Out {
					t = vt.Of(rt, "out", "../../../x", "/etc", up+"../b")
				} else {
					t = path.Clean(t)
				}
			}
			if err := fsys.Symlink(t, p); err != nil {
				return err
			}
			c.Log("link %s -> %s", p, t)
		}
		all = append(all, p)
	}
	if vt.Chance(rt, 200, "crowd") {
		d := path.Join(dirs[vt.Pick(rt, len(dirs), "in")], "lots")
		n := vt.Of(rt, "crowd of", 70, 130, 300)
		c.Log("lots, %d in %s", n, d)
		c.Label("crowd")
		if err := fsys.Mkdir(d, 0o755); err != nil {
			return err
		}
		for i := range n {
			p := path.Join(d, fmt.Sprintf("e%03d", i))
			var err error
			switch {
			case i%11 == 3:
				err = fsys.Mkdir(p, 0o755)
			case i%11 == 7 && !o.NoLinks:
				err = fsys.Symlink("e000", p)
			default:
				err = vroot.WriteFile(fsys, p, fmt.Append(nil, i), 0o644)
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

// Paths lists the tree's paths in order.
func (t Tree) Paths() []string {
	out := make([]string, 0, len(t))
	for p := range t {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}
