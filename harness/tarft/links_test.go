package tarft

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/tarfs"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// view is a file system or one of its subs.
type view struct {
	fsys      fs.FS
	root, top *node
	rooted    bool
	all       []*entry
}

// resolve walks name the way a kernel does, from the top of the view. It says
// what stands in the way: missing, notdir, loop, escape, out (of the archive),
// or unsure.
func (v *view) resolve(name string, last bool) (*node, string) {
	cur := v.top
	rest := strings.Split(name, "/")
	hops := 0
	for len(rest) > 0 {
		c := rest[0]
		rest = rest[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if v.rooted && (cur == v.top || cur == v.root) {
				return nil, "escape"
			}
			if cur.parent == nil {
				return nil, "out"
			}
			cur = cur.parent
			continue
		}
		if cur.hard {
			to, sure := linked(v.root, cur, v.all)
			if !sure || to != nil && to.dir() {
				return nil, "unsure"
			}
			return nil, "notdir"
		}
		if !cur.dir() {
			return nil, "notdir"
		}
		kid := cur.kids[c]
		if kid == nil {
			return nil, "missing"
		}
		if kid.kind == fs.ModeSymlink && (len(rest) > 0 || last) {
			if hops++; hops > 40 {
				return nil, "loop"
			}
			to := path.Clean(kid.e.link)
			if strings.HasPrefix(to, "/") {
				return nil, "absolute"
			}
			rest = append(strings.Split(to, "/"), rest...)
			continue
		}
		cur = kid
	}
	return cur, ""
}

// genPath makes a path likely to lead somewhere.
func (v *view) genPath(rt *rapid.T) string {
	var all []string
	v.top.walk(".", func(p string, n *node) { all = append(all, p) })
	p := all[vt.Pick(rt, len(all), "from")]
	for range vt.Pick(rt, 4, "on") {
		n, bad := v.resolve(p, true)
		if bad == "" && len(n.kids) > 0 && !vt.Chance(rt, 6, "anywhere") {
			var kids []string
			for k := range n.kids {
				kids = append(kids, k)
			}
			slices.Sort(kids)
			p = path.Join(p, kids[vt.Pick(rt, len(kids), "kid")])
		} else {
			p = path.Join(p, comps[vt.Pick(rt, len(comps), "comp")])
		}
	}
	return p
}

func (v *view) wrong(bad string, err error) string {
	switch bad {
	case "":
		if err != nil {
			return fmt.Sprintf("fails: %v", err)
		}
		return ""
	case "unsure":
		return ""
	}
	if err == nil {
		return "succeeds, want " + bad
	}
	switch {
	case bad == "missing" && !errors.Is(err, fs.ErrNotExist),
		(bad == "escape" || bad == "absolute") && !errors.Is(err, fsutil.ErrPathEscapes),
		bad == "loop" && !errors.Is(err, syscall.ELOOP):
		return fmt.Sprintf("says %v, want %s", err, bad)
	}
	return ""
}

// Paths lead through links where the archive says, and never out.
func TestC17_Resolve(t *testing.T) {
	vt.Check(t, vt.N(20000, 200000), "an archive rich in links, rooted or not, 1 to 12 paths opened, looked at, read and listed in it and in its subs; non-trivial: a path resolved through two links, or one refused for escaping", func(rt *rapid.T, c *vt.Case) {
		var es []*entry
		var names []string
		for i := range 2 + vt.Pick(rt, 10, "members") {
			e := genEntry(rt, i, names)
			if vt.Chance(rt, 3, "a link") {
				e = &entry{typ: '2', name: e.name, mode: 0o777, style: "gnu", mtime: time.Unix(9, 0), link: e.link}
				e.name = strings.TrimSuffix(e.name, "/")
				e.link = strings.Repeat("../", vt.Pick(rt, 3, "up")) + genName(rt, names)
				if vt.Chance(rt, 3, "there") && len(names) > 0 {
					// to what is, spelt from here
					to := names[vt.Pick(rt, len(names), "to")]
					e.link = strings.Repeat("../", strings.Count(path.Clean(e.name), "/")) + to
				}
				if vt.Chance(rt, 6, "just up") {
					e.link = vt.Of(rt, "to", "..", ".", "../..", "/a", "./b", "b/", "../../../a")
				}
			}
			es = append(es, e)
			names = append(names, path.Clean(e.name))
		}
		if vt.Chance(rt, 30, "a chain") {
			n := vt.Of(rt, "length", 8, 39, 40, 41)
			for i := range n {
				to := fmt.Sprintf("l%d", i+1)
				if i == n-1 {
					to = names[0]
				}
				es = append(es, &entry{typ: '2', name: fmt.Sprintf("l%d", i), link: to, mode: 0o777, style: "gnu", mtime: time.Unix(9, 0)})
			}
			names = append(names, "l0")
		}
		opt := options{symlink: !vt.Chance(rt, 8, "no links"), rooted: vt.Chance(rt, 2, "rooted"), dev: vt.Chance(rt, 2, "dev")}
		for _, e := range es {
			c.Log("%s", e)
		}
		c.Log("%+v", opt)
		fsys, err := tarfs.New(bytes.NewReader(build(es, 2)), &tarfs.FsOption{HandleSymlink: opt.symlink, IsRooted: opt.rooted, AllowDev: opt.dev})
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		root := tree(es, opt)
		v := &view{fsys: fsys, root: root, top: root, rooted: opt.rooted, all: es}
		for range 1 + vt.Pick(rt, 12, "steps") {
			p := v.genPath(rt)
			n, bad := v.resolve(p, true)
			ln, lbad := v.resolve(p, false)
			rest := n
			if rest != nil && rest.hard {
				to, sure := linked(v.root, n, es)
				switch {
				case !sure || to != nil && to.dir() || to != nil && to.kind != 0:
					bad = "unsure"
					if lbad == "" && ln == n {
						lbad = "unsure"
					}
				case to == nil:
					// it leads to nothing; looking at it may say so
					bad = "missing or loop"
					if lbad == "" && ln == n {
						lbad = "unsure"
					}
				}
				rest = to
			} else if lbad == "" && ln.hard {
				lbad = "unsure"
			}
			if bad == "escape" || strings.Count(p, "/") > 1 && bad == "" && n.kind == 0 {
				c.NonTrivial()
			}
			f, err := v.fsys.Open(p)
			c.Log("Open(%q): %v", p, err)
			if w := v.wrong(bad, err); w != "" {
				rt.Fatalf("Open(%q) %s", p, w)
			}
			var pe *fs.PathError
			if err != nil && (!errors.As(err, &pe) || pe.Path != p) {
				rt.Fatalf("Open(%q): %#v", p, err)
			}
			if err == nil && bad == "" {
				fi, err := f.Stat()
				if err != nil {
					rt.Fatalf("Stat(%q): %v", p, err)
				}
				if fi.IsDir() != n.dir() || fi.Mode().Type() != n.kind {
					rt.Fatalf("%q is %v, want %v", p, fi.Mode(), n.kind)
				}
				if n.dir() {
					des, err := fs.ReadDir(v.fsys, p)
					var got []string
					for _, de := range des {
						got = append(got, de.Name())
					}
					if err != nil || len(got) != len(n.kids) || slices.ContainsFunc(got, func(k string) bool { return n.kids[k] == nil }) {
						rt.Fatalf("%q lists %q, %v", p, got, err)
					}
				} else if n.kind == 0 {
					g, err := fs.ReadFile(v.fsys, p)
					if err != nil || !bytes.Equal(g, rest.e.data) {
						rt.Fatalf("ReadFile(%q): %d bytes, %v; want %d of %s", p, len(g), err, len(rest.e.data), rest.e)
					}
				}
			}
			if err == nil {
				_ = f.Close()
			}
			lfi, err := fs.Lstat(v.fsys, p)
			if w := v.wrong(lbad, err); w != "" {
				rt.Fatalf("Lstat(%q) %s", p, w)
			}
			if err != nil && (!errors.As(err, &pe) || pe.Path != p) {
				rt.Fatalf("Lstat(%q): %#v", p, err)
			}
			if err == nil && lbad == "" {
				if w := info(lfi, lname(p, ln), ln, nil); w != "" {
					rt.Fatalf("Lstat(%q): %s", p, w)
				}
			}
			to, err := fs.ReadLink(v.fsys, p)
			switch {
			case lbad == "" && ln.kind == fs.ModeSymlink:
				if err != nil || path.Clean(to) != path.Clean(ln.e.link) {
					rt.Fatalf("ReadLink(%q): %q, %v; want %q", p, to, err, ln.e.link)
				}
			case err == nil && lbad != "unsure":
				rt.Fatalf("ReadLink(%q): %q of no link", p, to)
			case lbad == "" && (!errors.Is(err, fs.ErrInvalid) && !errors.Is(err, syscall.EINVAL)):
				rt.Fatalf("ReadLink(%q): %v", p, err)
			}
			if !errors.As(err, &pe) && err != nil || err != nil && pe.Path != p {
				rt.Fatalf("ReadLink(%q): %#v", p, err)
			}
			if vt.Chance(rt, 4, "sub") {
				sub, err := fs.Sub(v.fsys, p)
				if p == "." {
					continue
				}
				if bad == "unsure" {
					continue
				}
				if ok := bad == "" && n.dir(); ok != (err == nil) {
					rt.Fatalf("Sub(%q): %v", p, err)
				}
				if err != nil && (!errors.As(err, &pe) || pe.Path != p) {
					rt.Fatalf("Sub(%q): %#v", p, err)
				}
				for _, bad := range []string{"", "/", "../" + p, p + "/", "./" + p} {
					if s, err := fs.Sub(v.fsys, bad); !errors.Is(err, fs.ErrInvalid) {
						rt.Fatalf("Sub(%q): %v, %v", bad, s, err)
					}
				}
				if err == nil {
					c.Log("into Sub(%q)", p)
					w := *v
					w.fsys, w.top = sub, n
					v = &w
				}
			}
		}
	})
}

// lname is the name a node has: its own, whatever path led to it.
func lname(p string, n *node) string {
	if n.parent == nil {
		return "."
	}
	return p
}

// A rooted file system shows through its links what is below its root alone.
func TestC17_Contained(t *testing.T) {
	vt.Check(t, vt.N(4000, 40000), "an archive with a secret outside one directory and links of all kinds below it, the directory taken as a rooted sub and searched; non-trivial: a link below it points out", func(rt *rapid.T, c *vt.Case) {
		secret := []byte("secret")
		es := []*entry{
			{typ: '5', name: "in", mode: 0o755, style: "gnu"},
			{typ: '0', name: "out/s", data: secret, mode: 0o644, style: "gnu"},
			{typ: '0', name: "s", data: secret, mode: 0o644, style: "gnu"},
			{typ: '0', name: "in/f", data: []byte("f"), mode: 0o644, style: "gnu"},
		}
		dirs := []string{"in"}
		for range 1 + vt.Pick(rt, 8, "links") {
			d := dirs[vt.Pick(rt, len(dirs), "dir")]
			name := d + "/" + comps[vt.Pick(rt, len(comps), "name")]
			if vt.Chance(rt, 4, "dir") {
				es = append(es, &entry{typ: '5', name: name, mode: 0o755, style: "gnu"})
				dirs = append(dirs, name)
				continue
			}
			var to []string
			for range vt.Pick(rt, 4, "ups") {
				to = append(to, "..")
			}
			for range vt.Pick(rt, 3, "downs") {
				to = append(to, vt.Of(rt, "down", "a", "b", "c", "out", "s", "in"))
			}
			link := strings.Join(to, "/")
			if vt.Chance(rt, 8, "absolute") {
				link = "/" + link
			}
			if link == "" {
				link = "."
			}
			es = append(es, &entry{typ: '2', name: name, link: link, mode: 0o777, style: "gnu"})
			if strings.HasPrefix(path.Join(path.Dir(name), link), "out") || strings.HasPrefix(path.Join(path.Dir(name), link), "..") || path.Join(path.Dir(name), link) == "s" {
				c.NonTrivial()
			}
		}
		for _, e := range es {
			e.mtime = time.Unix(7, 0)
			c.Log("%s", e)
		}
		fsys, err := tarfs.New(bytes.NewReader(build(es, 2)), &tarfs.FsOption{HandleSymlink: true, IsRooted: true})
		if err != nil {
			rt.Fatalf("New: %v", err)
		}
		sub, err := fs.Sub(fsys, "in")
		if err != nil {
			return
		}
		var search func(at string, depth int)
		search = func(at string, depth int) {
			if g, err := fs.ReadFile(sub, at); err == nil && bytes.Equal(g, secret) {
				rt.Fatalf("%q shows what is outside", at)
			}
			des, err := fs.ReadDir(sub, at)
			if err != nil || depth == 0 {
				return
			}
			for _, de := range des {
				if de.Name() == "in" || de.Name() == "out" {
					rt.Fatalf("%q lists what is outside: %q", at, de.Name())
				}
				search(path.Join(at, de.Name()), depth-1)
			}
		}
		search(".", 4)
	})
}
