package fsutilt

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

var errEscape = errors.New("escapes")

// walkPath follows name over t one component at a time, as the kernel does, and
// never above the root. It returns where it lands (for a missing component: how
// far it got, plus the rest), the number of links followed and the outcome.
func walkPath(t fsx.Tree, name string, skipLast bool) (string, int, error) {
	var at []string
	todo := strings.Split(name, "/")
	links := 0
	dangling := false
	for len(todo) > 0 {
		comp := todo[0]
		todo = todo[1:]
		switch comp {
		case "", ".":
			continue
		case "..":
			if len(at) == 0 {
				return "", links, errEscape
			}
			at = at[:len(at)-1]
			continue
		}
		p := strings.Join(append(append([]string{}, at...), comp), "/")
		e, ok := t[p]
		if skipLast && len(todo) == 0 && links >= 0 {
			return p, links, nil
		}
		if !ok {
			if dangling {
				return "", links, fs.ErrNotExist
			}
			return path.Join(append([]string{p}, todo...)...), links, fs.ErrNotExist
		}
		if e.Mode&fs.ModeSymlink == 0 {
			if len(todo) > 0 && !e.Mode.IsDir() {
				return "", links, syscall.ENOTDIR
			}
			at = append(at, comp)
			continue
		}
		links++
		if links > 80 {
			return "", links, syscall.ELOOP
		}
		if path.IsAbs(e.Target) {
			return "", links, errEscape
		}
		// what ".." in the target may climb out of is decided where it is met
		rest := todo
		// a target is read cleaned: its trailing slash does not ask for a directory
		todo = append(strings.Split(path.Clean(e.Target), "/"), rest...)
	}
	if len(at) == 0 {
		return ".", links, nil
	}
	return strings.Join(at, "/"), links, nil
}

// genLinkTree draws a tree rich in links to links, to directories and upwards.
// Targets hold ".." only in front, where reading them component by component
// and reading them as text agree.
func genLinkTree(rt *rapid.T) fsx.Tree {
	t := fsx.Tree{".": {Mode: fs.ModeDir | 0o755}}
	dirs := []string{"."}
	var all []string
	names := []string{"a", "b", "c", "d"}
	for range vt.Int(rt, 2, 5, "dirs") {
		p := path.Join(vt.From(rt, dirs, "in"), vt.From(rt, names, "dir"))
		if _, ok := t[p]; !ok {
			t[p] = fsx.Ent{Mode: fs.ModeDir | 0o755}
			dirs = append(dirs, p)
			all = append(all, p)
		}
	}
	for range vt.Int(rt, 0, 3, "files") {
		p := path.Join(vt.From(rt, dirs, "in"), vt.From(rt, []string{"f", "g"}, "file"))
		if _, ok := t[p]; !ok {
			t[p] = fsx.Ent{Mode: 0o644, Data: p}
			all = append(all, p)
		}
	}
	comps := append([]string{"l", "m", "n", "f", "g"}, names...)
	for range vt.Int(rt, 3, 9, "links") {
		d := vt.From(rt, dirs, "in")
		p := path.Join(d, vt.From(rt, []string{"l", "m", "n", "a", "b"}, "link"))
		if _, ok := t[p]; ok {
			continue
		}
		var target string
		switch vt.Int(rt, 0, 7, "targetKind") {
		case 0, 1, 2, 3: // to something there, maybe through a link
			to := vt.From(rt, all, "to")
			rel, err := filepath.Rel(d, to)
			if err != nil {
				continue
			}
			target = rel
		case 4, 5, 6:
			ups := strings.Repeat("../", vt.Int(rt, 0, 2, "ups"))
			target = ups + strings.Join(rapid.SliceOfN(rapid.SampledFrom(comps), 1, 3).Draw(rt, "comps"), "/")
		default:
			target = vt.From(rt, []string{"/a", "..", "../..", ".", "./a", "a/", "../a"}, "odd")
		}
		t[p] = fsx.Ent{Mode: fs.ModeSymlink, Target: target}
		all = append(all, p)
	}
	return t
}

func genPathIn(rt *rapid.T, t fsx.Tree) string {
	var all []string
	for p, e := range t {
		all = append(all, p)
		if e.Mode&fs.ModeSymlink != 0 {
			all = append(all, p, p)
		}
	}
	comps := []string{"a", "b", "c", "d", "l", "m", "n", "f", "g"}
	sortStrings(all)
	p := vt.From(rt, all, "base")
	extra := rapid.SliceOfN(rapid.SampledFrom(comps), 0, 3).Draw(rt, "extra")
	return path.Join(append([]string{p}, extra...)...)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func TestC08_Resolve(t *testing.T) {
	vt.Check(t, vt.N(6000, 200000), "a tree rich in symlinks (to links, through links, upwards, out of the root, dangling, cyclic) and a path over it, with and without the last element kept; compared with walking the path component by component; non-trivial = at least one link followed", func(rt *rapid.T, c *vt.Case) {
		tree := genLinkTree(rt)
		chain := 0
		if vt.Int(rt, 0, 9, "chain") == 0 {
			// a long chain, well clear of the limit on either side
			chain = vt.From(rt, []int{20, 36, 45, 70}, "chainLen")
			for i := range chain {
				tree[fmt.Sprintf("k%d", i)] = fsx.Ent{Mode: fs.ModeSymlink, Target: fmt.Sprintf("k%d", i+1)}
			}
			tree[fmt.Sprintf("k%d", chain)] = fsx.Ent{Mode: fs.ModeDir | 0o755}
		}
		name := genPathIn(rt, tree)
		if chain > 0 {
			name = "k0"
			if rapid.Bool().Draw(rt, "below") {
				name = "k0/x"
			}
		}
		if chain == 0 && vt.Chance(rt, 18, "repeat") {
			// as many links along the path, each by itself a short one
			chain = vt.From(rt, []int{20, 36, 45, 70}, "repeats")
			hops, at := vt.Of(rt, "hops", 1, 2), ""
			if rapid.Bool().Draw(rt, "down") {
				// through a directory further down each time
				for i := range chain / hops {
					d := strings.Repeat("q/", i)
					tree[d+"z"] = fsx.Ent{Mode: fs.ModeSymlink, Target: vt.Of(rt, "hop", "q", "./q", "../"+path.Base("/"+path.Clean(d))+"/q")}
					if i == 0 || hops == 2 {
						tree[d+"z"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "q"}
					}
					if hops == 2 {
						tree[d+"z"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "y"}
						tree[d+"y"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "q"}
					}
					tree[d+"q"] = fsx.Ent{Mode: fs.ModeDir | 0o755}
				}
			} else {
				at = vt.Of(rt, "in", "", "u/")
				tree["u"] = fsx.Ent{Mode: fs.ModeDir | 0o755}
				tree[at+"z"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "."}
				if hops == 2 {
					tree[at+"z"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "y"}
					tree[at+"y"] = fsx.Ent{Mode: fs.ModeSymlink, Target: "."}
				}
			}
			name = at + strings.TrimSuffix(strings.Repeat("z/", chain/hops), "/")
			c.Label("links along the path")
		}
		odd := vt.Int(rt, 0, 11, "odd")
		switch odd {
		case 0:
			name = "./" + name + "/"
		case 1:
			name = "../" + name
		case 2:
			name = "/" + name
		}
		skip := rapid.Bool().Draw(rt, "skipLast")
		dir, done := fsx.Scratch()
		defer done()
		if err := fsx.Make(dir, tree); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		calls := 0
		fsys.SetHook(func(o fsx.Op) fsx.Verdict {
			calls++
			if !filepath.IsLocal(o.Path) {
				rt.Fatalf("asked the file system for %q", o.Path)
			}
			return fsx.Verdict{}
		})
		got, gerr := fsutil.ResolvePath(fsys, name, skip)
		fsys.SetHook(nil)
		want, links, werr := "", 0, errEscape
		if c := path.Clean(name); filepath.IsLocal(c) {
			want, links, werr = walkPath(tree, c, skip && c != ".")
		}
		what := fmt.Sprintf("ResolvePath(%q, %v) = %q, %v; want %q, %v (%d links) in %s", name, skip, got, gerr, want, werr, links, clipTree(tree))
		c.Log("%s", what)
		c.Label("outcome %v", werr)
		if links > 0 {
			c.NonTrivial()
		}
		if links > 1 {
			c.Label("several links")
		}
		if calls > 20000 {
			rt.Fatalf("%s: %d calls", what, calls)
		}
		switch {
		case links >= 39 && links <= 41:
			return // right at the limit; what counts as a link there is its own affair
		case links > 41:
			if !errors.Is(gerr, syscall.ELOOP) {
				rt.Fatalf("%s: want ELOOP", what)
			}
		case werr == errEscape:
			if !errors.Is(gerr, fsutil.ErrPathEscapes) {
				rt.Fatalf("%s: want ErrPathEscapes", what)
			}
		case werr == nil:
			if got = path.Clean(filepath.ToSlash(got)); gerr != nil || got != want {
				rt.Fatalf("%s", what)
			}
			if !skip {
				// the result is a real path: the same file, no link on the way
				r2, n2, err2 := walkPath(tree, got, false)
				if r2 != got || n2 != 0 || err2 != nil {
					rt.Fatalf("%s: the result still goes through links", what)
				}
			}
		case errors.Is(werr, fs.ErrNotExist):
			if !errors.Is(gerr, fs.ErrNotExist) {
				rt.Fatalf("%s: want ErrNotExist", what)
			}
			if links == 0 && !skip && filepath.ToSlash(got) != want {
				rt.Fatalf("%s: want how far it got and the rest", what)
			}
		default: // through a file
			if gerr == nil && !skip || errors.Is(gerr, fsutil.ErrPathEscapes) {
				rt.Fatalf("%s: want an error", what)
			}
		}
	})
}

func clipTree(t fsx.Tree) string {
	if len(t) > 30 {
		return fmt.Sprintf("(%d entries)", len(t))
	}
	return t.String()
}
