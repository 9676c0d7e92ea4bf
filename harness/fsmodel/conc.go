package fsmodel

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// Call is one call of a concurrent program.
type Call struct {
	Kind string
	P, Q string
	Flag int
	H    int // the handle: -1 for the goroutine's own, else one opened before all start
	N    int
	Off  int64
	Data string
	Sub  bool // through the sub-root opened at "d" before all start
}

func (c Call) String() string {
	switch c.Kind {
	case "open":
		return fmt.Sprintf("open %s %#x", c.P, c.Flag)
	case "read", "readat", "write", "writeat", "truncate", "seek", "close", "fstat", "flist", "fchmod":
		h := "own"
		if c.H >= 0 {
			h = fmt.Sprintf("shared%d", c.H)
		}
		return fmt.Sprintf("%s %s n=%d off=%d %q", c.Kind, h, c.N, c.Off, c.Data)
	}
	below := ""
	if c.Sub {
		below = "below d: "
	}
	return strings.TrimSpace(fmt.Sprintf("%s%s %s %s %s", below, c.Kind, c.P, c.Q, c.Data))
}

// Program is a set-up, and one list of calls per goroutine.
type Program struct {
	Dirs, Files []string
	Links       [][2]string // name, target
	Given       bool        // the tree starts out with them
	Shared      []Call      // opens
	Routines    [][]Call
	OpenRoot    func(fsys FS, name string) (FS, error)
}

func (p *Program) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "dirs %v files %v links %v\n", p.Dirs, p.Files, p.Links)
	for i, c := range p.Shared {
		fmt.Fprintf(&b, "shared%d: %v\n", i, c)
	}
	for i, r := range p.Routines {
		fmt.Fprintf(&b, "goroutine %d: ", i)
		for _, c := range r {
			fmt.Fprintf(&b, "%v; ", c)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// ProgramOpts shapes generated programs.
type ProgramOpts struct {
	Routines, Calls int
	Kinds           []string // nil: all
	NoShared        bool
	OpenRoot        func(fsys FS, name string) (FS, error)
}

// GenProgram makes a program whose goroutines meet on few names.
func GenProgram(rt *rapid.T, o ProgramOpts) *Program {
	p := &Program{OpenRoot: o.OpenRoot}
	names := []string{"a", "b", "d", "d/a", "d/b", "e", "e/a"}
	for _, d := range []string{"d", "e"} {
		if !vt.Chance(rt, 4, "no dir") {
			p.Dirs = append(p.Dirs, d)
		}
	}
	linked := map[string]bool{}
	if vt.Chance(rt, 3, "linked") {
		for _, l := range []string{"b", "a"}[:1+vt.Pick(rt, 2, "links")] {
			linked[l] = true
			p.Links = append(p.Links, [2]string{l, vt.Of(rt, "to", "d", "d", "e", "e", "d/a", "a")})
			names = append(names, l, l+"/a", l+"/b")
		}
	}
	for _, f := range names {
		if linked[f] || linked[strings.Split(f, "/")[0]] {
			continue
		}
		if (f == "a" || f == "b" || strings.Contains(f, "/")) && vt.Chance(rt, 2, "file") {
			if d, _, ok := strings.Cut(f, "/"); ok && !contains(p.Dirs, d) {
				continue
			}
			p.Files = append(p.Files, f)
		}
	}
	if !o.NoShared && len(p.Files) > 0 {
		for range vt.Pick(rt, 3, "shared") {
			p.Shared = append(p.Shared, Call{Kind: "open", P: p.Files[vt.Pick(rt, len(p.Files), "of")], Flag: vt.Of(rt, "flag", os.O_RDWR, os.O_RDWR, os.O_RDWR|os.O_APPEND, os.O_RDONLY)})
		}
	}
	kinds := o.Kinds
	if kinds == nil {
		kinds = []string{"open", "open", "open", "write", "write", "read", "readat", "writeat", "truncate", "seek", "fstat", "close", "mkdir", "remove", "removeall", "rename", "rename", "link", "symlink", "stat", "lstat", "readlink", "list", "mkdirall", "chmod", "chtimes", "chown", "flist", "fchmod"}
		if o.OpenRoot != nil {
			kinds = append(kinds, "openroot")
		}
	}
	name := func(w string) string { return names[vt.Pick(rt, len(names), w)] }
	below := o.OpenRoot != nil && contains(p.Dirs, "d") && vt.Chance(rt, 2, "sub-root")
	for i := range 2 + vt.Pick(rt, o.Routines-1, "routines") {
		var cs []Call
		opened := false
		for j := range 1 + vt.Pick(rt, o.Calls, "calls") {
			c := Call{Kind: kinds[vt.Pick(rt, len(kinds), "call")]}
			c.H = -1
			if below && vt.Chance(rt, 3, "below") {
				c.Sub = true
			}
			if len(p.Shared) > 0 && vt.Chance(rt, 2, "use shared") {
				c.H = vt.Pick(rt, len(p.Shared), "handle")
			}
			list := c.Kind == "list"
			if list {
				c.Kind = "open"
			}
			switch c.Kind {
			case "open":
				if opened {
					// to let go of the last one is a call of its own
					cs = append(cs, Call{Kind: "close", H: -1})
				}
				opened = true
				if list {
					cs = append(cs, Call{Kind: "open", H: -1, P: name("p"), Sub: c.Sub})
					c = Call{Kind: "flist", H: -1}
					break
				}
				c.P, c.H = name("p"), -1
				c.Flag = vt.Of(rt, "flag", os.O_RDONLY, os.O_RDWR|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.O_RDWR|os.O_CREATE, os.O_RDWR|os.O_CREATE|os.O_APPEND, os.O_RDWR|os.O_TRUNC)
			case "write", "writeat":
				c.Data = strings.Repeat(string(rune('A'+i*4+j)), 1+vt.Pick(rt, 4, "n"))
				c.Off = int64(vt.Pick(rt, 5, "off"))
			case "read", "readat":
				c.N = 1 + vt.Pick(rt, 8, "n")
				c.Off = int64(vt.Pick(rt, 5, "off"))
			case "truncate", "seek":
				c.Off = int64(vt.Pick(rt, 5, "off"))
			case "flist", "fstat", "close":
			case "fchmod", "chmod":
				c.N = []int{0o644, 0o600, 0o755, 0o777}[vt.Pick(rt, 4, "mode")]
				if c.Kind == "chmod" {
					c.P = name("p")
				}
			case "rename", "link":
				c.P, c.Q = name("p"), name("q")
			case "symlink":
				c.P, c.Q = vt.Of(rt, "to", "a", "d", "d/a", "e", "nowhere"), name("q")
			case "chtimes":
				c.P, c.N = name("p"), 1+i*100+j
			default:
				c.P = name("p")
			}
			cs = append(cs, c)
		}
		p.Routines = append(p.Routines, cs)
	}
	return p
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// run is one execution of a program.
type run struct {
	fsys   FS
	sub    FS
	root   func(fsys FS, name string) (FS, error)
	shared []vroot.File
	own    []vroot.File
}

func (p *Program) start(fsys FS) (*run, error) {
	r := &run{fsys: fsys, root: p.OpenRoot, own: make([]vroot.File, len(p.Routines))}
	dirs, files := p.Dirs, p.Files
	if p.Given {
		dirs, files = nil, nil
	}
	for _, d := range dirs {
		if err := fsys.Mkdir(d, 0o777); err != nil {
			return nil, err
		}
	}
	for _, l := range p.Links {
		if p.Given {
			break
		}
		if err := fsys.Symlink(l[1], l[0]); err != nil {
			return nil, err
		}
	}
	for i, f := range files {
		if err := vroot.WriteFile(fsys, f, []byte(strings.Repeat(string(rune('a'+i)), 3)), 0o666); err != nil {
			return nil, err
		}
	}
	if p.OpenRoot != nil && contains(p.Dirs, "d") {
		s, err := p.OpenRoot(fsys, "d")
		if err != nil {
			return nil, err
		}
		r.sub = s
	}
	for _, c := range p.Shared {
		f, err := fsys.OpenFile(c.P, c.Flag, 0o666)
		if err != nil {
			return nil, err
		}
		r.shared = append(r.shared, f)
	}
	return r, nil
}

func (r *run) closeAll() {
	for _, f := range append(r.shared, r.own...) {
		if f != nil {
			_ = f.Close()
		}
	}
	if r.sub != nil {
		_ = r.sub.Close()
	}
}

func short(err error) string { return Class(err) }

// do makes one call and tells what came of it.
func (r *run) do(g int, c Call) string {
	var f vroot.File
	fsys := r.fsys
	if c.Sub {
		fsys = r.sub
	}
	switch c.Kind {
	case "read", "readat", "write", "writeat", "truncate", "seek", "close", "fstat", "flist", "fchmod":
		if c.H >= 0 {
			f = r.shared[c.H]
		} else if f = r.own[g]; f == nil {
			return "no handle"
		}
	}
	switch c.Kind {
	case "open":
		n, err := fsys.OpenFile(c.P, c.Flag, 0o666)
		if err != nil {
			return short(err)
		}
		if o := r.own[g]; o != nil {
			_ = o.Close()
		}
		r.own[g] = n
		return "ok"
	case "read":
		b := make([]byte, c.N)
		n, err := f.Read(b)
		return fmt.Sprintf("%q %s", b[:n], short(err))
	case "readat":
		b := make([]byte, c.N)
		n, err := f.ReadAt(b, c.Off)
		return fmt.Sprintf("%q %s", b[:n], short(err))
	case "write":
		n, err := f.Write([]byte(c.Data))
		return fmt.Sprintf("%d %s", n, short(err))
	case "writeat":
		n, err := f.WriteAt([]byte(c.Data), c.Off)
		return fmt.Sprintf("%d %s", n, short(err))
	case "truncate":
		return short(f.Truncate(c.Off))
	case "seek":
		n, err := f.Seek(c.Off, io.SeekStart)
		return fmt.Sprintf("%d %s", n, short(err))
	case "close":
		if c.H >= 0 {
			return "kept"
		}
		r.own[g] = nil
		return short(f.Close())
	case "fstat":
		fi, err := f.Stat()
		if err != nil {
			return short(err)
		}
		if fi.IsDir() {
			return fi.Mode().String()
		}
		return fmt.Sprintf("%v %d", fi.Mode(), fi.Size())
	case "fchmod":
		return short(f.Chmod(fs.FileMode(c.N)))
	case "flist":
		ns, err := f.Readdirnames(-1)
		sort.Strings(ns)
		return fmt.Sprintf("%v %s", ns, short(err))
	case "mkdir":
		return short(fsys.Mkdir(c.P, 0o755))
	case "mkdirall":
		return short(fsys.MkdirAll(c.P, 0o755))
	case "remove":
		return short(fsys.Remove(c.P))
	case "removeall":
		return short(fsys.RemoveAll(c.P))
	case "rename":
		return short(fsys.Rename(c.P, c.Q))
	case "link":
		return short(fsys.Link(c.P, c.Q))
	case "symlink":
		return short(fsys.Symlink(c.P, c.Q))
	case "chtimes":
		return short(fsys.Chtimes(c.P, Fine(int64(c.N)), Fine(int64(c.N))))
	case "chown":
		return short(fsys.Chown(c.P, os.Getuid(), os.Getgid()))
	case "openroot":
		s, err := r.root(fsys, c.P)
		if err != nil {
			return short(err)
		}
		_ = s.Close()
		return "ok"
	case "chmod":
		return short(fsys.Chmod(c.P, fs.FileMode(c.N)))
	case "stat", "lstat":
		get := fsys.Stat
		if c.Kind == "lstat" {
			get = fsys.Lstat
		}
		fi, err := get(c.P)
		if err != nil {
			return short(err)
		}
		if !fi.Mode().IsRegular() {
			return fi.Mode().String()
		}
		return fmt.Sprintf("%v %d", fi.Mode(), fi.Size())
	case "readlink":
		t, err := fsys.ReadLink(c.P)
		return t + " " + short(err)
	}
	panic("VT-ENV no call " + c.Kind)
}

// Done is a call that was made, with its outcome and when it was.
type Done struct {
	G          int
	Call       Call
	Out        string
	Start, End int64
}

// Concurrent runs the program with its goroutines side by side.
func (p *Program) Concurrent(fsys FS) ([]Done, Tree, error) {
	r, err := p.start(fsys)
	if err != nil {
		return nil, nil, fmt.Errorf("VT-ENV set-up: %w", err)
	}
	defer r.closeAll()
	var clock, ready atomic.Int64
	var wg sync.WaitGroup
	outs := make([][]Done, len(p.Routines))
	n := int64(len(p.Routines))
	for g, cs := range p.Routines {
		wg.Go(func() {
			ready.Add(1)
			for i := 0; ready.Load() < n; i++ {
				if i > 1000 {
					runtime.Gosched()
				}
			}
			for _, c := range cs {
				d := Done{G: g, Call: c, Start: clock.Add(1)}
				d.Out = r.do(g, c)
				d.End = clock.Add(1)
				outs[g] = append(outs[g], d)
			}
		})
	}
	wg.Wait()
	var all []Done
	for _, o := range outs {
		all = append(all, o...)
	}
	t, err := p.snap(fsys)
	if err != nil {
		return all, nil, fmt.Errorf("the tree afterwards: %w", err)
	}
	return all, t, nil
}

// snap leaves out the times if a handle may have changed one: it does so after
// it changed the bytes.
func (p *Program) snap(fsys FS) (Tree, error) {
	t, err := Snap(fsys)
	if err != nil {
		return nil, err
	}
	for _, cs := range p.Routines {
		for _, c := range cs {
			if c.Kind == "write" || c.Kind == "writeat" || c.Kind == "truncate" {
				for q, n := range t {
					n.Mtime = 0
					t[q] = n
				}
				return t, nil
			}
		}
	}
	return t, nil
}

// Explain finds an order of the calls, each goroutine's own and that of calls
// that did not overlap kept, in which a file system used by one goroutine gives
// the same outcomes and leaves the same tree. tries bounds the search; known is
// false if it ran out.
func (p *Program) Explain(fresh func() (FS, func()), done []Done, tree Tree, tries int, same func(c Call, got, want string) bool) (ok, known bool, best string) {
	byG := make([][]Done, len(p.Routines))
	for _, d := range done {
		byG[d.G] = append(byG[d.G], d)
	}
	var order []Done
	bestLen := -1
	left := tries
	pos := make([]int, len(byG))
	var search func() bool
	// replay runs order anew and tells whether its last call came out the same.
	replay := func(final bool) (bool, string) {
		left--
		fsys, end := fresh()
		defer end()
		r, err := p.start(fsys)
		if err != nil {
			panic("VT-ENV set-up: " + err.Error())
		}
		defer r.closeAll()
		out := ""
		for _, d := range order {
			out = r.do(d.G, d.Call)
		}
		if len(order) > 0 {
			last := order[len(order)-1]
			if out != last.Out && (same == nil || !same(last.Call, last.Out, out)) {
				return false, fmt.Sprintf("%v gives %s, gave %s", last.Call, out, last.Out)
			}
		}
		if final {
			t, err := p.snap(fsys)
			if err != nil {
				return false, err.Error()
			}
			if d := tree.Diff(t); d != "" {
				return false, "the tree is\n" + d
			}
		}
		return true, ""
	}
	search = func() bool {
		if len(order) == len(done) {
			return true
		}
		for g := range byG {
			if pos[g] == len(byG[g]) {
				continue
			}
			d := byG[g][pos[g]]
			early := true
			for h := range byG {
				if h != g && pos[h] < len(byG[h]) && byG[h][pos[h]].End < d.Start {
					early = false
				}
			}
			if !early {
				continue
			}
			if left <= 0 {
				return false
			}
			order = append(order, d)
			pos[g]++
			fits, why := replay(len(order) == len(done))
			if fits && search() {
				return true
			}
			if len(order) > bestLen && !fits {
				bestLen = len(order)
				var b strings.Builder
				for _, o := range order {
					fmt.Fprintf(&b, "    %d: %v = %s\n", o.G, o.Call, o.Out)
				}
				best = b.String() + "    but then " + why
			}
			pos[g]--
			order = order[:len(order)-1]
		}
		return false
	}
	ok = search()
	return ok, ok || left > 0, best
}
