package fsutilt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

type (
	swOpt    = fsutil.SafeWriteOption[*fsx.FS, vroot.File]
	swPolicy = fsutil.TempFilePolicy[*fsx.FS, vroot.File]
)

// errReader yields data and then err.
type errReader struct {
	r   io.Reader
	err error
}

func (e *errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF && e.err != nil {
		err = e.err
	}
	return n, err
}

func genName(rt *rapid.T) string {
	switch vt.Int(rt, 0, 5, "nameKind") {
	case 0, 1:
		return vt.From(rt, []string{"f", "data.json", ".hidden", "a.tmp", "x.0123456789.tmp", "sp ace", "st*r"}, "name")
	case 2:
		return strings.Repeat("n", vt.Int(rt, 236, 255, "len"))
	case 3:
		return strings.Repeat("é", vt.Int(rt, 116, 127, "runes"))
	case 4:
		return "a" + strings.Repeat("あ", vt.Int(rt, 78, 84, "runes"))
	default:
		return rapid.StringMatching(`[a-z.]{0,3}[a-z]`).Draw(rt, "name")
	}
}

func genSmallTree(rt *rapid.T, maxEnts int) fsx.Tree {
	t := fsx.Tree{".": {Mode: fs.ModeDir | 0o755}}
	dirs := []string{"."}
	n := vt.Int(rt, 0, maxEnts, "ents")
	for i := 0; i < n; i++ {
		d := vt.From(rt, dirs, "in")
		p := path.Join(d, vt.From(rt, []string{"a", "b", "c", "d.txt"}, "ent"))
		if _, ok := t[p]; ok {
			continue
		}
		if vt.Int(rt, 0, 2, "isDir") == 0 {
			t[p] = fsx.Ent{Mode: fs.ModeDir | 0o755}
			dirs = append(dirs, p)
		} else {
			t[p] = fsx.Ent{Mode: 0o644, Data: strings.Repeat("s", vt.Int(rt, 0, 20, "size"))}
		}
	}
	return t
}

func mapFS(t fsx.Tree) fstest.MapFS {
	m := fstest.MapFS{}
	for k, e := range t {
		if e.Mode&fs.ModeSymlink != 0 {
			m[k] = &fstest.MapFile{Mode: fs.ModeSymlink | 0o777, Data: []byte(e.Target)}
		} else {
			m[k] = &fstest.MapFile{Mode: e.Mode, Data: []byte(e.Data)}
		}
	}
	return m
}

var tempRandomRe = regexp.MustCompile(`^(?s:.+)\.[0-9]{10}\.tmp$`)

const ruleC05 = "an existing or absent target (file or directory, nested, long or multi-byte name), a safe write by Write, Copy or CopyFs under either temp-file policy with hooks, and one fault (any file-system call failing before or after its effect, a short write, a failing reader, writer or hook, a crash after which every call fails); the target is looked at after every mutating call; non-trivial = the fault was reached, or the write replaced an existing target"

func TestC05_SafeWrite(t *testing.T) {
	vt.Check(t, vt.N(8000, 60000), ruleC05, func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()

		method := vt.From(rt, []string{"Write", "Copy", "Copy", "CopyFs"}, "method")
		base := genName(rt)
		parent := vt.From(rt, []string{".", "D", "D/E"}, "parent")
		target := path.Join(parent, base)
		given := target
		if vt.Int(rt, 0, 3, "unclean") == 0 {
			given = "./" + parent + "//" + base
		}
		start := fsx.Tree{".": {Mode: fs.ModeDir | 0o755}, "D": {Mode: fs.ModeDir | 0o755}, "D/E": {Mode: fs.ModeDir | 0o755}, "KEEP": {Mode: 0o600, Data: "keep me"}, "D/E/keep.0123456789.tmp": {Mode: 0o600, Data: "not ours"}}
		exists := rapid.Bool().Draw(rt, "exists")
		if exists {
			if method == "CopyFs" {
				start[target] = fsx.Ent{Mode: fs.ModeDir | 0o755}
			} else {
				start[target] = fsx.Ent{Mode: 0o640, Data: "old content"}
			}
		}
		if err := fsx.Make(dir, start); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}

		var policy swPolicy
		tempHome := parent
		dirPolicy := rapid.Bool().Draw(rt, "dirPolicy")
		if dirPolicy {
			tempHome = vt.From(rt, []string{"TMP", "D/TMP", "."}, "tempDir")
			policy = fsutil.NewTempFilePolicyDir[*fsx.FS, vroot.File](tempHome)
			if tempHome != "." && rapid.Bool().Draw(rt, "tempDirExists") {
				start[tempHome] = fsx.Ent{Mode: fs.ModeDir | 0o755}
				_ = os.Mkdir(filepath.Join(dir, tempHome), 0o755)
			}
		} else if rapid.Bool().Draw(rt, "explicit") {
			policy = fsutil.NewTempFilePolicyRandom[*fsx.FS, vroot.File]()
		}
		opt := swOpt{TempFilePolicy: policy}
		opt.IgnoreCloseErr = rapid.Bool().Draw(rt, "ignoreCloseErr")

		size := vt.From(rt, []int{0, 1, 5, 1000, 70000}, "size")
		if vt.Chance(rt, 40, "big") {
			size = vt.BigSize(rt)
		}
		data := []byte(vt.Text(0, size))
		chunk := vt.From(rt, []int{1, 7, 4096, 1 << 20}, "chunk")
		if len(data) > 2000 {
			chunk = max(chunk, 4096)
		}
		perm := vt.From(rt, []fs.FileMode{0o600, 0o644, 0o666, 0o444, 0o755, 0o400}, "perm")
		srcTree := genSmallTree(rt, 5)
		newTree := func() fsx.Tree {
			if method == "CopyFs" {
				out := fsx.Tree{}
				for k, e := range srcTree {
					out[path.Join(target, k)] = e
				}
				return out
			}
			return fsx.Tree{target: {Mode: (perm | 0o200) &^ 0o022, Data: string(data)}}
		}()
		if method == "CopyFs" {
			perm = 0o755
		}

		// hooks, and where things go wrong
		errHook := fsx.Vary(rt, errors.New("hook failed"), fs.ErrNotExist, fs.ErrExist)
		errSrc := fsx.Vary(rt, errSource)
		errCall := fsx.Vary(rt, fsx.ErrInjected)
		var hookCalls []string
		failHook := ""
		hook := func(name string) func(vroot.File, string) error {
			return func(f vroot.File, p string) error {
				hookCalls = append(hookCalls, name)
				if failHook == name {
					return errHook
				}
				return nil
			}
		}
		opt.PreHooks = []func(vroot.File, string) error{hook("pre-opt")}
		opt.PostHooks = []func(vroot.File, string) error{hook("post-opt")}
		if rapid.Bool().Draw(rt, "sync") && method != "CopyFs" {
			opt.PostHooks = append(opt.PostHooks, fsutil.SyncHook[vroot.File])
		}
		fault := vt.From(rt, []string{"none", "call", "call", "call", "crash", "crash", "source", "hook"}, "fault")
		var srcErr error
		cut := len(data)
		k, partial, after := -1, 0, false
		switch fault {
		case "call", "crash":
			k = vt.Int(rt, 0, 14, "k")
			partial = vt.Int(rt, 0, 3, "partial")
			after = vt.Int(rt, 0, 3, "after") == 0
		case "source":
			srcErr = errSrc
			cut = vt.Int(rt, 0, len(data), "cut")
		case "hook":
			failHook = vt.From(rt, []string{"pre-opt", "post-opt", "pre-arg", "post-arg"}, "failHook")
		}

		before, err := fsx.Dir(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		under := func(t fsx.Tree, root string) fsx.Tree {
			out := fsx.Tree{}
			for p, e := range t {
				if p == root || strings.HasPrefix(p, root+"/") {
					out[p] = e
				}
			}
			return out
		}
		oldTree := under(before, target)
		rest := func(t fsx.Tree) fsx.Tree { // without the target and the temp files
			out := fsx.Tree{}
			for p, e := range t {
				if p == target || strings.HasPrefix(p, target+"/") {
					continue
				}
				out[p] = e
			}
			return out
		}
		isOld := func(t fsx.Tree) bool { return under(t, target).Diff(oldTree) == "" }
		isNew := func(t fsx.Tree) bool { return under(t, target).Diff(newTree) == "" }

		var calls, mutations []fsx.Op
		var hit *fsx.Op
		crashed := false
		watch := func() {
			now, err := fsx.Dir(dir)
			if err != nil {
				return
			}
			if !isOld(now) && !isNew(now) {
				rt.Fatalf("after %v the target is neither old nor new:\n%s", calls[len(calls)-1], under(now, target))
			}
		}
		fsys.Stepwise = true
		fsys.SetHook(func(o fsx.Op) fsx.Verdict {
			if crashed {
				return fsx.Verdict{Err: fsx.ErrCrash}
			}
			if len(calls) > 0 && calls[len(calls)-1].Mutate {
				watch()
			}
			calls = append(calls, o)
			if o.Mutate {
				mutations = append(mutations, o)
			}
			if len(calls)-1 == k {
				hit = &o
				if fault == "crash" {
					crashed = true
					return fsx.Verdict{Err: fsx.ErrCrash, Partial: partial, After: after}
				}
				return fsx.Verdict{Err: errCall, Partial: partial, After: after}
			}
			return fsx.Verdict{}
		})
		pre := []func(vroot.File, string) error{hook("pre-arg")}
		post := []func(vroot.File, string) error{hook("post-arg")}
		switch method {
		case "Write":
			err = opt.Write(fsys, given, func(w io.Writer) error {
				for off := 0; off < cut; off += chunk {
					if n, err := w.Write(data[off:min(off+chunk, cut)]); err != nil {
						return err
					} else if n < min(chunk, cut-off) {
						return io.ErrShortWrite
					}
				}
				return srcErr
			}, perm, pre, post)
		case "Copy":
			err = opt.Copy(fsys, given, &errReader{bytes.NewReader(data[:cut]), srcErr}, perm, pre, post)
		case "CopyFs":
			var src fs.FS = mapFS(srcTree)
			if srcErr != nil {
				src = brokenFS{src, errSrc}
			}
			err = opt.CopyFs(fsys, given, src, perm, pre, post)
		}
		fsys.SetHook(nil)
		what := fmt.Sprintf("%s(%q) dirPolicy=%v exists=%v fault=%s hit=%v after=%v err=%v", method, clip(given), dirPolicy, exists, fault, hit, after, err)
		c.Log("%s", digits.ReplaceAllString(fmt.Sprintf("%s size=%d calls=%d hooks=%v perm=%v", what, len(data), len(calls), hookCalls, perm), "##########"))
		c.Label("%s %s", method, fault)

		now, derr := fsx.Dir(dir)
		if derr != nil {
			rt.Fatalf("VT-ENV %v", derr)
		}
		// what else is there
		left := fsx.Tree{}
		for p, e := range rest(now) {
			if w, ok := before[p]; ok && w == e {
				continue
			}
			if dirPolicy && p == tempHome && e.Mode.IsDir() {
				continue
			}
			left[p] = e
		}
		for p := range rest(before) {
			if _, ok := now[p]; !ok {
				rt.Fatalf("%s: removed %s", what, p)
			}
		}
		if !crashed {
			if h := fsys.OpenHandles(); len(h) > 0 {
				rt.Fatalf("%s: left open: %v", what, h)
			}
		}
		sourceFailed := srcErr != nil
		if method == "CopyFs" && sourceFailed {
			sourceFailed = srcHasFile(srcTree)
		}
		renamed := hit != nil && hit.Kind == "Rename" && after
		if err == nil {
			if !isNew(now) {
				rt.Fatalf("%s: succeeded but the target is\n%s", what, under(now, target).Diff(newTree))
			}
			if len(left) > 0 {
				rt.Fatalf("%s: succeeded but left %v", what, left)
			}
			if want := []string{"pre-opt", "pre-arg", "post-arg", "post-opt"}; fmt.Sprint(hookCalls) != fmt.Sprint(want) {
				rt.Fatalf("%s: hooks ran as %v", what, hookCalls)
			}
			if sourceFailed || failHook != "" {
				rt.Fatalf("%s: a failure was swallowed", what)
			}
			if hit != nil {
				ignorable := hit.Kind == "File.Close" && opt.IgnoreCloseErr
				if method == "CopyFs" {
					// handles on source copies are closed on the way; only the
					// temp directory's own close may be ignored
					ignorable = ignorable && tempRandomOrDir(hit.Path)
				}
				if !ignorable {
					rt.Fatalf("%s: a failing call was swallowed", what)
				}
				c.Label("ignored close error")
			}
			if exists {
				c.NonTrivial()
				c.Label("replaced an existing target")
			}
			return
		}
		if !isOld(now) && !(renamed && isNew(now)) {
			rt.Fatalf("%s: failed and changed the target:\n%s", what, under(now, target).Diff(oldTree))
		}
		// os refuses to rename a directory onto an existing one
		occupied := method == "CopyFs" && exists && errors.Is(err, fs.ErrExist)
		if hit == nil && !sourceFailed && failHook == "" && !occupied {
			rt.Fatalf("%s: failed though nothing went wrong", what)
		}
		switch {
		case occupied:
			c.Label("target directory occupied")
		case fault == "source":
			if !errors.Is(err, errSrc) {
				rt.Fatalf("%s: want the source's error", what)
			}
		case fault == "hook":
			if !errors.Is(err, errHook) {
				rt.Fatalf("%s: want the hook's error", what)
			}
		default:
			if !errors.Is(err, fsx.ErrInjected) {
				rt.Fatalf("%s: want the injected error", what)
			}
		}
		c.NonTrivial()
		if crashed {
			// what a crash leaves is recognised as ours, and the policy's cleanup
			// removes it and nothing else
			tops := map[string]bool{}
			for p := range left {
				top := p
				for path.Dir(top) != tempHome && path.Dir(top) != "." {
					top = path.Dir(top)
				}
				tops[top] = true
			}
			pol := policy
			if pol == nil {
				pol = fsutil.NewTempFilePolicyRandom[*fsx.FS, vroot.File]()
			}
			for p := range tops {
				if path.Dir(p) != tempHome || !pol.Match(filepath.FromSlash(p)) {
					rt.Fatalf("%s: a crash left %s, which the policy does not recognise", what, p)
				}
				c.Label("crash left a temp file")
			}
			if err := fs.WalkDir(os.DirFS(dir), ".", func(p string, d fs.DirEntry, err error) error {
				return pol.WalkFunc(fsys, p, d, err)
			}); err != nil {
				rt.Fatalf("%s: cleanup: %v", what, err)
			}
			cleaned, _ := fsx.Dir(dir)
			for p := range left {
				if _, ok := cleaned[p]; ok {
					rt.Fatalf("%s: cleanup kept %s", what, p)
				}
			}
			return
		}
		cleanupHit := hit != nil && hit.Kind == "Remove"
		createdThenFailed := hit != nil && hit.Kind == "OpenFile" && after && hit.Flag&os.O_CREATE != 0 ||
			hit != nil && hit.Kind == "Mkdir" && after
		if len(left) > 0 && !cleanupHit && !createdThenFailed {
			rt.Fatalf("%s: failed and left %v", what, left)
		}
	})
}

var digits = regexp.MustCompile(`[0-9]{10}`)

func tempRandomOrDir(p string) bool {
	b := path.Base(p)
	return tempRandomRe.MatchString(b) || regexp.MustCompile(`^[0-9]{10}\.tmp$`).MatchString(b)
}

func srcHasFile(t fsx.Tree) bool {
	for _, e := range t {
		if e.Mode.IsRegular() {
			return true
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s…(%d)", s[:16], len(s))
	}
	return s
}

// brokenFS lists fine and fails to open any regular file.
type brokenFS struct {
	fs.FS
	err error
}

func (b brokenFS) Open(name string) (fs.File, error) {
	f, err := b.FS.Open(name)
	if err != nil {
		return nil, err
	}
	if fi, err := f.Stat(); err == nil && fi.Mode().IsRegular() {
		_ = f.Close()
		return nil, b.err
	}
	return f, nil
}

var errSource = errors.New("source failed")

func TestC05_Concurrent(t *testing.T) {
	vt.Check(t, vt.N(150, 4000), "several goroutines safe-writing different contents (some failing half way) to one target under either policy, others reading it all the while; non-trivial = at least two successful writers", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		fsys, err := fsx.New(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		defer fsys.Close()
		writers := vt.Int(rt, 2, 5, "writers")
		rounds := vt.Int(rt, 1, 4, "rounds")
		size := vt.From(rt, []int{1, 100, 20000}, "size")
		opt := swOpt{}
		if rapid.Bool().Draw(rt, "dirPolicy") {
			opt.TempFilePolicy = fsutil.NewTempFilePolicyDir[*fsx.FS, vroot.File]("TMP")
		}
		fails := rapid.SliceOfN(rapid.IntRange(0, 3), writers*rounds, writers*rounds).Draw(rt, "fails")
		valid := map[string]bool{"": true}
		var good int
		for w := range writers {
			for r := range rounds {
				if fails[w*rounds+r] != 0 {
					valid[strings.Repeat(string(rune('A'+w*rounds+r)), size)] = true
					good++
				}
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "T"), nil, 0o600); err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		c.Log("writers=%d rounds=%d size=%d fails=%v", writers, rounds, size, fails)
		if good > 1 {
			c.NonTrivial()
		}
		errs := make(chan string, writers*rounds+8)
		var wg, rg sync.WaitGroup
		stop := make(chan struct{})
		for range 2 {
			rg.Go(func() {
				for {
					b, err := os.ReadFile(filepath.Join(dir, "T"))
					if err != nil || !valid[string(b)] {
						errs <- fmt.Sprintf("a reader saw %d bytes of no complete write, %v", len(b), err)
						return
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			})
		}
		for w := range writers {
			wg.Go(func() {
				for r := range rounds {
					data := strings.Repeat(string(rune('A'+w*rounds+r)), size)
					var srcErr error
					if fails[w*rounds+r] == 0 {
						srcErr, data = errSource, data[:size/2]
					}
					err := opt.Copy(fsys, "T", &errReader{strings.NewReader(data), srcErr}, 0o600, nil, nil)
					if !errors.Is(err, srcErr) {
						errs <- fmt.Sprintf("writer %d: %v, want %v", w, err, srcErr)
					}
				}
			})
		}
		wg.Wait()
		close(stop)
		rg.Wait()
		select {
		case e := <-errs:
			rt.Fatalf("%s", e)
		default:
		}
		now, err := fsx.Dir(dir)
		if err != nil {
			rt.Fatalf("VT-ENV %v", err)
		}
		for p := range now {
			if p != "." && p != "T" && p != "TMP" {
				rt.Fatalf("left %s", p)
			}
		}
		if good > 0 && now["T"].Data == "" {
			rt.Fatalf("successful writes left the target empty")
		}
	})
}
