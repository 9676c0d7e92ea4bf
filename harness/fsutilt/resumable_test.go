package fsutilt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/vt"
)

type resOpt = fsutil.ResumableCopyOption[*fsx.FS, vroot.File]

// version is one state of the remote content. Its bytes name it, so that any mix
// of two versions shows.
type version struct {
	etag string
	data string
}

func makeVersions(rt *rapid.T, mode string) []version {
	n := vt.From(rt, []int{2, 1, 2, 3, 4}, "versions")
	if mode != "etag" && mode != "told" {
		n = 1
	}
	var out []version
	same := rapid.Bool().Draw(rt, "sameSize")
	size := 0
	for i := range n {
		if i == 0 || !same {
			size = vt.From(rt, []int{40, 7, 0, 1, 2, 40, 300, 5000}, "vsize")
			if vt.Chance(rt, 60, "big") {
				size = vt.BigSize(rt)
			}
		}
		if size > 5000 {
			out = append(out, version{fmt.Sprintf("etag-%c", 'A'+i), vt.Text(i, size)})
			continue
		}
		var b strings.Builder
		for j := 0; b.Len() < size; j++ {
			fmt.Fprintf(&b, "%c%d,", 'A'+i, j)
		}
		out = append(out, version{fmt.Sprintf("etag-%c", 'A'+i), b.String()[:size]})
	}
	return out
}

// remote is a ResumableSource over the current version.
type remote struct {
	versions  []version
	cur       int
	mode      string
	noEtag    bool // this time it does not say
	noSize    bool
	chunk     int
	openErr   error
	failAfter int // bytes before the read fails; -1 never
	readErr   error
	shortAt   int // clean but early end after that many bytes; -1 never
	cancelAt  int
	cancel    func()
	flip      int // switches to this version after the first Open; -1 never
	reopenErr error
	long      string // what is served past the declared size
	lastEtag  string // what the last Open told

	opens  []int64
	open   int
	served int
}

func (r *remote) Open(ctx context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	r.opens = append(r.opens, off)
	if r.openErr != nil {
		return nil, fsutil.ContentInfo{}, r.openErr
	}
	if r.reopenErr != nil && len(r.opens) > 1 {
		return nil, fsutil.ContentInfo{}, r.reopenErr
	}
	v := r.versions[r.cur]
	info := fsutil.ContentInfo{ETag: v.etag, Size: int64(len(v.data))}
	if r.mode == "noetag" || r.mode == "told" || r.noEtag {
		info.ETag = ""
	}
	if r.noSize {
		info.Size = -1
	}
	r.lastEtag = info.ETag
	data := v.data[min(int(off), len(v.data)):] + r.long
	if r.flip >= 0 && len(r.opens) == 1 {
		r.cur = r.flip
	}
	r.open++
	return &remoteReader{r: r, data: data}, info, nil
}

type remoteReader struct {
	r      *remote
	data   string
	n      int
	closed bool
}

func (x *remoteReader) Read(p []byte) (int, error) {
	if x.closed {
		return 0, errors.New("read after close")
	}
	if x.r.failAfter >= 0 && x.n >= x.r.failAfter {
		return 0, x.r.readErr
	}
	if x.r.shortAt >= 0 && x.n >= x.r.shortAt {
		return 0, io.EOF
	}
	if x.r.cancelAt >= 0 && x.n >= x.r.cancelAt {
		x.r.cancel()
	}
	if x.n == len(x.data) {
		return 0, io.EOF
	}
	n := min(len(p), x.r.chunk, len(x.data)-x.n)
	for _, lim := range []int{x.r.failAfter, x.r.shortAt} {
		if lim >= 0 {
			n = min(n, lim-x.n)
		}
	}
	n = copy(p, x.data[x.n:x.n+n])
	x.n += n
	x.r.served += n
	if x.n == len(x.data) && x.r.chunk%2 == 1 && x.r.failAfter < 0 {
		return n, io.EOF // the last bytes come with the end
	}
	return n, nil
}

func (x *remoteReader) Close() error {
	if !x.closed {
		x.closed = true
		x.r.open--
	}
	return nil
}

func readOr(dir, name string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(dir, name))
	return string(b), err == nil
}

// fault plan shared by both directions: which file-system call fails, and how.
type fsPlan struct {
	k       int
	err     error
	crash   bool
	after   bool
	partial int

	n       int
	hit     *fsx.Op
	crashed bool
}

// sampled uniformly, where an integer range would favour its small end
var upTo18 = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}

func genPlan(rt *rapid.T) *fsPlan {
	p := &fsPlan{k: -1}
	if rapid.Bool().Draw(rt, "fsFault") {
		p.k = vt.From(rt, upTo18, "k")
		p.crash = rapid.Bool().Draw(rt, "crash")
		p.err = fsx.Vary(rt, fsx.ErrInjected)
		p.after = vt.Int(rt, 0, 2, "after") == 0
		p.partial = vt.From(rt, []int{0, 1, 4, 4, 100}, "partial")
	}
	return p
}

func (p *fsPlan) hook(o fsx.Op) fsx.Verdict {
	if p.crashed {
		return fsx.Verdict{Err: fsx.ErrCrash}
	}
	p.n++
	if p.n-1 != p.k {
		return fsx.Verdict{}
	}
	p.hit = &o
	p.crashed = p.crash
	err := p.err
	if p.crash {
		err = fsx.ErrCrash
	}
	return fsx.Verdict{Err: err, After: p.after, Partial: p.partial}
}

func TestC09_Pull(t *testing.T) {
	vt.Check(t, vt.N(8000, 60000), "a history of pulls of one name from a source whose content moves between versions (each with its own etag), or never changes and has none, with source errors, early ends, cancellation, failing hooks, file-system faults and crashes in between; after every pull the destination is absent or exactly one whole version, and at the end a pull without faults completes; non-trivial = a later pull found a part file", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		mode := vt.From(rt, []string{"etag", "etag", "etag", "noetag", "mixed", "told"}, "mode")
		vs := makeVersions(rt, mode)
		src := &remote{versions: vs, mode: mode}
		const name = "F"
		suffix := vt.From(rt, []string{"", ".wip"}, "suffix")
		part := name + ".part"
		if suffix != "" {
			part = name + suffix
		}
		steps := vt.From(rt, []int{3, 4, 5, 6}, "steps")
		c.Log("mode=%s versions=%v", mode, lens(vs))
		for step := 0; ; step++ {
			last := step == steps
			if vt.Int(rt, 0, 3, "move") == 0 {
				src.cur = vt.Int(rt, 0, len(vs)-1, "cur")
			}
			if _, ok := readOr(dir, name); ok && (last || rapid.Bool().Draw(rt, "drop")) {
				_ = os.Remove(filepath.Join(dir, name))
			}
			fsys, err := fsx.New(dir)
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			startVersion := vs[src.cur]
			oldFinal, hadFinal := readOr(dir, name)
			oldPart, hadPart := readOr(dir, part)
			sidecar, _ := readOr(dir, part+".etag")
			ctx, cancel := context.WithCancel(context.Background())
			*src = remote{versions: vs, cur: src.cur, mode: mode, chunk: vt.From(rt, []int{1, 2, 3, 64, 4096}, "chunk"), failAfter: -1, shortAt: -1, cancelAt: -1, cancel: cancel, flip: -1}
			if len(startVersion.data) > 500 {
				src.chunk = max(src.chunk, 63)
			}
			if len(src.versions[src.cur].data) > 5000 {
				src.chunk = vt.From(rt, []int{4095, 32768, 65537, 1 << 20}, "big chunk")
			}
			src.noEtag = mode == "mixed" && rapid.Bool().Draw(rt, "noEtag")
			src.noSize = vt.Int(rt, 0, 3, "noSize") == 0
			expected := fsutil.ContentInfo{Size: -1}
			if rapid.Bool().Draw(rt, "knowSize") {
				expected.Size = int64(len(startVersion.data))
			}
			// a source that never says which version it serves needs to be told
			if mode == "told" || mode != "noetag" && rapid.Bool().Draw(rt, "knowEtag") {
				expected.ETag = startVersion.etag
			}
			opt := resOpt{PartSuffix: suffix, BufSize: vt.From(rt, []int{0, 1, 5, 1000}, "buf")}
			if len(startVersion.data) > 500 && opt.BufSize > 0 {
				opt.BufSize = max(opt.BufSize, 100)
			}
			plan := &fsPlan{k: -1}
			fault, stale := "none", false
			errHook := errors.New("hook failed")
			failHook := false
			var hooked []string
			opt.PreCommitHooks = []func(vroot.File, string) error{
				func(f vroot.File, p string) error {
					b, err := io.ReadAll(f)
					hooked = append(hooked, string(b))
					if failHook {
						return errHook
					}
					return err
				},
				func(f vroot.File, p string) error {
					b, err := io.ReadAll(f)
					hooked = append(hooked, string(b))
					return err
				},
			}
			if !last {
				plan = genPlan(rt)
				n := len(startVersion.data)
				fault = vt.From(rt, []string{"none", "none", "open", "read", "read", "read", "short", "cancel", "hook", "flip", "stale etag", "wrong size", "reopen", "long"}, "fault")
				switch fault {
				case "open":
					src.openErr = fsx.Vary(rt, errSource, fs.ErrNotExist)
				case "read":
					src.failAfter, src.readErr = vt.Int(rt, 0, n, "failAfter"), fsx.Vary(rt, errSource)
				case "short":
					// an early end can only be told where a size is known
					if src.noSize && expected.Size < 0 || n == 0 {
						fault = "none"
					} else {
						src.shortAt = vt.Int(rt, 0, n-1, "shortAt")
					}
				case "cancel":
					src.cancelAt = vt.Int(rt, 0, n, "cancelAt")
				case "hook":
					failHook = true
				case "flip":
					if mode == "told" {
						fault = "none"
						break
					}
					src.flip = vt.Int(rt, 0, len(vs)-1, "flip")
				case "stale etag":
					if mode == "etag" && len(vs) > 1 {
						expected.ETag = vs[(src.cur+1)%len(vs)].etag
						stale = true
					}
				case "reopen":
					src.reopenErr = fsx.Vary(rt, errSource, fs.ErrNotExist)
				case "long":
					if src.noSize && expected.Size < 0 {
						fault = "none"
					} else {
						src.long = "ZZ"
					}
				case "wrong size":
					if mode == "etag" {
						expected.Size = int64(n + vt.From(rt, []int{1, -1, -n}, "by"))
						if n == 0 {
							expected.Size = 1
						}
					}
				}
			}
			if mode == "noetag" && expected.Size >= 0 && fault == "none" && vt.Int(rt, 0, 3, "junk") == 3 {
				// an oversized part of whatever origin
				oldPart, hadPart, sidecar = strings.Repeat("j", len(startVersion.data)+1), true, ""
				_ = os.Remove(filepath.Join(dir, part+".etag"))
				if err := os.WriteFile(filepath.Join(dir, part), []byte(oldPart), 0o644); err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
				c.Label("oversized part")
			}
			if len(oldPart) > len(startVersion.data) && (expected.Size < 0 || fault == "wrong size") {
				// that a part is too long shows only against a known size
				src.noSize = false
			}
			fsys.SetHook(plan.hook)
			perr := opt.Pull(ctx, fsys, name, src, expected, 0o644)
			cancel()
			fsys.SetHook(nil)
			final, ok := readOr(dir, name)
			newPart, hasPart := readOr(dir, part)
			what := fmt.Sprintf("step %d: Pull(%+v) with %s, fs fault %v crash=%v after=%v, of version %s (flip %d, noEtag=%v noSize=%v), part before: %v %d bytes, sidecar %q; opens %v; err=%v; final now: %v %q", step, expected, fault, plan.hit, plan.crash, plan.after, startVersion.etag, src.flip, src.noEtag, src.noSize, hadPart, len(oldPart), sidecar, src.opens, perr, ok, clipS(final))
			c.Log("%s", what)
			c.Label("fault %s", fault)
			if hadPart && len(oldPart) > 0 {
				c.NonTrivial()
				c.Label("found a part file")
			}
			if src.open != 0 {
				rt.Fatalf("%s\n%d source readers left open", what, src.open)
			}
			if h := fsys.OpenHandles(); len(h) > 0 && !plan.crashed {
				rt.Fatalf("%s\nleft open %v", what, h)
			}
			fsys.Close()
			if hadFinal {
				if !ok || final != oldFinal {
					rt.Fatalf("%s\na file already there was changed", what)
				}
				if plan.hit == nil {
					wrong := expected.Size >= 0 && expected.Size != int64(len(oldFinal))
					if wrong != errors.Is(perr, fsutil.ErrSizeMismatch) || (perr != nil) != wrong || len(src.opens) > 0 {
						rt.Fatalf("%s\nwant the file there taken as complete if its size fits, without asking the source", what)
					}
				}
				continue
			}
			if ok {
				whole := false
				for _, v := range vs {
					if v.data == final && (expected.ETag == "" || v.etag == expected.ETag) {
						whole = true
					}
				}
				if !whole {
					rt.Fatalf("%s\nthe destination is not a whole version: %q", what, final)
				}
				if expected.Size >= 0 && int64(len(final)) != expected.Size {
					rt.Fatalf("%s\nthe destination is not of the expected size", what)
				}
			}
			if perr == nil {
				if !ok {
					rt.Fatalf("%s\nsucceeded without the file", what)
				}
				for i, h := range hooked {
					if h != final {
						rt.Fatalf("%s\nhook %d read %q", what, i, clipS(h))
					}
				}
				if len(hooked) != 2 {
					rt.Fatalf("%s\n%d hooks ran", what, len(hooked))
				}
				if failHook || src.openErr != nil {
					rt.Fatalf("%s\na failure was swallowed", what)
				}
				if hasPart {
					rt.Fatalf("%s\nthe part file is still there", what)
				}
				// only tidying up after the rename may fail unnoticed
				if plan.hit != nil && !plan.crashed && !strings.HasPrefix(plan.hit.Path, part+".etag") {
					rt.Fatalf("%s\na failure was swallowed", what)
				}
				if plan.hit != nil && plan.hit.Path == part+".etag" && plan.hit.Kind != "Remove" && plan.hit.Kind != "File.Close" {
					rt.Fatalf("%s\na failure was swallowed", what)
				}
			} else if ok && !(plan.hit != nil && plan.hit.Kind == "Rename") && !plan.crashed {
				rt.Fatalf("%s\nfailed and published the file", what)
			}
			if plan.hit == nil && perr != nil {
				reached := fault == "open" || fault == "read" || fault == "short" || fault == "cancel" || fault == "hook" || fault == "flip" || stale || fault == "wrong size" || fault == "reopen" && len(src.opens) > 1 || fault == "long"
				if !reached {
					rt.Fatalf("%s\nfailed though nothing went wrong", what)
				}
				switch {
				case fault == "hook":
					if perr != errHook {
						rt.Fatalf("%s\nwant the hook's own error", what)
					}
					if hasPart {
						rt.Fatalf("%s\nthe refused part file is still there", what)
					}
					if _, has := readOr(dir, part+".etag"); has {
						rt.Fatalf("%s\nthe refused part's sidecar is still there", what)
					}
				case fault == "open" || fault == "read":
					if !errors.Is(perr, errSource) {
						rt.Fatalf("%s\nwant the source's error", what)
					}
				case fault == "reopen":
					if !errors.Is(perr, errSource) {
						rt.Fatalf("%s\nwant the source's error", what)
					}
				case fault == "wrong size" && !src.noSize && expected.Size >= 0 && expected.Size != int64(len(startVersion.data)):
					if !errors.Is(perr, fsutil.ErrSizeMismatch) {
						rt.Fatalf("%s\nwant ErrSizeMismatch", what)
					}
				case fault == "short":
					if !errors.Is(perr, io.ErrUnexpectedEOF) {
						rt.Fatalf("%s\nwant ErrUnexpectedEOF", what)
					}
				case fault == "cancel":
					if !errors.Is(perr, context.Canceled) {
						rt.Fatalf("%s\nwant the cancellation", what)
					}
				case stale:
					if !errors.Is(perr, fsutil.ErrContentChanged) {
						rt.Fatalf("%s\nwant ErrContentChanged", what)
					}
				}
				// an interrupted copy keeps what it got
				if (fault == "read" || fault == "short" || fault == "cancel") && src.flip < 0 {
					if want := startVersion.data[:min(len(newPart), len(startVersion.data))]; newPart != want {
						rt.Fatalf("%s\nthe part kept is %q", what, clipS(newPart))
					}
					// what is kept is known by its etag from now on
					eff := src.lastEtag
					if eff == "" {
						eff = expected.ETag
					}
					if side, _ := readOr(dir, part+".etag"); eff != "" && newPart != "" && side != eff {
						rt.Fatalf("%s\nthe part of %s is kept as %q", what, eff, side)
					}
					if trusts(mode, src, sidecar, expected, oldPart, startVersion) && len(newPart) != len(oldPart)+src.served {
						rt.Fatalf("%s\nkept %d of %d+%d bytes", what, len(newPart), len(oldPart), src.served)
					}
				}
			}
			// resuming asks for what is missing and nothing else
			if plan.hit == nil && len(src.opens) > 0 && trusts(mode, src, sidecar, expected, oldPart, startVersion) && fault != "stale etag" {
				if len(src.opens) != 1 || src.opens[0] != int64(len(oldPart)) {
					rt.Fatalf("%s\nopened the source at %v with %d bytes there", what, src.opens, len(oldPart))
				}
				c.Label("resumed")
			}
			if last {
				if perr != nil || final != startVersion.data {
					rt.Fatalf("%s\na pull without faults did not complete", what)
				}
				return
			}
		}
	})
}

// trusts tells whether the part on disk is one a pull must resume: nonempty, not
// too long, and known to be of the version served.
func trusts(mode string, src *remote, sidecar string, expected fsutil.ContentInfo, part string, v version) bool {
	if part == "" || !strings.HasPrefix(v.data, part) || src.flip >= 0 {
		return false
	}
	if expected.Size >= 0 && len(part) > int(expected.Size) {
		return false
	}
	if mode == "told" {
		return sidecar == v.etag
	}
	if mode == "noetag" || src.noEtag {
		return sidecar == "" || sidecar == v.etag
	}
	return sidecar == v.etag
}

func lens(vs []version) (out []string) {
	for _, v := range vs {
		out = append(out, fmt.Sprintf("%s:%d", v.etag, len(v.data)))
	}
	return
}

func clipS(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s…(%d)", s[:60], len(s))
	}
	return s
}

// modelSink keeps what it is sent in memory, as the interface's contract says,
// and can stop anywhere.
type modelSink struct {
	data      []byte
	etag      string
	complete  bool
	failAfter int // bytes taken before Append fails; -1 never
	appendErr error
	stateErr  error
	commitErr error
	calls     []string
	final     []byte
	appended  bool
}

func (s *modelSink) State(ctx context.Context) (fsutil.SinkState, error) {
	s.calls = append(s.calls, "state")
	if s.stateErr != nil {
		return fsutil.SinkState{}, s.stateErr
	}
	if s.complete {
		return fsutil.SinkState{Offset: int64(len(s.final)), ETag: s.etag, Complete: true}, nil
	}
	return fsutil.SinkState{Offset: int64(len(s.data)), ETag: s.etag}, nil
}

func (s *modelSink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, r io.Reader) error {
	s.calls = append(s.calls, fmt.Sprintf("append@%d", off))
	if off > int64(len(s.data)) {
		return fmt.Errorf("append at %d of %d", off, len(s.data))
	}
	s.data = s.data[:off]
	s.etag = info.ETag
	s.appended = true
	if s.failAfter >= 0 {
		b, err := io.ReadAll(io.LimitReader(r, int64(s.failAfter)))
		s.data = append(s.data, b...)
		if err == nil {
			err = s.appendErr
		}
		return err
	}
	b, err := io.ReadAll(r)
	s.data = append(s.data, b...)
	if err == nil && int64(len(s.data)) != info.Size {
		return fmt.Errorf("got %d bytes of %d", len(s.data), info.Size)
	}
	return err
}

func (s *modelSink) Commit(ctx context.Context) error {
	s.calls = append(s.calls, "commit")
	if s.commitErr != nil {
		return s.commitErr
	}
	if s.complete {
		return nil
	}
	if !s.appended {
		return errors.New("commit before anything was sent")
	}
	s.complete, s.final = true, bytes.Clone(s.data)
	return nil
}

func TestC10_Push(t *testing.T) {
	vt.Check(t, vt.N(8000, 60000), "a history of pushes of a local file that moves between versions (each with its own etag) or never changes, into a file-system sink under faults and crashes or into an in-memory sink that stops anywhere; after every push the remote file is absent or exactly one whole version, and at the end a push without faults completes; non-trivial = a later push found a partial copy", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		_, _ = os.Mkdir(filepath.Join(dir, "L"), 0o755), os.Mkdir(filepath.Join(dir, "R"), 0o755)
		mode := vt.From(rt, []string{"etag", "etag", "noetag"}, "mode")
		vs := makeVersions(rt, mode)
		useModel := vt.Int(rt, 0, 3, "modelSink") == 3
		ms := &modelSink{failAfter: -1}
		cur := 0
		steps := vt.From(rt, []int{3, 4, 5, 6, 7}, "steps")
		suffix := vt.From(rt, []string{"", ".wip"}, "suffix")
		part := "F.part"
		if suffix != "" {
			part = "F" + suffix
		}
		rdir := filepath.Join(dir, "R")
		c.Log("mode=%s versions=%v model=%v", mode, lens(vs), useModel)
		for step := 0; ; step++ {
			last := step == steps
			if vt.Int(rt, 0, 3, "move") == 0 {
				cur = vt.Int(rt, 0, len(vs)-1, "cur")
			}
			v := vs[cur]
			if err := os.WriteFile(filepath.Join(dir, "L", "src"), []byte(v.data), 0o644); err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			if last || rapid.Bool().Draw(rt, "drop") {
				_ = os.Remove(filepath.Join(rdir, "F"))
				if ms.complete {
					ms = &modelSink{failAfter: -1}
				}
			}
			lfs, err1 := fsx.New(filepath.Join(dir, "L"))
			rfs, err2 := fsx.New(rdir)
			if err1 != nil || err2 != nil {
				rt.Fatalf("VT-ENV %v %v", err1, err2)
			}
			info := fsutil.ContentInfo{Size: -1}
			if rapid.Bool().Draw(rt, "knowSize") {
				info.Size = int64(len(v.data))
			}
			if mode == "etag" {
				info.ETag = v.etag
			}
			plan, lplan := &fsPlan{k: -1}, &fsPlan{k: -1}
			ctx, cancel := context.WithCancel(context.Background())
			*ms = modelSink{data: ms.data, etag: ms.etag, complete: ms.complete, final: ms.final, appended: ms.appended, failAfter: -1}
			fault := "none"
			if !last {
				plan = genPlan(rt)
				if vt.Int(rt, 0, 3, "localFault") == 0 {
					lplan = genPlan(rt)
					lplan.crash = false
				}
				faults := []string{"none", "none", "append", "append", "cancel", "wrong size", "grow"}
				if useModel {
					faults = []string{"none", "none", "cancel", "append", "append", "append", "state", "commit", "wrong size", "grow"}
				}
				fault = vt.From(rt, faults, "fault")
				switch fault {
				case "cancel":
					cancel()
				case "append":
					ms.failAfter, ms.appendErr = vt.Int(rt, 0, len(v.data), "failAfter"), fsx.Vary(rt, errSource)
				case "state":
					ms.stateErr = fsx.Vary(rt, errSource, fs.ErrNotExist)
				case "commit":
					ms.commitErr = fsx.Vary(rt, errSource, fs.ErrNotExist, fs.ErrExist)
				case "wrong size":
					info.Size = int64(len(v.data) + vt.From(rt, []int{1, -1, -len(v.data)}, "by"))
					if len(v.data) == 0 {
						info.Size = 1
					}
				}
			}
			if mode == "noetag" && fault == "none" && vt.Int(rt, 0, 3, "junk") == 3 {
				// an over-long copy of whatever origin
				junk := strings.Repeat("j", len(v.data)+1)
				if useModel && !ms.complete {
					ms.data, ms.etag = []byte(junk), ""
				} else if !useModel {
					_ = os.Remove(filepath.Join(rdir, part+".etag"))
					if err := os.WriteFile(filepath.Join(rdir, part), []byte(junk), 0o644); err != nil {
						rt.Fatalf("VT-ENV %v", err)
					}
				}
				c.Label("over-long partial")
			}
			before, hadBefore := readOr(rdir, part)
			sidecar, _ := readOr(rdir, part+".etag")
			oldFinal, hadFinal := readOr(rdir, "F")
			if useModel {
				before, hadBefore = string(ms.data), len(ms.data) > 0 && !ms.complete
				oldFinal, hadFinal, sidecar = string(ms.final), ms.complete, ms.etag
			}
			rfs.SetHook(plan.hook)
			grown := false
			lfs.SetHook(func(o fsx.Op) fsx.Verdict {
				if fault == "grow" && o.Kind == "File.Read" && !grown {
					// the file gets longer under the push, which has its size already
					grown = true
					if err := os.WriteFile(filepath.Join(dir, "L", "src"), []byte(v.data+"ZZZ"), 0o644); err != nil {
						fmt.Fprintln(os.Stderr, "VT-ENV", err)
					}
				}
				return lplan.hook(o)
			})
			var sink fsutil.ResumableSink
			if useModel {
				sink = ms
			} else {
				fsink := fsutil.NewFsSink[*fsx.FS, vroot.File](rfs, "F", 0o644)
				fsink.PartSuffix = suffix
				sink = fsink
			}
			rec := &recSink{s: sink}
			if fault == "append" && !useModel {
				rec.cut = true
				rec.failAfter = vt.Int(rt, 0, len(v.data), "failAfter")
				rec.err = fsx.Vary(rt, errSource)
			}
			perr := resOpt{}.Push(ctx, lfs, "src", rec, info)
			cancel()
			rfs.SetHook(nil)
			lfs.SetHook(nil)
			final, ok := readOr(rdir, "F")
			if useModel {
				final, ok = string(ms.final), ms.complete
			}
			what := fmt.Sprintf("step %d: Push(%+v) of version %s (%d bytes) with %s, remote fault %v crash=%v after=%v, local fault %v; partial before: %v %d bytes, etag %q; calls %v; err=%v; remote now: %v %q", step, info, v.etag, len(v.data), fault, plan.hit, plan.crash, plan.after, lplan.hit, hadBefore, len(before), sidecar, rec.calls, perr, ok, clipS(final))
			c.Log("%s", what)
			c.Label("fault %s", fault)
			if hadBefore && len(before) > 0 {
				c.NonTrivial()
				c.Label("found a partial copy, model=%v", useModel)
			}
			if h := append(lfs.OpenHandles(), rfs.OpenHandles()...); len(h) > 0 && !plan.crashed {
				rt.Fatalf("%s\nleft open %v", what, h)
			}
			lfs.Close()
			rfs.Close()
			faulty := plan.hit != nil || lplan.hit != nil || rec.broke || useModel && (fault == "append" || fault == "state" || fault == "commit") || fault == "cancel" || fault == "wrong size"
			if hadFinal {
				if !ok || final != oldFinal {
					rt.Fatalf("%s\na committed file was changed", what)
				}
				if perr != nil && !faulty {
					rt.Fatalf("%s\nfailed on a committed file", what)
				}
				continue
			}
			if ok {
				whole := false
				for _, w := range vs {
					whole = whole || w.data == final
				}
				if !whole {
					rt.Fatalf("%s\nthe remote file is not a whole version: %q", what, final)
				}
			}
			if perr == nil {
				if !ok || final != v.data {
					rt.Fatalf("%s\nsucceeded with the wrong remote file", what)
				}
				if fault == "wrong size" {
					rt.Fatalf("%s\nwant ErrSizeMismatch", what)
				}
				if fault == "cancel" && rec.sent > 0 {
					rt.Fatalf("%s\ncancelled before it began and sent %d bytes all the same", what, rec.sent)
				}
				if lplan.hit != nil && lplan.hit.Kind != "File.Close" || useModel && (fault == "state" || fault == "commit") {
					rt.Fatalf("%s\na failure was swallowed", what)
				}
				if plan.hit != nil && !useModel && (plan.hit.Kind != "File.Close" || plan.hit.Path == part) && plan.hit.Kind != "Remove" {
					rt.Fatalf("%s\na failure was swallowed", what)
				}
			} else {
				if !faulty {
					rt.Fatalf("%s\nfailed though nothing went wrong", what)
				}
				if fault == "wrong size" && plan.hit == nil && lplan.hit == nil {
					if !errors.Is(perr, fsutil.ErrSizeMismatch) || len(rec.calls) > 0 {
						rt.Fatalf("%s\nwant ErrSizeMismatch before the sink is asked", what)
					}
				}
			}
			if plan.crash && plan.hit != nil && hadBefore && before != "" && sidecar != "" {
				if now, _ := readOr(rdir, part+".etag"); !useModel && now == "" {
					if b, ok := readOr(rdir, part); ok && b != "" {
						c.Label("crash left data without its etag")
					}
				}
			}
			// a partial copy of the same version is resumed where it ends
			if !faulty && hadBefore && strings.HasPrefix(v.data, before) && before != "" && sidecar == info.ETag {
				for _, off := range rec.offs {
					if off != int64(len(before)) {
						rt.Fatalf("%s\nsent from %d with %d bytes there", what, off, len(before))
					}
				}
				if rec.sent != len(v.data)-len(before) {
					rt.Fatalf("%s\nsent %d bytes again or too few", what, rec.sent)
				}
				c.Label("resumed")
			}
			if last {
				if perr != nil {
					rt.Fatalf("%s\na push without faults did not complete", what)
				}
				// committing again changes nothing
				if err := rec.s.Commit(context.Background()); err != nil && useModel {
					rt.Fatalf("%s\n%v", what, err)
				}
				return
			}
		}
	})
}

// recSink records what a sink is asked.
type recSink struct {
	s     fsutil.ResumableSink
	calls []string
	offs  []int64
	sent  int

	cut       bool // the way to the sink breaks after failAfter bytes
	failAfter int
	err       error
	broke     bool
}

func (r *recSink) State(ctx context.Context) (fsutil.SinkState, error) {
	r.calls = append(r.calls, "state")
	return r.s.State(ctx)
}

func (r *recSink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, rd io.Reader) error {
	r.calls = append(r.calls, fmt.Sprintf("append@%d", off))
	r.offs = append(r.offs, off)
	return r.s.Append(ctx, info, off, &countReader{rd, r})
}

func (r *recSink) Commit(ctx context.Context) error {
	r.calls = append(r.calls, "commit")
	return r.s.Commit(ctx)
}

type countReader struct {
	rd io.Reader
	r  *recSink
}

func (c *countReader) Read(p []byte) (int, error) {
	if c.r.cut {
		if c.r.sent >= c.r.failAfter {
			c.r.broke = true
			return 0, c.r.err
		}
		p = p[:min(len(p), c.r.failAfter-c.r.sent)]
	}
	n, err := c.rd.Read(p)
	c.r.sent += n
	return n, err
}

var _ = fs.ErrNotExist
