package sftpt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
	"verifharness/vt"
)

func TestMain(m *testing.M) {
	syscall.Umask(0)
	os.Exit(m.Run())
}

// serve starts a server on this machine's files and gives a client of it.
func serve() (*sftp.Client, func(), error) {
	here, there := net.Pipe()
	server, err := sftp.NewServer(there)
	if err != nil {
		return nil, nil, err
	}
	var wg sync.WaitGroup
	wg.Go(func() {
		if err := server.Serve(); err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrClosedPipe) {
			fmt.Println("server:", err)
		}
		server.Close()
	})
	client, err := sftp.NewClientPipe(here, here)
	if err != nil {
		here.Close()
		return nil, nil, err
	}
	return client, func() {
		client.Close()
		here.Close()
		wg.Wait()
	}, nil
}

var shared struct {
	sync.Once
	c   *sftp.Client
	err error
}

func client(rt *rapid.T) *sftp.Client {
	shared.Do(func() { shared.c, _, shared.err = serve() })
	if shared.err != nil {
		rt.Fatalf("VT-ENV %v", shared.err)
	}
	return shared.c
}

var oneWay [2]struct {
	sync.Once
	w   *wire
	err error
}

// renames gives a client of a server that knows one way to rename only.
func renames(rt *rapid.T, posix bool) *sftp.Client {
	i := 0
	if posix {
		i = 1
	}
	o := &oneWay[i]
	o.Do(func() {
		if o.w, o.err = dial(); o.err == nil {
			o.w.arm(8, nil)
			o.w.deny = func(kind byte, ext string) bool {
				return kind == kRename && posix || ext == "posix-rename@openssh.com" && !posix
			}
		}
	})
	if o.err != nil {
		rt.Fatalf("VT-ENV %v", o.err)
	}
	return o.w.C
}

func osAt(rt *rapid.T, dir string) fsmodel.FS {
	f, err := osfs.NewFs(dir)
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	return vroot.Widen[*osfs.File](f)
}

// serverSays reports whether the classes differ only as far as a server's
// answers tell errors apart: version 3 of the protocol knows of missing files
// and refused permissions, all else is "failure".
// Which of several things wrong with a link is told first differs too.
func serverSays(op, desc, ref, sub string) bool {
	return op == "link" || sub == "other" && ref != "notexist"
}

// throughItself reports whether p passes a symlink that lies below what p leads
// to: removing that takes the way to the rest away, on a server too.
func throughItself(w *fsmodel.World, p string) bool {
	at := func(p string) string {
		d, err := w.Resolved(path.Dir(p))
		if err != nil {
			return ""
		}
		return path.Join(d, path.Base(p))
	}
	real := at(p)
	for q := path.Dir(p); q != "." && q != "/"; q = path.Dir(q) {
		if strings.HasPrefix(at(q), real+"/") {
			return true
		}
	}
	return false
}

// A directory of a server is what the directory is.
func TestC32_View(t *testing.T) {
	vt.Check(t, vt.N(2000, 20000), "one history of 5 to 34 calls through sftpfs on a server's directory and through osfs on another", func(rt *rapid.T, c *vt.Case) {
		dir, done := fsx.Scratch()
		defer done()
		// deep down, so that no link climbs past what is compared
		const deep = "1/2/3/4/5/6/7/8"
		for _, d := range []string{"ref/" + deep, "sub/" + deep} {
			for _, d2 := range []string{"base", "base2", "other"} {
				if err := os.MkdirAll(filepath.Join(dir, d, d2), 0o777); err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
			}
			for _, f := range []string{"a", "base2/a", "other/b"} {
				if err := os.WriteFile(filepath.Join(dir, d, f), []byte("beside"), 0o666); err != nil {
					rt.Fatalf("VT-ENV %v", err)
				}
			}
		}
		all := func(d string) fsmodel.Tree {
			t, err := fsmodel.SnapDir(filepath.Join(dir, d))
			if err != nil {
				rt.Fatalf("VT-ENV %v", err)
			}
			return t
		}
		base := filepath.Join(dir, "sub", deep, "base")
		if vt.Chance(rt, 3, "unclean") {
			base = vt.Of(rt, "as", base+"/", filepath.Dir(base)+"/./base", filepath.Dir(base)+"//base")
		}
		posix := vt.Chance(rt, 2, "posix")
		cl := client(rt)
		if vt.Chance(rt, 3, "one way to rename") {
			cl = renames(rt, posix)
		}
		w := &fsmodel.World{RT: rt, C: c,
			Ref: osAt(rt, filepath.Join(dir, "ref", deep, "base")), RefDir: filepath.Join(dir, "ref", deep, "base"),
			Sub: sftpfs.New(cl, posix, base),
			O: fsmodel.Opts{
				TameTargets: true, Coarse: true, CleansPaths: true, ByPath: true,
				Same: serverSays, Crowd: 2000,
				// an appending handle writes where the end was when it was opened
				// and a directory's lists what its path leads to
				Keep: func(w *fsmodel.World, p string, flag int) bool {
					real, err := w.Resolved(p)
					return flag&os.O_APPEND == 0 && err == nil && real == path.Clean(p)
				},
				Guard: func(w *fsmodel.World, op string, paths ...string) bool {
					return op != "removeall" || !throughItself(w, path.Clean(paths[0]))
				},
			},
		}
		w.Start()
		defer w.Close()
		for range 5 + vt.Pick(rt, 30, "steps") {
			w.Step()
		}
		if d := all("sub").Diff(all("ref")); d != "" {
			rt.Fatalf("beside the base:\n%s", d)
		}
		if w.Mutated >= 3 {
			c.NonTrivial()
		}
	})
}
