package vroott

import (
	"fmt"
	"os"
	"syscall"
	"testing"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"pgregory.net/rapid"
	"verifharness/fsmodel"
	"verifharness/fsx"
)

func TestMain(m *testing.M) {
	syscall.Umask(0)
	os.Exit(m.Run())
}

// reference is *os.Root itself over a fresh directory.
func reference(rt *rapid.T) (*fsx.FS, string, func()) {
	dir, done := fsx.Scratch()
	if err := os.Chmod(dir, 0o777); err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	r, err := fsx.New(dir)
	if err != nil {
		rt.Fatalf("VT-ENV %v", err)
	}
	return r, dir, func() { _ = r.Close(); done() }
}

// openRoot opens a sub-root of whatever of the compared file systems it is given.
func openRoot(fsys fsmodel.FS, name string) (fsmodel.FS, error) {
	switch r := fsys.(type) {
	case *fsx.FS:
		return r.OpenRoot(name)
	case fsx.Masked:
		s, err := r.OpenRoot(name)
		if err != nil {
			return nil, err
		}
		return s, nil
	case *synthfs.Root:
		s, err := r.OpenRoot(name)
		if err != nil {
			return nil, err
		}
		return s, nil
	case rooted:
		return r.openRoot(name)
	}
	panic(fmt.Sprintf("VT-ENV no root: %T", fsys))
}

// rooted carries a root whose own type hides behind vroot.Fs[vroot.File].
type rooted struct {
	fsmodel.FS
	openRoot func(name string) (fsmodel.FS, error)
}

func asRooted[F vroot.File, R vroot.Root[F, R]](r R) fsmodel.FS {
	return rooted{vroot.Widen[F](r), func(name string) (fsmodel.FS, error) {
		s, err := r.OpenRoot(name)
		if err != nil {
			return nil, err
		}
		return asRooted[F](s), nil
	}}
}
