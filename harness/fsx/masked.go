package fsx

import (
	"io/fs"
	"os"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// Masked takes the umask from the permissions of what is made.
type Masked struct {
	*FS
	Umask fs.FileMode
}

func (m Masked) Create(name string) (vroot.File, error) {
	return m.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (m Masked) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	return m.FS.OpenFile(name, flag, perm&^m.Umask)
}

func (m Masked) Mkdir(name string, perm fs.FileMode) error { return m.FS.Mkdir(name, perm&^m.Umask) }

func (m Masked) MkdirAll(name string, perm fs.FileMode) error {
	return m.FS.MkdirAll(name, perm&^m.Umask)
}

// OpenRoot opens a sub-root, see [FS.OpenRoot].
func (m Masked) OpenRoot(name string) (Masked, error) {
	s, err := m.FS.OpenRoot(name)
	return Masked{s, m.Umask}, err
}
