package fsx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"pgregory.net/rapid"
	"verifharness/vt"
)

// identified is a fault which is also the error it stands for.
type identified struct{ root, as error }

func (e identified) Error() string   { return e.root.Error() + ": " + e.as.Error() }
func (e identified) Unwrap() []error { return []error{e.root, e.as} }

// identities are what an injected error may also be. None of them says that the
// call had nothing to do: code that takes one for success, for the end of its
// input or for a reason to go on swallows a failure.
var identities = []error{
	syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EBUSY, syscall.EMFILE, syscall.EINTR,
	fs.ErrPermission, fs.ErrInvalid, fs.ErrClosed,
	os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	io.ErrUnexpectedEOF, io.ErrShortWrite, errors.ErrUnsupported,
	fmt.Errorf("wrapped: %w", io.EOF),
}

// Vary gives the fault root another identity, and to half of the draws none.
func Vary(rt *rapid.T, root error, more ...error) error {
	i := vt.Pick(rt, 2*(len(identities)+len(more)), "identity")
	switch {
	case i < len(identities):
		return identified{root, identities[i]}
	case i < len(identities)+len(more):
		return identified{root, more[i-len(identities)]}
	}
	return root
}
