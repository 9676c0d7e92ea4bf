package fsx

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
)

var seq atomic.Int64

// Scratch makes a fresh directory for one case and returns how to remove it.
// Failing to make one is the sandbox's trouble, not a finding.
func Scratch() (string, func()) {
	base := os.Getenv("VT_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	dir := filepath.Join(base, fmt.Sprintf("vt-%d-%d", os.Getpid(), seq.Add(1)))
	if err := os.Mkdir(dir, 0o755); err != nil {
		fmt.Fprintf(os.Stderr, "VT-ENV: %v\n", err)
		os.Exit(3)
	}
	return dir, func() {
		if err := os.RemoveAll(dir); err != nil {
			// read-only directories a case left behind
			_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
				if d != nil && d.IsDir() {
					_ = os.Chmod(p, 0o700)
				}
				return nil
			})
			_ = os.RemoveAll(dir)
		}
	}
}
