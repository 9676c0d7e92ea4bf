From 7400a422c2e4c32e0285958510e5579a32c747fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/73] fix: name the failing reader in MultiReadError from
 Read

Read built the error from r.idx, which does not move when the reader returns
an error without data, so MultiReadError.Index named an earlier reader than
the one ReaderOff is an offset within.
---
 stream/multi_read_at_closer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..a7ce7dc 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -141,17 +141,19 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 	i := search(r.off, r.r[r.idx:])
 	rr := r.r[r.idx:][i]
 
+	// The error blames the reader read from, whether or not idx moves onto it.
+	idx := r.idx + i
 	off := r.off
 	readerOff := r.off - rr.headOff
 	n, err := rr.R.ReadAt(p, readerOff)
 
 	if n > 0 || err == io.EOF {
-		r.idx += i // i could be 0.
+		r.idx = idx
 		r.off += int64(n)
 	}
 
 	wrapErr := func(err error, cause string) error {
-		return &MultiReadError{r.idx, readerOff, off, len(p), err, cause}
+		return &MultiReadError{idx, readerOff, off, len(p), err, cause}
 	}
 
 	if err != nil && err != io.EOF {
-- 
2.43.0


From 619fac887ad2c2805be3707b0400e283a41dff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 02/73] fix: report a short last reader in the multi reader
 instead of a clean EOF

A last reader holding fewer bytes than its declared size answers a read with
the bytes it has and io.EOF. That EOF was passed through, so the concatenation
ended early without the io.ErrUnexpectedEOF a short reader is documented to
raise, and which every reader but the last did raise.
---
 stream/multi_read_at_closer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index a7ce7dc..32fe109 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -165,7 +165,7 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > idx || int64(n) < rem):
 		err = nil
 	}
 
@@ -250,7 +250,7 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From fd48dcde6700356eeb4e637b5d0d9698eee64ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 03/73] fix: let TempFilePolicyDir recognise its files when the
 directory is "."

Match compared path prefixes and never matched anything below ".", so
temporary files left in it by a crash were not cleaned up.
---
 fsutil/safe_write.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fsutil/safe_write.go b/fsutil/safe_write.go
index 535d16d..398fb2a 100644
--- a/fsutil/safe_write.go
+++ b/fsutil/safe_write.go
@@ -471,13 +471,9 @@ func (p TempFilePolicyDir[Fsys, File]) Match(path string) bool {
 	cleanPath := filepath.Clean(path)
 	cleanTempDir := filepath.Clean(p.tempDir)
 
-	// Check if path is within temp directory
-	isInTempDir := cleanPath == cleanTempDir ||
-		(len(cleanPath) > len(cleanTempDir)+1 &&
-			cleanPath[:len(cleanTempDir)] == cleanTempDir &&
-			cleanPath[len(cleanTempDir)] == filepath.Separator)
-
-	if !isInTempDir {
+	// Check if path is within temp directory, which may well be "."
+	rel, err := filepath.Rel(cleanTempDir, cleanPath)
+	if err != nil || !filepath.IsLocal(rel) {
 		return false
 	}
 
-- 
2.43.0


From eb9e6948d5f7d08f1f67a066eb5ebff24f04edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 04/73] fix: report a failing Close of a file CopyFs copied

The destination was closed in a defer that dropped the error, so a write lost
at close (as on network-backed filesystems) was reported as a good copy.
---
 fsutil/copy_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..c8bdf75 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -213,7 +213,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -221,6 +220,10 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// Close may be the only one to report a lost write.
+		if cerr := dstFile.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From eb60291f4ddb96703cee9ba286581135e81d930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 05/73] fix: remove the directory MkdirRandom made when it can
 not be opened

The name is random and only carried by the handle, so a directory whose open
failed (as without read permission) was left behind for good.
---
 fsutil/open_random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..82dd805 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,17 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller is not told the name, so it can not clean it up.
+				switch fsys := any(fsys).(type) {
+				case RemoveFs:
+					_ = fsys.Remove(name)
+				case RemoveAllFs:
+					_ = fsys.RemoveAll(name)
+				}
+			}
+			return f, err
 		},
 	)
 }
-- 
2.43.0


From 0cc038ad96143ff27bc3ef4ae0a4c2a809a820d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 06/73] fix: let CopyPath copy below a root of several
 components

---
 fsutil/copy_fs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index c8bdf75..f735bb0 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -144,8 +144,9 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 		// Extract the relative part by removing root prefix
 		relDir, err := filepath.Rel(root, dir)
-		if err != nil || relDir == "." {
-			continue // Skip if we can't get relative path or if it's the root itself
+		if err != nil || relDir == "." || !filepath.IsLocal(relDir) {
+			// Skip if we can't get relative path, or if it's the root itself or a parent of it
+			continue
 		}
 		srcInfo, err := fs.Stat(src, filepath.ToSlash(relDir))
 		if err != nil {
-- 
2.43.0


From 64998ff2e771a759be946971ff50e7edb4f43e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 07/73] fix: copy the contents of directories their owner may
 not write to

---
 fsutil/copy_fs.go | 68 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index f735bb0..d10f701 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -52,13 +52,55 @@ func (opt CopyFsOption[Fsys, File]) maskPerm(perm fs.FileMode) fs.FileMode {
 	return perm & fs.ModePerm
 }
 
+// dirPerms remembers directories that must stay open to their owner
+// while their contents are copied.
+type dirPerms map[string]fs.FileMode
+
+// hold makes dir, whose final permission is perm, remembered
+// and returns the permission to set while it is being filled.
+func (d dirPerms) hold(dir string, perm fs.FileMode) fs.FileMode {
+	const owner = 0o700
+	if perm&owner == owner {
+		delete(d, dir)
+		return perm
+	}
+	d[dir] = perm
+	return perm | owner
+}
+
+// apply sets final permissions, children before parents.
+func (d dirPerms) apply(dst ChmodFs) error {
+	for _, dir := range slices.Backward(slices.Sorted(maps.Keys(d))) {
+		if err := dst.Chmod(dir, d[dir]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// copyDir makes a directory that can be filled whatever its final permission is.
+func (opt CopyFsOption[Fsys, File]) copyDir(
+	dst Fsys,
+	src fs.FS,
+	dstPath, srcPath string,
+	info fs.FileInfo,
+	held dirPerms,
+) error {
+	fill := opt
+	fill.MaskChmodMode = func(perm fs.FileMode) fs.FileMode {
+		return held.hold(dstPath, opt.maskPerm(perm))
+	}
+	return fill.copyEntry(dst, src, dstPath, srcPath, info, nil)
+}
+
 // CopyAll performs recursive copy from src filesystem to dst filesystem under the specified root
 // path.
 func (opt CopyFsOption[Fsys, File]) CopyAll(dst Fsys, src fs.FS, root string) error {
 	srcLstat, hasLstat := src.(interface {
 		Lstat(name string) (fs.FileInfo, error)
 	})
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	held := dirPerms{}
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			if opt.IgnoreErr != nil && opt.IgnoreErr(err) {
 				return nil
@@ -78,9 +120,16 @@ func (opt CopyFsOption[Fsys, File]) CopyAll(dst Fsys, src fs.FS, root string) er
 			return statErr
 		}
 
-		dstPath := pathpkg.Join(root, path)
-		return opt.copyEntry(dst, src, filepath.FromSlash(dstPath), path, info, nil)
+		dstPath := filepath.FromSlash(pathpkg.Join(root, path))
+		if info.IsDir() {
+			return opt.copyDir(dst, src, dstPath, path, info, held)
+		}
+		return opt.copyEntry(dst, src, dstPath, path, info, nil)
 	})
+	if err != nil {
+		return err
+	}
+	return held.apply(dst)
 }
 
 // CopyPath copies only the specified paths from src filesystem to dst filesystem.
@@ -133,6 +182,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 	}
 
+	held := dirPerms{}
+
 	// Create directories
 	for _, dir := range slices.Sorted(maps.Keys(dirs)) {
 		if dir == "." {
@@ -152,7 +203,7 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		if err != nil {
 			return err
 		}
-		err = dst.Chmod(dir, opt.maskPerm(srcInfo.Mode()))
+		err = dst.Chmod(dir, held.hold(dir, opt.maskPerm(srcInfo.Mode())))
 		if err != nil {
 			return err
 		}
@@ -161,13 +212,18 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 	// Second pass: copy all files
 	for _, pi := range sources {
 		dstPath := filepath.Join(root, pi.path)
-		err := opt.copyEntry(dst, src, dstPath, pi.path, pi.info, nil)
+		var err error
+		if pi.info.IsDir() {
+			err = opt.copyDir(dst, src, dstPath, pi.path, pi.info, held)
+		} else {
+			err = opt.copyEntry(dst, src, dstPath, pi.path, pi.info, nil)
+		}
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return held.apply(dst)
 }
 
 // copyEntry performs the actual copy operation for a single entry
-- 
2.43.0


From 45c298913f6fed596e163aed5ec7d81459e0ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 08/73] fix: give files CopyFs copies the permission the mask
 leaves, whatever the umask

---
 fsutil/copy_fs.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index d10f701..7ea57e7 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -266,7 +266,7 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		defer srcFile.Close()
 
 		// Open destination file with O_TRUNC and O_CREATE
-		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm.Perm())
 		if err != nil {
 			return err
 		}
@@ -285,6 +285,13 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 			return err
 		}
 
+		// The umask may have cut perm, writing clears setuid and setgid,
+		// and an existing file keeps its own.
+		err = dst.Chmod(dstPath, perm)
+		if err != nil {
+			return err
+		}
+
 	case info.Mode()&fs.ModeSymlink != 0:
 		// Handle symlink if src supports ReadLink and dst supports Symlink
 		if srcReadLink, hasReadLink := any(src).(ReadLinkFs); hasReadLink {
-- 
2.43.0


From 8f13ee0bf8936fe3b76a1b50d44491bf233172e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 09/73] fix: resolve chained symlinks whose target goes through
 another symlink

---
 fsutil/resolve_symlink.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..1d61637 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -5,11 +5,11 @@ import (
 	"cmp"
 	"errors"
 	"io/fs"
-	"os"
 	"path/filepath"
 	"strings"
 
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
+	"github.com/ngicks/go-fsys-helper/fsutil/pathutil"
 )
 
 // following linux's maxium: https://man7.org/linux/man-pages/man7/path_resolution.7.html
@@ -172,6 +172,7 @@ func ResolveSymlink(
 	maxResolution int,
 ) (resolved string, numSymlink int, err error) {
 	resolved = filepath.Clean(linkRealPath)
+	rest := "" // what is left to resolve below resolved, with leading separator.
 	var i int
 	for i = 0; i < maxResolution; i++ {
 		target, err := fsys.ReadLink(resolved)
@@ -195,14 +196,32 @@ func ResolveSymlink(
 			return "", i + 1, nil
 		}
 
-		info, err := fsys.Lstat(resolved)
+		// The target may go through other links,
+		// in which case it is not a real path yet.
+		var isLink bool
+		resolved, rest, isLink, err = cutSymlink(fsys, filepath.Join(resolved, rest))
 		if err != nil {
 			return "", i, err
 		}
-		if info.Mode()&os.ModeSymlink == 0 {
+		if !isLink {
 			return resolved, i + 1, nil
 		}
 	}
 
 	return "", i, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
 }
+
+// cutSymlink cuts name after the first component which is a symlink.
+// If no component is, it returns name itself and false.
+func cutSymlink(fsys LstatFs, name string) (link, rest string, isLink bool, err error) {
+	for part := range pathutil.PathFromHead(name) {
+		info, err := fsys.Lstat(part)
+		if err != nil {
+			return "", "", false, err
+		}
+		if info.Mode()&fs.ModeSymlink != 0 {
+			return part, name[len(part):], true, nil
+		}
+	}
+	return name, "", false, nil
+}
-- 
2.43.0


From 9e24651e53e19575066b4da160379bd09dc0cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 10/73] fix: start an empty push afresh instead of committing
 what the sink holds

---
 fsutil/resumable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..b90dbeb 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -501,7 +501,9 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 
 	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// Offset 0 is a fresh start even when there is nothing to send:
+	// the sink may hold nothing to commit, or something stale.
+	if offset > 0 && offset == actualSize {
 		return sink.Commit(ctx)
 	}
 
-- 
2.43.0


From 7f0d856e27abc3739506d77445c4907711110642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 11/73] fix: keep the sidecar FsSink resumes by intact while
 appending

---
 fsutil/resumable_fs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..fc6b938 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -256,7 +256,18 @@ func (s *FsSink[Fsys, File]) Append(
 	}
 
 	// Persist ETag to sidecar before writing any data.
-	if info.ETag != "" {
+	// On resume leave a sidecar that already tells it alone: rewriting could be
+	// interrupted, which would leave the partial data without its identity.
+	writeETag := info.ETag != ""
+	if writeETag && offset > 0 {
+		stored, rerr := s.readSidecar()
+		if rerr != nil {
+			_ = f.Close()
+			return WrapPathErr("read-sidecar", s.sidecarPath(), rerr)
+		}
+		writeETag = stored != info.ETag
+	}
+	if writeETag {
 		if werr := s.writeSidecar(info.ETag); werr != nil {
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
-- 
2.43.0


From 8863640cc144f19c7ede72ce9e89b73e940a5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 12/73] fix: yield the root once from PathFromTail

---
 fsutil/pathutil/head_tail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fsutil/pathutil/head_tail.go b/fsutil/pathutil/head_tail.go
index 995b8ff..711fd13 100644
--- a/fsutil/pathutil/head_tail.go
+++ b/fsutil/pathutil/head_tail.go
@@ -43,7 +43,7 @@ func PathFromTail(name string) iter.Seq[string] {
 		if !yield(vol + name) {
 			return
 		}
-		if name == "." {
+		if name == "." || name == string(filepath.Separator) {
 			return
 		}
 		rest := name
-- 
2.43.0


From c1ec9407f0b1136a34b37f87945061325c2bc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 13/73] fix: pull afresh when the part kept is longer than the
 source says it is

---
 fsutil/resumable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index b90dbeb..917d5cd 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -341,6 +341,9 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 		trusted := srcInfo.ETag == "" || // no-etag world: size-based resume
 			srcInfo.ETag == storedETag || // exact sidecar match
 			(storedETag == "" && expected.ETag != "" && srcInfo.ETag == expected.ETag)
+		if srcInfo.Size >= 0 && startAt > srcInfo.Size {
+			trusted = false // oversized partial; resuming it can never complete.
+		}
 		if !trusted {
 			_ = r.Close()
 			if rerr := removePartFiles[Fsys, File](fsys, partPath, sidecarPath); rerr != nil {
@@ -351,6 +354,10 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			if err != nil {
 				return WrapPathErr("open-source", name, err)
 			}
+			if expected.ETag != "" && srcInfo.ETag != "" && srcInfo.ETag != expected.ETag {
+				_ = r.Close()
+				return WrapPathErr("pull", name, ErrContentChanged)
+			}
 			startAt = 0
 		}
 	}
-- 
2.43.0


From 617a8b875c9bd9785d54274dcdff1d789446dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 14/73] fix: synthfs RemoveAll of a path whose parent is
 missing is no error

---
 vroot/synthfs/remove.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..b915d29 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"syscall"
 
@@ -51,6 +52,10 @@ func (r *Root) removeAllLocked(name string) error {
 		return toPathErr("RemoveAll", ".", syscall.EINVAL)
 	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "RemoveAll")
+	if errors.Is(err, fs.ErrNotExist) {
+		// So is a missing path whose parent is missing, too.
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3b4309c459222daa8ccd8247ab211ff81ef84588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 15/73] fix: synthfs lists a directory once per pass, with the
 sizes its files have

---
 vroot/synthfs/handle_dir.go | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..4e0c87a 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -20,9 +19,10 @@ type dirHandle struct {
 	node *dir
 	name string // user-facing, OS-form path
 
-	mu     sync.Mutex
-	closed bool
-	cursor int
+	mu      sync.Mutex
+	closed  bool
+	entries []stat // nil until the first read of a pass
+	cursor  int
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -90,6 +90,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("negative offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
+		h.entries = nil
 		h.cursor = 0
 	case io.SeekCurrent:
 		if offset != 0 {
@@ -103,9 +104,8 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("positive offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
-		h.st.mu.RUnlock()
+		h.list()
+		h.cursor = len(h.entries)
 	default:
 		return 0, fsutil.WrapPathErr(
 			"seek",
@@ -116,28 +116,45 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	return 0, nil
 }
 
+// list takes down the entries of the dir, once per pass over them: entries
+// removed between two reads must not move the cursor past others.
+// Caller holds h.mu.
+func (h *dirHandle) list() {
+	if h.entries != nil {
+		return
+	}
+	h.st.mu.RLock()
+	defer h.st.mu.RUnlock()
+	h.entries = make([]stat, 0, h.node.ordered.Len())
+	for _, nd := range h.node.entriesSnapshot() {
+		s := nd.meta().toStat()
+		if f, ok := nd.(*file); ok {
+			if fs, err := statFromFileView(&f.metadata, f.view); err == nil {
+				s = fs
+			}
+		}
+		h.entries = append(h.entries, s)
+	}
+}
+
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// Caller holds h.mu.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
-	h.st.mu.RLock()
-	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
-	if h.cursor >= len(all) {
+	h.list()
+	if h.cursor >= len(h.entries) {
 		if n <= 0 {
 			return nil, nil
 		}
 		return nil, io.EOF
 	}
-	end := len(all)
+	end := len(h.entries)
 	if n > 0 && h.cursor+n < end {
 		end = h.cursor + n
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
+	out := h.entries[h.cursor:end]
 	h.cursor = end
 	return out, nil
 }
@@ -150,8 +167,8 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+	for _, s := range entries {
+		out = append(out, fs.FileInfoToDirEntry(s))
 	}
 	return out, nil
 }
@@ -164,8 +181,8 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+	for _, s := range entries {
+		out = append(out, s)
 	}
 	return out, nil
 }
@@ -178,8 +195,8 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 		return nil, err
 	}
 	out := make([]string, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+	for _, s := range entries {
+		out = append(out, s.Name())
 	}
 	return out, nil
 }
-- 
2.43.0


From 7ed1fc59a7b2074729f9df609509d45cd3ed8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 16/73] fix: synthfs Rename into itself, onto its own link and
 across kinds; views outlive all but their last link

---
 vroot/synthfs/add.go    |  6 +++---
 vroot/synthfs/link.go   |  7 ++++++-
 vroot/synthfs/node.go   | 38 ++++++++++++++++++++++++++++++++++++++
 vroot/synthfs/remove.go |  4 ++--
 vroot/synthfs/rename.go | 20 ++++++++++++++++++--
 5 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..27535db 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -66,7 +66,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 		if existingNode != nil {
 			parent.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		parent.addEntry(base, &file{
@@ -186,7 +186,7 @@ func (r *Root) addFSWalk(
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
@@ -216,7 +216,7 @@ func (r *Root) addFSWalk(
 		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		dst.addEntry(base, &file{
diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..033d82c 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -52,6 +52,10 @@ func (r *Root) Link(oldname, newname string) error {
 	}
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
+	if srcFile.links == nil {
+		srcFile.links = new(1)
+	}
+	*srcFile.links++
 	parent.addEntry(base, &file{
 		metadata: metadata{
 			name:    base,
@@ -60,7 +64,8 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view:  srcFile.view,
+		links: srcFile.links,
 	})
 	return nil
 }
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 94f088e..f861451 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -57,6 +57,8 @@ type dir struct {
 type file struct {
 	metadata
 	view FileView
+	// links counts the names sharing view; nil if it was never linked.
+	links *int
 }
 
 type symlink struct {
@@ -126,3 +128,39 @@ func (d *dir) entriesSnapshot() []node {
 	}
 	return out
 }
+
+// contains reports whether other is d itself or below it. Caller must hold
+// state.mu (read lock is sufficient).
+func (d *dir) contains(other *dir) bool {
+	for ; other != nil; other = other.parent {
+		if other == d {
+			return true
+		}
+	}
+	return false
+}
+
+// unlink is called for a file just removed from the tree: the view is closed
+// with the last name leading to it. Caller must hold state.mu (write lock).
+func (f *file) unlink() {
+	if f.links != nil {
+		*f.links--
+		if *f.links > 0 {
+			return
+		}
+	}
+	_ = f.view.Close()
+}
+
+// sameNode reports whether a and b are one node, or hard links of each other.
+func sameNode(a, b node) bool {
+	if a == b {
+		return true
+	}
+	fa, ok := a.(*file)
+	if !ok {
+		return false
+	}
+	fb, ok := b.(*file)
+	return ok && fa.links != nil && fa.links == fb.links
+}
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index b915d29..2ff1357 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -26,7 +26,7 @@ func (r *Root) Remove(name string) error {
 		}
 		parent.removeEntry(base)
 		if f, ok := target.(*file); ok {
-			_ = f.view.Close()
+			f.unlink()
 		}
 		return nil
 	})
@@ -82,6 +82,6 @@ func (r *Root) removeSubtree(n node) {
 			delete(nd.index, k)
 		}
 	case *file:
-		_ = nd.view.Close()
+		nd.unlink()
 	}
 }
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..db923a6 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,15 +26,30 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
+	if d, ok := target.(*dir); ok && d.contains(newParent) {
+		// d would become its own ancestor, unreachable from the root.
+		return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+	}
 	if existing := newParent.lookup(newBase); existing != nil {
+		if sameNode(existing, target) {
+			// POSIX: both names lead to the same file, nothing to do.
+			return nil
+		}
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
-		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
+		_, targetIsDir := target.(*dir)
+		d, existingIsDir := existing.(*dir)
+		switch {
+		case existingIsDir && !targetIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EISDIR)
+		case !existingIsDir && targetIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
+		case existingIsDir && d.ordered.Len() > 0:
 			return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-			_ = f.view.Close()
+			f.unlink()
 		}
 	}
 
-- 
2.43.0


From c5617557935ee2a1ce3b1846f08fc8696db00236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 17/73] fix: synthfs Mkdir(".") reports that it exists

---
 vroot/synthfs/mkdir.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vroot/synthfs/mkdir.go b/vroot/synthfs/mkdir.go
index c9a0f68..303504b 100644
--- a/vroot/synthfs/mkdir.go
+++ b/vroot/synthfs/mkdir.go
@@ -45,6 +45,9 @@ func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
 
 // mkdirLocked is the body of [Mkdir]; callers must hold state.mu (write).
 func (r *Root) mkdirLocked(name string, perm fs.FileMode) error {
+	if slash, err := normalize(name); err == nil && slash == "." {
+		return toPathErr("mkdir", name, fs.ErrExist)
+	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "mkdir")
 	if err != nil {
 		return err
-- 
2.43.0


From b1cc265e8be9110e5eb345820007ad16044b8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 18/73] fix: synthfs O_CREATE through a dangling symlink
 creates its target

---
 vroot/synthfs/open.go | 15 +++++++++------
 vroot/synthfs/tree.go | 10 ++++++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..aeb1266 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"os"
 
@@ -26,12 +27,13 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 		if err != nil {
 			return nil, err
 		}
-		if existing := parent.lookup(base); existing != nil {
-			if flag&os.O_EXCL != 0 {
-				return nil, toPathErr("open", name, fs.ErrExist)
-			}
-			// Fall through to opening the existing entry below.
-		} else {
+		if flag&os.O_EXCL != 0 && parent.lookup(base) != nil {
+			return nil, toPathErr("open", name, fs.ErrExist)
+		}
+		// name may be a symlink whose target is yet to be created.
+		res, err := r.findNode(name, true, "open")
+		if errors.Is(err, fs.ErrNotExist) && res.parent != nil {
+			parent, base = res.parent, res.base
 			view, err := r.st.opt.allocator.Allocate(base, perm&^r.st.opt.umask)
 			if err != nil {
 				return nil, toPathErr("open", name, err)
@@ -47,6 +49,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			parent.addEntry(base, nf)
 			return r.openFileNode(nf, name, flag)
 		}
+		// Fall through to opening the existing entry below.
 	}
 
 	res, err := r.findNode(name, true, "open")
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d979a63..fba45df 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -41,7 +41,9 @@ func normalize(name string) (string, error) {
 
 // resolveResult is what [state.resolve] returns: the resolved node plus the
 // dir directly containing it. parent is nil only when the resolved node is the
-// confinement-boundary dir itself (i.e. name resolved to ".").
+// confinement-boundary dir itself (i.e. name resolved to "."). Together with
+// [fs.ErrNotExist] for a missing trailing component, node is nil while parent
+// and base tell where that component would go.
 type resolveResult struct {
 	node   node
 	parent *dir
@@ -94,7 +96,11 @@ func (s *state) resolve(
 
 		child := cur.lookup(comp)
 		if child == nil {
-			return resolveResult{}, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+			var res resolveResult
+			if rest == "" {
+				res = resolveResult{parent: cur, base: comp}
+			}
+			return res, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
 		}
 
 		isLast := rest == ""
-- 
2.43.0


From dab01896db80f81e64cc5129c62269a100a55da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 19/73] fix: synthfs writes stamp the modification time Stat
 reports

---
 vroot/synthfs/handle.go | 37 +++++++++++++++++++++++++++++--------
 vroot/synthfs/open.go   |  8 ++++++--
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..169f337 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -17,10 +17,8 @@ import (
 //   - Stat composes the node's mode/modTime with the view's live size
 //   - Close decrements the node's refCount
 //
-// Writes are forwarded to the view; the modTime stays where the view writes it
-// (memBuf bumps modTime on every write). For external views this means the
-// modTime reflects the view's own clock rather than synthfs's, which is the
-// right answer for read-only sources.
+// Writes are forwarded to the view and stamp the node's modTime; the view keeps
+// its own (memBuf bumps modTime on every write), which Stat does not report.
 type fileHandle struct {
 	st    *state
 	node  *file
@@ -90,7 +88,11 @@ func (h *fileHandle) Write(p []byte) (int, error) {
 	if !openflag.Writable(h.flag) {
 		return 0, fsutil.WrapPathErr("write", h.name, errdef.EBADF)
 	}
-	return h.inner.Write(p)
+	n, err := h.inner.Write(p)
+	if n > 0 {
+		h.touch()
+	}
+	return n, err
 }
 
 func (h *fileHandle) WriteAt(p []byte, off int64) (int, error) {
@@ -100,7 +102,11 @@ func (h *fileHandle) WriteAt(p []byte, off int64) (int, error) {
 	if !openflag.Writable(h.flag) {
 		return 0, fsutil.WrapPathErr("writeat", h.name, errdef.EBADF)
 	}
-	return h.inner.WriteAt(p, off)
+	n, err := h.inner.WriteAt(p, off)
+	if n > 0 {
+		h.touch()
+	}
+	return n, err
 }
 
 func (h *fileHandle) WriteString(s string) (int, error) {
@@ -110,7 +116,11 @@ func (h *fileHandle) WriteString(s string) (int, error) {
 	if !openflag.Writable(h.flag) {
 		return 0, fsutil.WrapPathErr("write", h.name, errdef.EBADF)
 	}
-	return h.inner.WriteString(s)
+	n, err := h.inner.WriteString(s)
+	if n > 0 {
+		h.touch()
+	}
+	return n, err
 }
 
 func (h *fileHandle) Truncate(size int64) error {
@@ -120,7 +130,18 @@ func (h *fileHandle) Truncate(size int64) error {
 	if !openflag.Writable(h.flag) {
 		return fsutil.WrapPathErr("truncate", h.name, errdef.EBADF)
 	}
-	return h.inner.Truncate(size)
+	if err := h.inner.Truncate(size); err != nil {
+		return err
+	}
+	h.touch()
+	return nil
+}
+
+// touch stamps the node as modified now.
+func (h *fileHandle) touch() {
+	h.st.mu.Lock()
+	defer h.st.mu.Unlock()
+	h.node.modTime = h.st.opt.clock.Now()
 }
 
 func (h *fileHandle) Seek(offset int64, whence int) (int64, error) {
diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index aeb1266..d45d43e 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -71,10 +71,14 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 		if flag&os.O_TRUNC != 0 && openflag.Writable(flag) {
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
-			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+			// state.mu is held: neither Truncate nor Close of h may be called.
+			inner := h.(*fileHandle).inner
+			if terr := inner.Truncate(0); terr != nil {
+				nd.refCount--
+				_ = inner.Close()
 				return nil, terr
 			}
+			nd.modTime = r.st.opt.clock.Now()
 		}
 		return h, nil
 	case *symlink:
-- 
2.43.0


From 232537b1717d5e1ce66bd381bc41b4cd461ce436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 20/73] fix: concurrent appends to a memfs file overwrote each
 other; empty ones moved the offset

---
 vroot/synthfs/view_mem_buf.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..d66b31b 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,13 +79,27 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	return b.write(p, off), nil
+}
+
+// append writes p at the end, wherever other handles have moved it, and returns
+// the end after it.
+func (b *memBuf) append(p []byte) (end int64, n int) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	n = b.write(p, int64(len(b.content)))
+	return int64(len(b.content)), n
+}
+
+// write writes p at off. Caller holds b.mu (write).
+func (b *memBuf) write(p []byte, off int64) int {
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
 	}
 	n := copy(b.content[int(off):], p)
 	b.modTime = b.clock.Now()
-	return n, nil
+	return n
 }
 
 func (b *memBuf) truncate(size int64) error {
@@ -197,7 +211,12 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		if len(p) == 0 {
+			return 0, nil
+		}
+		var n int
+		h.off, n = h.buf.append(p)
+		return n, nil
 	}
 	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
-- 
2.43.0


From 8e59bae5cda765d4ca5fbe834f22dc19632ec423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 21/73] fix: Remove(".") no longer deletes the root or prefix
 directory itself

---
 vroot/osfs/fs.go    | 4 ++++
 vroot/pathprefix.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vroot/osfs/fs.go b/vroot/osfs/fs.go
index 768f467..8783fb5 100644
--- a/vroot/osfs/fs.go
+++ b/vroot/osfs/fs.go
@@ -223,6 +223,10 @@ func (u *Fs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("", name, err)
 	}
+	if path == u.root {
+		// consistency to *os.Root.Remove: the root itself is not in the Fs.
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return os.Remove(path)
 }
 
diff --git a/vroot/pathprefix.go b/vroot/pathprefix.go
index 83a8b6a..65a3d11 100644
--- a/vroot/pathprefix.go
+++ b/vroot/pathprefix.go
@@ -170,6 +170,10 @@ func (w *PathPrefixFs[F]) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
 	}
+	// As in RemoveAll: "." maps to the prefix, which must not be deleted.
+	if p == w.prefix {
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return w.inner.Remove(p)
 }
 
-- 
2.43.0


From 978e2d1ba09a30b7c322890cabcdd66d1cfb7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 22/73] fix: WalkDir goes on with the siblings of a child it
 cannot stat

---
 vroot/walk.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..b996b39 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -181,12 +181,9 @@ func walkDir_[F File, Fsys Fs[F]](
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
-			}
-			return err
+		} else {
+			err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		}
-		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
 			if err == SkipDir {
 				break
-- 
2.43.0


From c9b23baad589f6bb4793ce86bfd7d03503227add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 23/73] fix: FromIoFs Readdir drops entries that vanished
 instead of returning nil infos

---
 vroot/iofs_from.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..fbf62f6 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -211,23 +211,31 @@ func (f *expandedFile) ReadDir(n int) ([]fs.DirEntry, error) {
 }
 
 func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
-	entries, err := f.ReadDir(n)
-	if err != nil {
-		return nil, err
-	}
-
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
-		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
-			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
+	for {
+		entries, err := f.ReadDir(n)
+		if err != nil {
 			return nil, err
 		}
-		infos[i] = info
+
+		infos := make([]fs.FileInfo, 0, len(entries))
+		for _, entry := range entries {
+			info, err := entry.Info()
+			if errors.Is(err, fs.ErrNotExist) {
+				// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
+				// tolerated by dropping the entry, mirroring how
+				// os.(*File).Readdir behaves with disappearing entries.
+				continue
+			}
+			if err != nil {
+				return nil, err
+			}
+			infos = append(infos, info)
+		}
+		// With n > 0 an empty result must come with an error.
+		if n <= 0 || len(infos) > 0 || len(entries) == 0 {
+			return infos, nil
+		}
 	}
-	return infos, nil
 }
 
 func (f *expandedFile) Readdirnames(n int) (names []string, err error) {
-- 
2.43.0


From bbb3791fd03fad03144333ef946ff2876f21573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 24/73] fix: a file expanded from fs.File reports a missing
 ReadDir as ErrOpNotSupported

---
 vroot/iofs_from.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index fbf62f6..60f526b 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -207,7 +207,7 @@ func (f *expandedFile) ReadDir(n int) ([]fs.DirEntry, error) {
 	if readDirFile, ok := f.file.(fs.ReadDirFile); ok {
 		return readDirFile.ReadDir(n)
 	}
-	return nil, fsutil.WrapPathErr("readdir", f.name, errors.New("not implemented"))
+	return nil, fsutil.WrapPathErr("readdir", f.name, ErrOpNotSupported)
 }
 
 func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
-- 
2.43.0


From a0927988caa750b6238795dd08db034130ffffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 25/73] fix: a root or prefix reached by a symlink can not be
 moved, replaced or linked as "."

---
 vroot/osfs/fs.go    |  8 ++++++++
 vroot/pathprefix.go | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/vroot/osfs/fs.go b/vroot/osfs/fs.go
index 8783fb5..e6379b4 100644
--- a/vroot/osfs/fs.go
+++ b/vroot/osfs/fs.go
@@ -136,6 +136,10 @@ func (u *Fs) Link(oldname string, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, err)
 	}
+	if oldPath == u.root {
+		// behave as if root is always already resolved: a directory.
+		return fsutil.WrapLinkErr("link", oldname, newname, syscall.EPERM)
+	}
 	return os.Link(oldPath, newPath)
 }
 
@@ -270,6 +274,10 @@ func (u *Fs) Rename(oldname string, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, err)
 	}
+	if oldPath == u.root || newPath == u.root {
+		// As in Remove: the root itself, or a symlink to it, is not in the Fs.
+		return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+	}
 	return os.Rename(oldPath, newPath)
 }
 
diff --git a/vroot/pathprefix.go b/vroot/pathprefix.go
index 65a3d11..28ad0ea 100644
--- a/vroot/pathprefix.go
+++ b/vroot/pathprefix.go
@@ -94,6 +94,10 @@ func (w *PathPrefixFs[F]) Lchown(name string, uid int, gid int) error {
 	if err != nil {
 		return fsutil.WrapPathErr("lchown", name, err)
 	}
+	if p == w.prefix {
+		// see Lstat.
+		return w.inner.Chown(p, uid, gid)
+	}
 	return w.inner.Lchown(p, uid, gid)
 }
 
@@ -106,6 +110,10 @@ func (w *PathPrefixFs[F]) Link(oldname string, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, err)
 	}
+	if oldPath == w.prefix {
+		// "." is a directory, whatever leads to it. See Lstat.
+		return fsutil.WrapLinkErr("link", oldname, newname, syscall.EPERM)
+	}
 	return w.inner.Link(oldPath, newPath)
 }
 
@@ -114,6 +122,10 @@ func (w *PathPrefixFs[F]) Lstat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, fsutil.WrapPathErr("lstat", name, err)
 	}
+	if p == w.prefix {
+		// "." is the directory itself even where a symlink leads to it.
+		return w.inner.Stat(p)
+	}
 	return w.inner.Lstat(p)
 }
 
@@ -162,6 +174,10 @@ func (w *PathPrefixFs[F]) ReadLink(name string) (string, error) {
 	if err != nil {
 		return "", fsutil.WrapPathErr("readlink", name, err)
 	}
+	if p == w.prefix {
+		// see Lstat.
+		return "", fsutil.WrapPathErr("readlink", name, syscall.EINVAL)
+	}
 	return w.inner.ReadLink(p)
 }
 
@@ -200,6 +216,10 @@ func (w *PathPrefixFs[F]) Rename(oldname string, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, err)
 	}
+	// As in Remove: "." maps to the prefix, which must not be moved or replaced.
+	if oldPath == w.prefix || newPath == w.prefix {
+		return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+	}
 	return w.inner.Rename(oldPath, newPath)
 }
 
-- 
2.43.0


From 4776a7dde9e8d8c26faa5933da64ab68033da6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 26/73] fix: a create whose view can not be opened leaves no
 entry in a synthfs tree

---
 vroot/synthfs/open.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index d45d43e..359776b 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -46,8 +46,13 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 				},
 				view: view,
 			}
+			h, err := r.openFileNode(nf, name, flag)
+			if err != nil {
+				_ = view.Close()
+				return nil, err
+			}
 			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+			return h, nil
 		}
 		// Fall through to opening the existing entry below.
 	}
-- 
2.43.0


From 1b897e7b985bd6bd72a841f0be68fc8800d7fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 27/73] fix: adding over a directory closes the views below it

---
 vroot/synthfs/add.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 27535db..d344178 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -185,9 +183,7 @@ func (r *Root) addFSWalk(
 		}
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
 			return nil
@@ -215,9 +211,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From f8fd9dca4392678c4ec710562ca871ade0329915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 28/73] fix: AddFile and AddFS do not replace a dangling
 symlink on the way by a directory

---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index d344178..71821c6 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -312,6 +312,10 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// A dangling symlink: err is about its target.
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
-- 
2.43.0


From 0ea976d3d3683e3132a93fe69643881af2447f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 29/73] fix: AddFS keeps what AddDecisionKeep says is kept

---
 vroot/synthfs/add.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 71821c6..05a8399 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -159,6 +159,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if _, isDir := existingNode.(*dir); existingNode != nil && !isDir {
+				// The existing leaf is kept, the incoming subtree dropped.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
@@ -167,7 +171,7 @@ func (r *Root) addFSWalk(
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
 		}
 	case info.Mode()&fs.ModeSymlink != 0:
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
 			return nil
 		}
 		if rl == nil {
@@ -181,13 +185,10 @@ func (r *Root) addFSWalk(
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionOverride && existingNode != nil {
+		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			return nil
-		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
 				name:    base,
@@ -198,17 +199,13 @@ func (r *Root) addFSWalk(
 		})
 		return nil
 	default: // regular file
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
 			return nil
 		}
 		view, err := NewFsView(fsys, src)
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			_ = view.Close()
-			return nil
-		}
 		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
-- 
2.43.0


From f9988bad91ae2ba8aa7974db764441827e3a5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 30/73] fix: httprange drops the opaque part of a URL from
 error text

A URL missing its scheme, user:password@host/path, parses as the scheme user
with everything else opaque, and the complaint about the scheme repeated it
with the password.
---
 stream/httprange/redact.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..d8c4394 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -11,9 +11,12 @@ import (
 const redactedURLPlaceholder = "[redacted url]"
 
 // redactURL renders u as scheme, host and path only, dropping userinfo,
-// query and fragment.
+// query and fragment. What stands in place of host and path in a URL without
+// "//" is dropped as well: it is where the password of a URL missing its
+// scheme ends up.
 func redactURL(u *url.URL) string {
 	redacted := *u
+	redacted.Opaque = ""
 	redacted.User = nil
 	redacted.RawQuery = ""
 	redacted.ForceQuery = false
-- 
2.43.0


From 54580947ca3315cfd505956978aecb146ed6344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 31/73] fix: httprange does not quote the part of a URL that
 fails to parse

The parse failure inside the url.Error quotes what it stumbled over, which for
a password holding a slash is the head of that password.
---
 stream/httprange/redact.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index d8c4394..31b3afd 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -3,6 +3,7 @@ package httprange
 import (
 	"errors"
 	"net/url"
+	"strings"
 )
 
 // redactedURLPlaceholder stands in for a URL that could not be parsed.
@@ -39,16 +40,34 @@ func redactRawURL(raw string) string {
 // passwords and the like never reach error text.
 //
 // The underlying Err is carried over untouched, keeping [errors.Is] and
-// [errors.AsType] working through the result. Any error not built around a
-// [url.Error] is returned as is.
+// [errors.AsType] working through the result, unless it is a parse failure,
+// which quotes the part of the URL it stumbled over: that one keeps its words
+// and loses the quotation. Any error not built around a [url.Error] is returned
+// as is.
 func redactURLError(err error) error {
 	ue, ok := errors.AsType[*url.Error](err)
 	if !ok {
 		return err
 	}
+	cause := ue.Err
+	if ue.Op == "parse" {
+		cause = redactQuoted(cause)
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redactRawURL(ue.URL),
-		Err: ue.Err,
+		Err: cause,
+	}
+}
+
+// redactQuoted blanks what err's text quotes. A "/" in a password ends the
+// authority early and makes the head of the password an invalid port, say, and
+// the failure to parse it quotes it.
+func redactQuoted(err error) error {
+	msg := err.Error()
+	first, last := strings.Index(msg, `"`), strings.LastIndex(msg, `"`)
+	if first < 0 {
+		return err
 	}
+	return errors.New(msg[:first+1] + "..." + msg[last:])
 }
-- 
2.43.0


From 653535fb73f678f0a91c014876edcff4cc02159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 32/73] fix: httprange redacts the URL of a url.Error inside
 another

Only the outermost was, so the URL a transport asks for by itself, a token
endpoint's say, came out whole.
---
 stream/httprange/redact.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 31b3afd..74bcdb7 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -35,9 +35,10 @@ func redactRawURL(raw string) string {
 	return redactURL(u)
 }
 
-// redactURLError replaces the URL carried by a [url.Error] anywhere in err's
-// tree with its redacted form, so that presigned tokens, basic-auth
-// passwords and the like never reach error text.
+// redactURLError replaces the URL carried by every [url.Error] in err's tree
+// (a transport making a request of its own nests one) with its redacted form,
+// so that presigned tokens, basic-auth passwords and the like never reach error
+// text.
 //
 // The underlying Err is carried over untouched, keeping [errors.Is] and
 // [errors.AsType] working through the result, unless it is a parse failure,
@@ -49,7 +50,7 @@ func redactURLError(err error) error {
 	if !ok {
 		return err
 	}
-	cause := ue.Err
+	cause := redactURLError(ue.Err)
 	if ue.Op == "parse" {
 		cause = redactQuoted(cause)
 	}
-- 
2.43.0


From 58c2f858af893386d5f7d949c317ff94af2c2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 33/73] fix: fileserver joins object names to the path of a
 base URL with a query

---
 stream/fileserver/client.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..c8278bf 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -92,14 +92,23 @@ func (c *HTTPClient) client() Doer {
 // Name segments are path-escaped individually so that slashes in a name
 // component remain escaped (i.e. a name "a/b" becomes "…/a%2Fb", not
 // "…/a/b").
+//
+// The name joins the path of BaseURL, ahead of its query (e.g. a presigned
+// token), which is kept. A fragment is not sent.
 func (c *HTTPClient) objectURL(name string) string {
-	base := c.BaseURL.String()
-	// Strip trailing slash from base, then append /<escaped-name>.
-	base = strings.TrimRight(base, "/")
-	// Escape each segment of the name independently: a name that itself
-	// contains '/' is a single logical name, not a path hierarchy.
+	u := *c.BaseURL
+	u.Fragment, u.RawFragment = "", ""
+	// A name that itself contains '/' is a single logical name, not a path
+	// hierarchy.
 	escaped := url.PathEscape(name)
-	return base + "/" + escaped
+	// Strip trailing slash from base, then append /<escaped-name>.
+	if u.Opaque != "" {
+		u.Opaque = strings.TrimRight(u.Opaque, "/") + "/" + escaped
+		return u.String()
+	}
+	u.RawPath = strings.TrimRight(u.EscapedPath(), "/") + "/" + escaped
+	u.Path, _ = url.PathUnescape(u.RawPath)
+	return u.String()
 }
 
 // applyHeaders copies the static Header onto req.
-- 
2.43.0


From 3cba654846552395c6c097e49fd038cd804f38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 34/73] fix: fileserver Put sends a Content-Length for an empty
 object

---
 stream/fileserver/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index c8278bf..6708a7c 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -281,6 +281,11 @@ func (c *HTTPClient) Put(
 		)
 	}
 	req.ContentLength = size
+	if size == 0 {
+		// A zero ContentLength beside a body means unknown to net/http, which
+		// sends it chunked.
+		req.Body = http.NoBody
+	}
 	c.applyHeaders(req)
 
 	resp, err := c.client().Do(req)
-- 
2.43.0


From 357d2934796b57e7904580992c44ef06df9abd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 35/73] fix: fileserver redacts URLs that do not parse, are
 opaque or nested in error text

---
 stream/fileserver/client.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6708a7c..9a570d2 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -120,34 +120,58 @@ func (c *HTTPClient) applyHeaders(req *http.Request) {
 	}
 }
 
+// redactedURLPlaceholder stands in for a URL that cannot be parsed, which may
+// still carry a credential.
+const redactedURLPlaceholder = "[redacted url]"
+
 // redactURLError sanitizes a *url.Error so that credentials and query
 // parameters embedded in the URL (e.g. presigned tokens in the query string
 // or userinfo) are not exposed in log output or error messages.
 //
 // Guarantee: if err wraps a *url.Error, the returned error's message contains
 // only the scheme, host, and path of the original URL — userinfo, query, and
-// fragment are stripped. The underlying Err field is preserved unchanged so
-// that errors.Is/As chains (e.g. context.Canceled, net errors, fs.ErrNotExist)
-// continue to work normally. If err is not (or does not wrap) a *url.Error it
-// is returned as-is.
+// fragment are stripped, and so are the opaque part of a URL without "//" and a
+// URL that cannot be parsed. The same goes for a *url.Error inside it. The
+// underlying Err field is otherwise preserved so that errors.Is/As chains (e.g.
+// context.Canceled, net errors, fs.ErrNotExist) continue to work normally,
+// unless it is a parse failure quoting a part of the URL, which loses the
+// quotation. If err is not (or does not wrap) a *url.Error it is returned
+// as-is.
 func redactURLError(err error) error {
 	var ue *url.Error
 	if !errors.As(err, &ue) {
 		return err
 	}
 	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	redacted := redactedURLPlaceholder
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
+		u.Opaque = ""
 		u.User = nil
 		u.RawQuery = ""
+		u.ForceQuery = false
 		u.Fragment = ""
+		u.RawFragment = ""
 		redacted = u.String()
 	}
+	cause := redactURLError(ue.Err)
+	if ue.Op == "parse" {
+		cause = redactQuoted(cause)
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redacted,
-		Err: ue.Err,
+		Err: cause,
+	}
+}
+
+// redactQuoted blanks what the text of err quotes.
+func redactQuoted(err error) error {
+	msg := err.Error()
+	first, last := strings.Index(msg, `"`), strings.LastIndex(msg, `"`)
+	if first < 0 {
+		return err
 	}
+	return errors.New(msg[:first+1] + "..." + msg[last:])
 }
 
 // Get implements [Client].
-- 
2.43.0


From 93cf9e9d748bf8e02a477c076c9ddd9150f93099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 36/73] fix: httprange redacts a user name holding an escaped
 slash or question mark

---
 stream/httprange/redact.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 74bcdb7..ed8c299 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -28,6 +28,13 @@ func redactURL(u *url.URL) string {
 
 // redactRawURL parses raw and applies [redactURL] to it.
 func redactRawURL(raw string) string {
+	// net/http masks a password and leaves the user name unescaped, so that a
+	// "/" or "?" in it would pass for the end of the host.
+	if scheme, rest, ok := strings.Cut(raw, "//"); ok {
+		if _, rest, ok := strings.Cut(rest, ":***@"); ok {
+			raw = scheme + "//" + rest
+		}
+	}
 	u, err := url.Parse(raw)
 	if err != nil {
 		return redactedURLPlaceholder
-- 
2.43.0


From aa1775c01b9b5967c7cc1064764c0df8478904a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 37/73] fix: fileserver redacts a user name holding an escaped
 slash or question mark

---
 stream/fileserver/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 9a570d2..f4a7ffc 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -144,7 +144,7 @@ func redactURLError(err error) error {
 	}
 	// Parse and redact the URL embedded in the *url.Error.
 	redacted := redactedURLPlaceholder
-	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
+	if u, parseErr := url.Parse(cutMaskedUser(ue.URL)); parseErr == nil {
 		u.Opaque = ""
 		u.User = nil
 		u.RawQuery = ""
@@ -164,6 +164,18 @@ func redactURLError(err error) error {
 	}
 }
 
+// cutMaskedUser removes the user info net/http has masked the password of. The
+// user name stands there unescaped, and a "/" or "?" in it would pass for the
+// end of the host.
+func cutMaskedUser(raw string) string {
+	if scheme, rest, ok := strings.Cut(raw, "//"); ok {
+		if _, rest, ok := strings.Cut(rest, ":***@"); ok {
+			return scheme + "//" + rest
+		}
+	}
+	return raw
+}
+
 // redactQuoted blanks what the text of err quotes.
 func redactQuoted(err error) error {
 	msg := err.Error()
-- 
2.43.0


From cf0afd24b05f023a54872e791a4cea7a64f4d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 38/73] fix: fileserver Get asks for the identity encoding,
 whose length is the object's

---
 stream/fileserver/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index f4a7ffc..d45c60b 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -206,6 +206,10 @@ func (c *HTTPClient) Get(
 		)
 	}
 	c.applyHeaders(req)
+	if req.Header.Get("Accept-Encoding") == "" {
+		// Otherwise net/http asks for gzip and the total size is lost.
+		req.Header.Set("Accept-Encoding", "identity")
+	}
 
 	if offset > 0 {
 		req.Header.Set("Range", fmt.Sprintf("bytes=%d-", offset))
-- 
2.43.0


From 26b5e5680eedbb1a05af4c3e86c98e2efdc076be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 39/73] fix: fileserver Get refuses a range that does not start
 at its offset

---
 stream/fileserver/client.go | 45 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index d45c60b..964ffda 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -241,7 +241,11 @@ func (c *HTTPClient) Get(
 
 	case http.StatusPartialContent: // 206
 		// Total size is in Content-Range: bytes <from>-<to>/<total>.
-		total, err := parseTotalFromContentRange(resp.Header.Get("Content-Range"))
+		// A range that starts elsewhere is content from the wrong place.
+		first, total, err := parseContentRange(resp.Header.Get("Content-Range"))
+		if err == nil && first != offset {
+			err = fmt.Errorf("range starts at %d, not at offset %d", first, offset)
+		}
 		if err != nil {
 			_, _ = io.Copy(io.Discard, resp.Body)
 			_ = resp.Body.Close()
@@ -343,27 +347,36 @@ func (c *HTTPClient) Put(
 	return nil
 }
 
-// parseTotalFromContentRange parses the total size from a Content-Range
-// header value of the form "bytes <from>-<to>/<total>".
-func parseTotalFromContentRange(s string) (int64, error) {
+// parseContentRange parses the first position and the total size from a
+// Content-Range header value of the form "bytes <from>-<to>/<total>".
+func parseContentRange(s string) (first, total int64, err error) {
 	// Expected: "bytes 1024-2047/4096"
 	if s == "" {
-		return 0, errors.New("Content-Range header missing")
+		return 0, 0, errors.New("Content-Range header missing")
 	}
-	// Strip "bytes " prefix.
-	s = strings.TrimPrefix(s, "bytes ")
-	// Find the slash separating range from total.
-	slashIdx := strings.LastIndex(s, "/")
-	if slashIdx < 0 {
-		return 0, fmt.Errorf("malformed Content-Range %q: no slash", s)
+	unit, spec, _ := strings.Cut(s, " ")
+	rangeStr, totalStr, ok := strings.Cut(spec, "/")
+	if !strings.EqualFold(unit, "bytes") || !ok {
+		return 0, 0, fmt.Errorf("malformed Content-Range %q", s)
 	}
-	totalStr := s[slashIdx+1:]
 	if totalStr == "*" {
-		return 0, fmt.Errorf("Content-Range total is unknown (*)")
+		return 0, 0, errors.New("Content-Range total is unknown (*)")
+	}
+	total, err = strconv.ParseInt(totalStr, 10, 64)
+	if err != nil {
+		return 0, 0, fmt.Errorf("Content-Range total parse: %w", err)
 	}
-	total, err := strconv.ParseInt(totalStr, 10, 64)
+	firstStr, lastStr, _ := strings.Cut(rangeStr, "-")
+	first, err = strconv.ParseInt(firstStr, 10, 64)
 	if err != nil {
-		return 0, fmt.Errorf("Content-Range total parse: %w", err)
+		return 0, 0, fmt.Errorf("Content-Range first position parse: %w", err)
+	}
+	last, err := strconv.ParseInt(lastStr, 10, 64)
+	if err != nil {
+		return 0, 0, fmt.Errorf("Content-Range last position parse: %w", err)
+	}
+	if first < 0 || last < first || total <= last {
+		return 0, 0, fmt.Errorf("malformed Content-Range %q", s)
 	}
-	return total, nil
+	return first, total, nil
 }
-- 
2.43.0


From 1e540487e803fbec9fd8af8f7d7a3a01c5fc7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 40/73] fix: ChunkedSink.Append fails where the reader ends
 within the last chunk

---
 stream/fileserver/chunk.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..40cf2ef 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -270,14 +270,13 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// Any chunk's size, the last one's included, follows from the total
+		// size. With fewer bytes the reader was truncated.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
-				"ChunkedSink Append chunk %d: short read: got %d, want %d",
-				i, written, expected,
+				"ChunkedSink Append chunk %d: short read: got %d, want %d: %w",
+				i, written, expected, io.ErrUnexpectedEOF,
 			)
 		}
 
-- 
2.43.0


From 501f0fd55c4ce659d57f1eccb8782c39f2f5ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 41/73] fix: tarfs directories without an entry in the archive
 have a header

---
 tarfs/entdir.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..1fff7aa 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -32,6 +32,21 @@ func (d *dir) readLink() (string, error) {
 	return "", pathErr("readlink", "", syscall.EINVAL)
 }
 
+// implicitDir returns a directory that has no entry by its own in the archive
+// but is a parent of one which does.
+func implicitDir(name string, parent *dir) *dir {
+	return &dir{
+		h: &Section{
+			h: &tar.Header{
+				Typeflag: tar.TypeDir,
+				Name:     name + "/",
+				Mode:     0o755,
+			},
+		},
+		parent: parent,
+	}
+}
+
 func (d *dir) addChild(name string, hdr *Section) {
 	if d.files == nil {
 		d.files = make(map[string]direntry)
@@ -53,14 +68,14 @@ func (d *dir) addChild(name string, hdr *Section) {
 			// Intermediate component - ensure directory exists
 			child, ok := currentDir.files[component]
 			if !ok {
-				child = &dir{parent: currentDir}
+				child = implicitDir(component, currentDir)
 				currentDir.files[component] = child
 				currentDir.ordered = append(currentDir.ordered, child)
 			}
 			_, ok = child.(*dir)
 			if !ok {
 				// TODO: warn about this?
-				child = &dir{parent: currentDir}
+				child = implicitDir(component, currentDir)
 				currentDir.files[component] = child
 				currentDir.ordered = append(currentDir.ordered, child)
 			}
-- 
2.43.0


From 6ba188588e7b198e1a10151fa6c794983cd7ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 42/73] fix: tarfs lists a directory in place of the file it
 replaces

---
 tarfs/entdir.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 1fff7aa..1e9b254 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -75,9 +76,10 @@ func (d *dir) addChild(name string, hdr *Section) {
 			_, ok = child.(*dir)
 			if !ok {
 				// TODO: warn about this?
+				replaced := child
 				child = implicitDir(component, currentDir)
 				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
+				currentDir.ordered[slices.Index(currentDir.ordered, replaced)] = child
 			}
 			currentDir = child.(*dir)
 			// Ensure the child directory has an initialized files map and parent link
@@ -98,6 +100,7 @@ func (d *dir) addChild(name string, hdr *Section) {
 						// TODO: warn about this?
 						dirHandle = &dir{parent: currentDir}
 						currentDir.files[component] = dirHandle
+						currentDir.ordered[slices.Index(currentDir.ordered, existing)] = dirHandle
 					}
 					dirHandle.h = hdr
 					if dirHandle.parent == nil {
-- 
2.43.0


From f3b84982cfe6ad668c76ec00720b3c51e927d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 43/73] fix: tarfs leaves out entries whose names are no valid
 path, and only those

---
 tarfs/fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..5680732 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -7,7 +7,6 @@ import (
 	"maps"
 	"path"
 	"slices"
-	"strings"
 	"time"
 )
 
@@ -68,8 +67,9 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	delete(headers, ".")
 
 	for _, key := range slices.Sorted(maps.Keys(headers)) {
-		if strings.HasPrefix(key, "..") {
-			// reject paths traversing upward even when tarinsecurepath = 1.
+		if !fs.ValidPath(key) {
+			// reject absolute paths and paths traversing upward even when
+			// tarinsecurepath = 1.
 			// Anyway fs.ValidPath check will reject this.
 			continue
 		}
-- 
2.43.0


From 2395c72237b520e90fc41260791538d46eb47f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 44/73] fix: tarfs does not take an entry that is no directory
 for its root

---
 tarfs/fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index 5680732..9ad5278 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -49,7 +49,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		isRooted: opt.IsRooted,
 	}
 
-	if rootHeader, ok := headers["."]; ok {
+	if rootHeader, ok := headers["."]; ok && rootHeader.h.Typeflag == tar.TypeDir {
 		fsys.subRoot = &dir{h: rootHeader}
 	} else {
 		// Is it even possible?
-- 
2.43.0


From c6a9e1b2711bcd7c7be76eec603b7b4940256222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 45/73] fix: tarfs resolves symlinks to . and ..

---
 tarfs/entdir.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 1e9b254..6bd6dda 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -148,7 +148,8 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 		switch component {
 		case ".":
-			return currentDir, nil
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -157,6 +158,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
-- 
2.43.0


From e4c0214e2abab387fef4f116e4f7f21ea0f4b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 46/73] fix: tarfs follows hardlinks to hardlinks and does not
 recurse without end on loops of them

---
 tarfs/enthardlink.go | 12 ++++++++++++
 tarfs/fs.go          | 44 ++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/tarfs/enthardlink.go b/tarfs/enthardlink.go
index bb17e3f..5612b8a 100644
--- a/tarfs/enthardlink.go
+++ b/tarfs/enthardlink.go
@@ -6,8 +6,20 @@ import (
 	"syscall"
 )
 
+type hardlinkState int
+
+const (
+	hardlinkUnresolved hardlinkState = iota
+	hardlinkResolving
+	hardlinkResolved
+)
+
 type hardlink struct {
 	h *Section
+
+	state  hardlinkState
+	target direntry
+	err    error
 }
 
 func (h *hardlink) header() *Section {
diff --git a/tarfs/fs.go b/tarfs/fs.go
index 9ad5278..cf279c4 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -8,6 +8,8 @@ import (
 	"path"
 	"slices"
 	"time"
+
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
 var _ fs.FS = (*Fs)(nil)
@@ -95,12 +97,49 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	// But different for sub-fsys returned from Sub.
 	fsys.root = fsys.subRoot
 
+	fsys.resolveHardlinks(fsys.root)
+
 	return fsys, nil
 }
 
+// resolveHardlinks resolves every hardlink below d.
+func (fsys *Fs) resolveHardlinks(d *dir) {
+	for _, ent := range d.ordered {
+		switch x := ent.(type) {
+		case *dir:
+			fsys.resolveHardlinks(x)
+		case *hardlink:
+			_, _ = fsys.resolveHardlink(x)
+		}
+	}
+}
+
+// resolveHardlink returns what hl links to. Links to links are followed.
+//
+// [New] calls it for every hardlink before anything else does: afterwards it
+// only reads what was found then.
 func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
+	name := hl.header().Header().Name
+	switch hl.state {
+	case hardlinkResolved:
+		return hl.target, pathErr("open", name, hl.err)
+	case hardlinkResolving:
+		// links to itself
+		return nil, pathErr("open", name, errdef.ELOOP)
+	}
+	hl.state = hardlinkResolving
+	target, err := fsys.root.openChild(path.Clean(hl.header().Header().Linkname), false, fsys)
+	if err == nil {
+		if next, ok := target.(*hardlink); ok {
+			target, err = fsys.resolveHardlink(next)
+		}
+	}
+	overrideErr(err, func(pathErr *fs.PathError) { err = pathErr.Err })
+	if err != nil {
+		target = nil
+	}
+	hl.target, hl.err, hl.state = target, err, hardlinkResolved
+	return target, pathErr("open", name, err)
 }
 
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
@@ -119,6 +158,7 @@ func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
 	if hl, ok := dirent.(*hardlink); ok {
 		target, err := fsys.resolveHardlink(hl)
 		if err != nil {
+			overrideErr(err, func(err *fs.PathError) { err.Path = name })
 			return nil, err
 		}
 		return hl.overlayHardlink(target), nil
-- 
2.43.0


From 6a59be263b58907426ea38d47fe6a9afe5eec299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 47/73] fix: tarfs hardlinks have the size of what they link to

---
 tarfs/fs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index cf279c4..e6d0173 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -139,6 +139,13 @@ func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
 		target = nil
 	}
 	hl.target, hl.err, hl.state = target, err, hardlinkResolved
+	if f, ok := target.(*file); ok {
+		// The entry of a link has no size of its own.
+		section, header := *hl.h, *hl.h.h
+		header.Size = f.h.h.Size
+		section.h = &header
+		hl.h = &section
+	}
 	return target, pathErr("open", name, err)
 }
 
-- 
2.43.0


From 3b0ea580a3a143ebca016503556eb4b4d1684c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 48/73] fix: tarfs sections of TypeCont entries have their
 bodies

---
 tarfs/headers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..34ae71b 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -84,7 +84,7 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
-- 
2.43.0


From 037972f505e35e6059b8c376fcb678178a9904ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 49/73] fix: tarfs ReadLink names the path in its error

---
 tarfs/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index e6d0173..d9e3780 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -187,7 +187,12 @@ func (fsys *Fs) ReadLink(name string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return f.readLink()
+	target, err := f.readLink()
+	if err != nil {
+		overrideErr(err, func(err *fs.PathError) { err.Path = name })
+		return "", err
+	}
+	return target, nil
 }
 
 func (fsys *Fs) Lstat(name string) (fs.FileInfo, error) {
-- 
2.43.0


From a53587f31001b081c342ac6ca49b184a9953aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 50/73] fix: tarfs tells failing reads of a sparse map instead
 of taking the file for a whole one

---
 tarfs/headers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 34ae71b..5d8bc98 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -80,7 +80,11 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			hh.holes, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				yield(nil, fmt.Errorf("read tar archive: %w", err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-- 
2.43.0


From d8e2b9ba14944ee5874b71e65205c7a64b46fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 51/73] fix: tarfs refuses sparse entries whose map is at odds
 with their body

---
 tarfs/headers.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 5d8bc98..28ea14e 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -7,6 +7,7 @@ import (
 	"iter"
 	"math"
 	"path"
+	"strconv"
 )
 
 func tryMapsCollect[K comparable, V any](keyMapper func(V) K, seq iter.Seq2[V, error]) (map[K]V, error) {
@@ -170,9 +171,11 @@ func reconstructSparse(r io.ReaderAt, hdr *Section, blk *block) (sparseHoles, er
 	}
 }
 
-func handleSparseFile(sr io.Reader, hdr *Section, rawHdr *block) (sparseHoles, error) {
+func handleSparseFile(sr *io.SectionReader, hdr *Section, rawHdr *block) (sparseHoles, error) {
 	var spd sparseDatas
 	var err error
+	bodySize, sizeErr := recordedSize(hdr, rawHdr) // readOldGNUSparseMap reuses rawHdr
+	rawHdrEnd, _ := sr.Seek(0, io.SeekCurrent)
 	if hdr.h.Typeflag == tar.TypeGNUSparse {
 		spd, err = readOldGNUSparseMap(sr, rawHdr)
 	} else {
@@ -180,12 +183,41 @@ func handleSparseFile(sr io.Reader, hdr *Section, rawHdr *block) (sparseHoles, e
 	}
 
 	if err == nil && spd != nil {
+		if sizeErr != nil {
+			return nil, sizeErr
+		}
+		if hdr.h.Typeflag != tar.TypeGNUSparse {
+			// The map of version 1.0 is the head of the body.
+			bodySize -= sr.Size() - rawHdrEnd
+		}
+		for _, data := range spd {
+			bodySize -= data.Length
+		}
+		if bodySize != 0 {
+			// Bytes of the map are elsewhere than where it says.
+			return nil, tar.ErrHeader
+		}
 		return invertSparseEntries(spd, hdr.h.Size), nil
 	}
 
 	return nil, err
 }
 
+// recordedSize returns the size of the body as it is in the archive,
+// which for sparse files is not that of the file.
+func recordedSize(hdr *Section, rawHdr *block) (int64, error) {
+	if rec := hdr.h.PAXRecords["size"]; rec != "" {
+		size, err := strconv.ParseInt(rec, 10, 64)
+		if err != nil {
+			return 0, tar.ErrHeader
+		}
+		return size, nil
+	}
+	var p parser
+	size := p.parseNumeric(rawHdr.toV7().size())
+	return size, p.err
+}
+
 func readOldGNUSparseMap(sr io.Reader, blk *block) (sparseDatas, error) {
 	var p parser
 	s := blk.toGNU().sparse()
-- 
2.43.0


From da5ec8071dc4a26c52812bde5b9549969f598873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 52/73] fix: tarfs lists entries named a/. or a/b/.. under the
 names they are found at

---
 tarfs/fs.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index d9e3780..28cf154 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -90,7 +90,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		default:
 			continue
 		}
-		fsys.subRoot.addChild(key, headers[key])
+		fsys.subRoot.addChild(key, named(key, headers[key]))
 	}
 
 	// for root fsys root and subRoot is totally same.
@@ -102,6 +102,19 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	return fsys, nil
 }
 
+// named returns section with its header showing the base of name, which is the
+// cleaned name of it.
+func named(name string, section *Section) *Section {
+	if section.h.FileInfo().Name() == path.Base(name) {
+		return section
+	}
+	// "a/." or "a/b/.." for "a"
+	cleaned, header := *section, *section.h
+	header.Name = name
+	cleaned.h = &header
+	return &cleaned
+}
+
 // resolveHardlinks resolves every hardlink below d.
 func (fsys *Fs) resolveHardlinks(d *dir) {
 	for _, ent := range d.ordered {
-- 
2.43.0


From d4b0b0f87c9d37c92849d3de3804ab97e1651211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 53/73] fix: overlayfs addresses the root of a plain layer as
 "."

---
 vroot-adapter/overlayfs/datasource.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/datasource.go b/vroot-adapter/overlayfs/datasource.go
index 606fac3..16c88eb 100644
--- a/vroot-adapter/overlayfs/datasource.go
+++ b/vroot-adapter/overlayfs/datasource.go
@@ -126,7 +126,7 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 // is handed — clean, slash-separated, relative to the content root — and the
 // answer is spelled with the separator the backend expects. A canonical layer
 // keeps its content under "merged/"; a plain layer's root is its content root,
-// so the name comes back as it went in.
+// so the name comes back as it went in, the root itself as ".".
 //
 // Content and staging are addressed as two paths in one fs rather than as two
 // sub-Fs views, because copy-up publishes by renaming a staged file onto its
@@ -134,6 +134,9 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 func (d *DataSource) ContentPath(name string) string {
 	name = filepath.FromSlash(name)
 	if !d.canonical {
+		if name == "" {
+			return "."
+		}
 		return name
 	}
 	return filepath.Join(dirMerged, name)
-- 
2.43.0


From 854c3bb1cfd17cf2c34e92707410f95031499102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 54/73] fix: overlayfs MkdirAll goes through symlinks to
 directories

---
 vroot-adapter/overlayfs/mkdir.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vroot-adapter/overlayfs/mkdir.go b/vroot-adapter/overlayfs/mkdir.go
index 219a6af..f9adbfb 100644
--- a/vroot-adapter/overlayfs/mkdir.go
+++ b/vroot-adapter/overlayfs/mkdir.go
@@ -99,8 +99,8 @@ func (f *Fs) mkdirAll(name string, perm fs.FileMode) error {
 // [fsutil.ResolvePath] gives up at the first component it cannot Lstat, which for
 // MkdirAll is the normal case rather than a failure, so the walk is retried on
 // shorter and shorter prefixes until one lands and the components trimmed off are
-// put back. The symlinks in the part that exists are followed; what does not
-// exist has none to follow.
+// put back. The symlinks in the part that exists are followed, its last component
+// included; what does not exist has none to follow.
 func (f *Fs) mkdirAllName(name string) (string, error) {
 	cleaned := filepath.ToSlash(filepath.Clean(name))
 	if cleaned == "." {
@@ -110,7 +110,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		return "", vroot.ErrPathEscapes
 	}
 	for head, rest := cleaned, ""; ; {
-		resolved, err := f.resolve(filepath.FromSlash(head), true)
+		resolved, err := f.resolve(filepath.FromSlash(head), false)
 		if err == nil {
 			return childName(resolved, rest), nil
 		}
@@ -119,7 +119,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		}
 		i := strings.LastIndexByte(head, '/')
 		if i < 0 {
-			return "", err
+			return childName(f.base, childName(head, rest)), nil
 		}
 		rest = childName(head[i+1:], rest)
 		head = head[:i]
-- 
2.43.0


From eb429a151648f99d3aab12d5000184bf39ef159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 55/73] fix: overlayfs creates what a dangling symlink names,
 and O_EXCL refuses whatever stands at the name

---
 vroot-adapter/overlayfs/open.go    | 28 ++++++++++---------
 vroot-adapter/overlayfs/resolve.go | 44 ++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 39220df..5ef4bb8 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -23,28 +23,30 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	defer f.state.mu.Unlock()
 
 	creating := flag&os.O_CREATE != 0
-	full, err := f.resolve(name, false)
-	if err != nil {
-		// A create names what may not be there yet, so the walk only has to reach
-		// the parent and the final component is taken as written.
-		if !creating || !errors.Is(err, fs.ErrNotExist) {
-			return nil, fsutil.WrapPathErr("open", name, err)
-		}
+	exclusive := creating && flag&os.O_EXCL != 0
+	var full string
+	var err error
+	switch {
+	case exclusive:
+		// Whatever stands at name refuses it, a symlink included.
 		full, err = f.resolve(name, true)
-		if err != nil {
-			return nil, fsutil.WrapPathErr("open", name, err)
-		}
+	case creating:
+		full, err = f.resolveCreate(name)
+	default:
+		full, err = f.resolve(name, false)
+	}
+	if err != nil {
+		return nil, fsutil.WrapPathErr("open", name, err)
 	}
 
 	masked := false
 	res, err := f.state.lookup(full)
 	switch {
+	case err == nil && exclusive:
+		return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
 	case err == nil && res.info.IsDir():
 		return nil, fsutil.WrapPathErr("open", name, syscall.EISDIR)
 	case err == nil:
-		if creating && flag&os.O_EXCL != 0 {
-			return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
-		}
 		// O_TRUNC copies the data up only to drop it again. Copying anyway keeps
 		// one gate for every write instead of a second path that has to get the
 		// mode, the times and the parents right on its own.
diff --git a/vroot-adapter/overlayfs/resolve.go b/vroot-adapter/overlayfs/resolve.go
index fd5bf55..39d8de0 100644
--- a/vroot-adapter/overlayfs/resolve.go
+++ b/vroot-adapter/overlayfs/resolve.go
@@ -1,10 +1,13 @@
 package overlayfs
 
 import (
+	"errors"
 	"io/fs"
 	"path/filepath"
+	"strings"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 	"github.com/ngicks/go-fsys-helper/vroot"
 )
 
@@ -76,6 +79,47 @@ func (f *Fs) resolve(name string, skipLast bool) (string, error) {
 	return f.name(resolved)
 }
 
+// maxCreateLinks bounds the dangling symlinks [Fs.resolveCreate] follows.
+const maxCreateLinks = 40
+
+// resolveCreate is [Fs.resolve] for a file that may not be there yet. The walk
+// then only has to reach the parent and the final component is taken as written,
+// unless it is a symlink that leads nowhere: what is to be created is what the
+// link names, in whichever layer that name's parent is found.
+func (f *Fs) resolveCreate(name string) (string, error) {
+	for range maxCreateLinks {
+		full, err := f.resolve(name, false)
+		if err == nil || !errors.Is(err, fs.ErrNotExist) {
+			return full, err
+		}
+		full, err = f.resolve(name, true)
+		if err != nil {
+			return "", err
+		}
+		res, err := f.state.lookup(full)
+		if errors.Is(err, fs.ErrNotExist) {
+			return full, nil
+		}
+		if err != nil {
+			return "", err
+		}
+		if res.info.Mode()&fs.ModeSymlink == 0 {
+			return full, nil
+		}
+		target, err := res.src.fsys.ReadLink(res.path)
+		if err != nil {
+			return "", err
+		}
+		if filepath.IsAbs(target) {
+			return "", vroot.ErrPathEscapes
+		}
+		// full is keyed from the overlay's root, name from this view's.
+		dir := strings.TrimPrefix(strings.TrimPrefix(parentName(full), f.base), "/")
+		name = filepath.Join(filepath.FromSlash(dir), target)
+	}
+	return "", errdef.ELOOP
+}
+
 // locate is the step every read shares: resolve name over the merged view, then
 // look up where it lands. It reports the resolved name as well — the spelling
 // the masking state, and with it the open-handle count, is keyed by. The caller
-- 
2.43.0


From a14ded00b855e022cce065c78e8787f6731dabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 56/73] fix: overlayfs does not look a name up through a
 layer's own symlinks

---
 vroot-adapter/overlayfs/merged.go | 110 +++++++++++++-----------------
 vroot-adapter/overlayfs/rename.go |  14 ++--
 2 files changed, 56 insertions(+), 68 deletions(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 9715b85..41d5708 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -48,63 +48,59 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	name = cleanName(name)
 	cut := s.cutFrom(name, from)
 	for i := from; i <= cut; i++ {
-		path := s.layerPath(i, name)
-		info, err := s.layers[i].fsys.Lstat(path)
+		info, blocked, err := s.lstatIn(i, name)
 		switch {
-		case err == nil:
-			return lookupResult{layer: i, src: s.layers[i], path: path, info: info}, nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return lookupResult{}, probeErr
-			}
-			if blocked {
-				// Not this layer's business alone: a non-directory on the way to name
-				// fills a path every deeper layer would have to be reached through, so
-				// the search ends here instead of stepping around it.
-				return lookupResult{}, s.blockedErr(name)
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
-			continue
-		default:
-			// Anything else is the backend failing rather than answering, and a
-			// layer that cannot answer must not be read as an empty one.
+		case err != nil:
+			// The backend failing rather than answering, and a layer that cannot
+			// answer must not be read as an empty one.
 			return lookupResult{}, err
+		case blocked:
+			// Not this layer's business alone: a non-directory on the way to name
+			// fills a path every deeper layer would have to be reached through, so
+			// the search ends here instead of stepping around it.
+			return lookupResult{}, s.blockedErr(name)
+		case info != nil:
+			return lookupResult{
+				layer: i,
+				src:   s.layers[i],
+				path:  s.layerPath(i, name),
+				info:  info,
+			}, nil
 		}
 	}
 	return lookupResult{}, fs.ErrNotExist
 }
 
-// blockedIn reports whether layer i holds a non-directory where name would have
-// to be reached through. It is the question an Lstat error matching
-// [syscall.ENOTDIR] raises rather than settles.
+// lstatIn reports what layer i itself holds at name: nil when it holds nothing
+// there, blocked when it holds a non-directory where name would have to be
+// reached through.
 //
-// Only unix answers it in the errno. Windows spells syscall.ENOTDIR as
-// ERROR_PATH_NOT_FOUND, which it returns both for a component before the leaf
-// that is not a directory and for one that is not there at all, and which
-// matches [fs.ErrNotExist] besides — one value for the two answers the search
-// has to tell apart, since a layer that merely lacks the directory leaves the
-// layers below it to be read as usual. So the layer is asked directly and the
-// nearest ancestor it does show decides.
-func (s *overlayState) blockedIn(i int, name string) (bool, error) {
-	for n := parentName(name); ; n = parentName(n) {
-		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
+// The way down is walked one component at a time rather than left to a single
+// Lstat of the whole path. That Lstat would follow a symlink the layer holds on
+// the way, answering with what lies elsewhere in that one layer, where the merged
+// view holds a symlink or a directory of another layer; and Windows spells
+// syscall.ENOTDIR as ERROR_PATH_NOT_FOUND, one value for a component that is not
+// a directory and for one that is not there at all.
+func (s *overlayState) lstatIn(i int, name string) (info fs.FileInfo, blocked bool, err error) {
+	comps := ancestry(name)
+	if name == "" {
+		comps = []string{""}
+	}
+	for _, n := range comps {
+		info, err = s.layers[i].fsys.Lstat(s.layerPath(i, n))
 		switch {
 		case err == nil:
-			return !info.IsDir(), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			// Whatever stands in the way is further up still; asked before
-			// fs.ErrNotExist for the same reason the caller asks in this order.
-		case errors.Is(err, fs.ErrNotExist):
-			return false, nil
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
+			// Every component before it was seen to be a directory.
+			return nil, false, nil
 		default:
-			return false, err
+			return nil, false, err
 		}
-		if n == "" {
-			return false, nil
+		if n != name && !info.IsDir() {
+			return nil, true, nil
 		}
 	}
+	return info, false, nil
 }
 
 // blockedErr names what a non-directory component left behind: the merged view
@@ -144,29 +140,19 @@ func (s *overlayState) readDir(name string) ([]fs.DirEntry, error) {
 	seen := make(map[string]struct{})
 	cut := s.childCut(name)
 	for i := res.layer; i <= cut; i++ {
-		path := s.layerPath(i, name)
-		info, err := s.layers[i].fsys.Lstat(path)
+		info, blocked, err := s.lstatIn(i, name)
 		switch {
-		// A non-directory at name, or on the way to it in the case after this
-		// one, fills the path the layers below would be merged in through:
-		// nothing under them is part of this directory any more.
-		case err == nil && !info.IsDir():
-			return sortEntries(entries), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return nil, probeErr
-			}
-			if blocked {
-				return sortEntries(entries), nil
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
-			continue
 		case err != nil:
 			return nil, err
+		// A non-directory at name, or on the way to it, fills the path the layers
+		// below would be merged in through: nothing under them is part of this
+		// directory any more.
+		case blocked, info != nil && !info.IsDir():
+			return sortEntries(entries), nil
+		case info == nil:
+			continue
 		}
-		read, err := vroot.ReadDir(s.layers[i].fsys, path)
+		read, err := vroot.ReadDir(s.layers[i].fsys, s.layerPath(i, name))
 		if err != nil {
 			return nil, err
 		}
diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..2d3f66c 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -126,13 +126,15 @@ func (f *Fs) rename(oldname string, newname string) error {
 func (f *Fs) renameDirCheck(full string) error {
 	cut := f.state.childCut(full)
 	for i := 1; i <= cut; i++ {
-		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
-		case err == nil:
-			return errCrossDevice
-		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
-			continue
-		default:
+		info, blocked, err := f.state.lstatIn(i, full)
+		switch {
+		case err != nil:
 			return err
+		case blocked, info != nil && !info.IsDir():
+			// Nothing from here on down is merged into the directory.
+			return nil
+		case info != nil:
+			return errCrossDevice
 		}
 	}
 	return nil
-- 
2.43.0


From 7ca619ed7f8a026e7b355996835d191b1676d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 57/73] fix: overlayfs copies parent directories up from the
 layer that shows them

---
 vroot-adapter/overlayfs/write.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 64b26ce..2afdbc0 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -38,6 +38,10 @@ func (f *Fs) topPath(name string) string { return f.state.layerPath(0, name) }
 // layer holds is left alone too: the caller is creating it, and there is nothing
 // to copy.
 //
+// The directories above name come up first, each from the layer the merged view
+// shows it from, which need not be the one name itself is in: a parent taken from
+// there would change what the merged view reports for it.
+//
 // Masking is not the policy's business and barely this method's: a copy-up
 // changes which layer a name is read from, not whether it is visible, so what
 // masked it before masks it after. The one exception is an opaque mark left over
@@ -58,6 +62,9 @@ func (f *Fs) copyUp(name string) error {
 	case res.layer == 0:
 		return nil
 	}
+	if err := f.copyUp(parentName(name)); err != nil {
+		return err
+	}
 	from, err := res.src.contentView()
 	if err != nil {
 		return err
-- 
2.43.0


From 7f283b52f3315cd1e3372676db1ac13d6f9bd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 58/73] fix: overlayfs keeps a directory's opaque mark when it
 copies it up

---
 vroot-adapter/overlayfs/write.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 2afdbc0..a9c5c0d 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -42,11 +42,9 @@ func (f *Fs) topPath(name string) string { return f.state.layerPath(0, name) }
 // shows it from, which need not be the one name itself is in: a parent taken from
 // there would change what the merged view reports for it.
 //
-// Masking is not the policy's business and barely this method's: a copy-up
-// changes which layer a name is read from, not whether it is visible, so what
-// masked it before masks it after. The one exception is an opaque mark left over
-// on a name the top did not hold, which would start hiding the lower children of
-// a directory that was merged a moment ago.
+// Masking is not the policy's business, nor this method's: a copy-up changes which
+// layer a name is read from, not whether it is visible, so what masked it before
+// masks it after.
 //
 // The caller holds the write lock.
 func (f *Fs) copyUp(name string) error {
@@ -69,13 +67,7 @@ func (f *Fs) copyUp(name string) error {
 	if err != nil {
 		return err
 	}
-	if err := f.policy.CopyUp(from, f.top(), name); err != nil {
-		return err
-	}
-	if _, opaque := f.state.marks(0, name); opaque {
-		return f.state.clearOpaque(name)
-	}
-	return nil
+	return f.policy.CopyUp(from, f.top(), name)
 }
 
 // ensureParent establishes what a create needs before it writes: name's parent is
-- 
2.43.0


From 0cdb7f173ba9f0962aa25e1e34b558e10a836286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 59/73] fix: overlayfs records what masks a renamed name before
 it moves

---
 vroot-adapter/overlayfs/rename.go | 51 ++++++++++++++++++++++---------
 vroot-adapter/overlayfs/state.go  | 20 ++++++++++--
 2 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2d3f66c..7371c61 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -77,19 +77,12 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
-	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
-		return err
-	}
-
-	// Whatever stood at the new name is gone, and the marks describing it go with
-	// it — the whiteout a removal there left included, which is what lets a name
-	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
+	// The masking that has to stand once the move is made is recorded before it.
+	// None of it hides anything while the move has not happened: the top's own
+	// content shows through its own whiteout, the directory moving has nothing
+	// below it to lose ([Fs.renameDirCheck]), and the one it replaces is empty
+	// ([Fs.renameTargetCheck]). The other order leaves a window, when the store
+	// write fails, in which the layers below resurface under either name.
 	if oldRes.info.IsDir() {
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
@@ -103,13 +96,41 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		if err := f.state.clearUnder(newFull); err != nil {
+			return err
+		}
+		if err := f.state.renameSubtree(oldFull, newFull); err != nil {
+			return err
+		}
 	}
 	if maskOld {
 		// setWhiteout drops the old name's own opaque mark and everything recorded
 		// under it, which renameSubtree has already moved out of the way. A
 		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// the top is about to hold content there, and content in the top shadows
+		// them.
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
+	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
+		return err
+	}
+
+	// Whatever stood at the new name is gone, and the marks describing it go with
+	// it — the whiteout a removal there left included, which is what lets a name
+	// be renamed onto one that was deleted. What is left at the old name masks
+	// nothing the layers below show.
+	forget := f.state.clearSubtree
+	if oldRes.info.IsDir() {
+		forget = f.unmask
+	}
+	if err := forget(newFull); err != nil {
+		return err
+	}
+	if maskOld {
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..59847a8 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -191,8 +191,22 @@ func (s *overlayState) maskedUnder(dir string) (whiteouts []string, opaques []st
 // the branch where no whiteout is recorded and so nothing prunes for us.
 func (s *overlayState) clearSubtree(name string) error {
 	name = cleanName(name)
-	whiteouts, opaques := s.maskedUnder(name)
-	for _, n := range append(whiteouts, name) {
+	if err := s.clearUnder(name); err != nil {
+		return err
+	}
+	return s.clearMarks([]string{name}, []string{name})
+}
+
+// clearUnder forgets everything the top records strictly under name, which is
+// what an opaque mark on name makes redundant.
+func (s *overlayState) clearUnder(name string) error {
+	return s.clearMarks(s.maskedUnder(cleanName(name)))
+}
+
+// clearMarks forgets the whiteouts and the opaque marks recorded on the names
+// given, passing over the names the top records none on.
+func (s *overlayState) clearMarks(whiteouts []string, opaques []string) error {
+	for _, n := range whiteouts {
 		if _, ok := s.masks[0].whiteout[n]; !ok {
 			continue
 		}
@@ -200,7 +214,7 @@ func (s *overlayState) clearSubtree(name string) error {
 			return err
 		}
 	}
-	for _, n := range append(opaques, name) {
+	for _, n := range opaques {
 		if _, ok := s.masks[0].opaque[n]; !ok {
 			continue
 		}
-- 
2.43.0


From bfc3e4fa21f57de3c1009def7112ce1bb69972e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 60/73] fix: overlayfs metadata stores opened at the same time
 do not undo each other's marks

---
 vroot-adapter/overlayfs/internal/sqlvfs/file.go | 13 +++++++++----
 vroot-adapter/overlayfs/internal/sqlvfs/open.go | 17 ++++++++++++-----
 .../overlayfs/internal/sqlvfs/sqlvfs.go         |  6 +++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/vroot-adapter/overlayfs/internal/sqlvfs/file.go b/vroot-adapter/overlayfs/internal/sqlvfs/file.go
index bf4ea31..2a72821 100644
--- a/vroot-adapter/overlayfs/internal/sqlvfs/file.go
+++ b/vroot-adapter/overlayfs/internal/sqlvfs/file.go
@@ -27,6 +27,8 @@ var (
 // map onto the exclusive lock: that blocks other readers earlier than sqlite
 // would, which is harmless for a store that runs locking_mode=EXCLUSIVE.
 //
+// With exclusive set SHARED maps onto the exclusive lock as well, see [Open].
+//
 // Contention surfaces in whatever shape the platform gives it; none of it is
 // translated here. Where the lock is advisory a contended lock waits rather than
 // reporting sqlite3.BUSY, because [vroot.Locker] has no try or timeout form. On
@@ -45,6 +47,8 @@ type file struct {
 	name   string
 	flags  vfs.OpenFlag
 	lock   vfs.LockLevel
+
+	exclusive bool
 }
 
 func newFile(fsys vroot.Fs[vroot.File], name string, inner vroot.File, flags vfs.OpenFlag) *file {
@@ -115,7 +119,7 @@ func (f *file) Lock(lock vfs.LockLevel) error {
 	}
 	if f.locker != nil {
 		level := vroot.LockExclusive
-		if lock == vfs.LOCK_SHARED {
+		if lock == vfs.LOCK_SHARED && !f.exclusive {
 			level = vroot.LockShared
 		}
 		if err := f.locker.Lock(level); err != nil {
@@ -133,10 +137,11 @@ func (f *file) Unlock(lock vfs.LockLevel) error {
 	}
 	var err error
 	if f.locker != nil {
-		if lock == vfs.LOCK_SHARED {
-			err = f.locker.Lock(vroot.LockShared)
-		} else {
+		switch {
+		case lock != vfs.LOCK_SHARED:
 			err = f.locker.Unlock()
+		case !f.exclusive:
+			err = f.locker.Lock(vroot.LockShared)
 		}
 	}
 	// The level is lowered even on error, as the os VFS does: sqlite asserts on
diff --git a/vroot-adapter/overlayfs/internal/sqlvfs/open.go b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
index d39576a..72e78cc 100644
--- a/vroot-adapter/overlayfs/internal/sqlvfs/open.go
+++ b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
@@ -24,8 +24,16 @@ type DB struct {
 // overlay is the database's only user, and no journal mode needing shared
 // memory can work over a VFS that has none. Extra pragmas are applied after
 // those two, in the order given.
+//
+// The file is locked exclusively by the first lock sqlite takes. It counts on
+// nobody having written what it read under SHARED by the time it is given
+// RESERVED, and a [vroot.Locker] may let another holder in while it converts:
+// two connections opened at the same time would each go on from the same state
+// of the database, and the second undo what the first committed.
 func Open(fsys vroot.Fs[vroot.File], name string, pragmas ...string) (*DB, error) {
-	return open(fsys, name, url.Values{
+	f := Register(fsys)
+	f.exclusive = true
+	return open(f, name, url.Values{
 		"_pragma": append([]string{"locking_mode(exclusive)", "journal_mode(delete)"}, pragmas...),
 	})
 }
@@ -39,11 +47,10 @@ func Open(fsys vroot.Fs[vroot.File], name string, pragmas ...string) (*DB, error
 // database. In exchange a database some crashed writer left hot reads as it
 // stands, un-rolled-back; opening one read-only says nobody is writing it.
 func OpenReadOnly(fsys vroot.Fs[vroot.File], name string) (*DB, error) {
-	return open(fsys, name, url.Values{"mode": {"ro"}, "immutable": {"1"}})
+	return open(Register(fsys), name, url.Values{"mode": {"ro"}, "immutable": {"1"}})
 }
 
-func open(fsys vroot.Fs[vroot.File], name string, params url.Values) (*DB, error) {
-	f := Register(fsys)
+func open(f *FS, name string, params url.Values) (*DB, error) {
 	db, err := driver.Open(f.DSN(name, params))
 	if err == nil {
 		// An exclusive-locking connection cannot share the database with a second
@@ -59,7 +66,7 @@ func open(fsys vroot.Fs[vroot.File], name string, params url.Values) (*DB, error
 	}
 	if err != nil {
 		f.Unregister()
-		return nil, fmt.Errorf("sqlvfs: open %q in %s: %w", name, fsys.Name(), err)
+		return nil, fmt.Errorf("sqlvfs: open %q in %s: %w", name, f.fsys.Name(), err)
 	}
 	return &DB{DB: db, fs: f}, nil
 }
diff --git a/vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go b/vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go
index 67dce44..d782a1a 100644
--- a/vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go
+++ b/vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go
@@ -33,6 +33,8 @@ var _ vfs.VFS = (*FS)(nil)
 type FS struct {
 	name string
 	fsys vroot.Fs[vroot.File]
+	// exclusive makes every lock on a file opened for writing the exclusive one.
+	exclusive bool
 }
 
 // Register registers a VFS backed by fsys under a generated unique name and
@@ -101,7 +103,9 @@ func (f *FS) Open(name string, flags vfs.OpenFlag) (vfs.File, vfs.OpenFlag, erro
 	if err != nil {
 		return nil, flags, vfs.SystemError(err, sqlite3.CANTOPEN)
 	}
-	return newFile(f.fsys, name, file, flags), flags, nil
+	out := newFile(f.fsys, name, file, flags)
+	out.exclusive = f.exclusive && flags&vfs.OPEN_READONLY == 0
+	return out, flags, nil
 }
 
 // Delete implements [vfs.VFS].
-- 
2.43.0


From b6d0d51bfe6eabcd29d74d9f9078a491d1f17588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 61/73] fix: sftpfs MkdirAll leaves directories that exist as
 they are and gives each it makes its permission

---
 vroot-adapter/sftpfs/sftpfs.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index aab4ee8..24f6f91 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -165,8 +165,30 @@ func (s *SftpFs) MkdirAll(name string, perm fs.FileMode) error {
 	if err != nil {
 		return fsutil.WrapPathErr("mkdir", name, err)
 	}
-	if err := s.client.MkdirAll(abs); err != nil {
-		return err
+	return s.mkdirAll(abs, perm)
+}
+
+// mkdirAll makes the already-resolved peer-side directory abs and the parents
+// it lacks, following os.MkdirAll's structure: every directory made gets perm,
+// one that is already there keeps its own.
+func (s *SftpFs) mkdirAll(abs string, perm fs.FileMode) error {
+	if fi, err := s.client.Stat(abs); err == nil {
+		if fi.IsDir() {
+			return nil
+		}
+		return fsutil.WrapPathErr("mkdir", abs, syscall.ENOTDIR)
+	}
+	if parent := path.Dir(abs); parent != abs {
+		if err := s.mkdirAll(parent, perm); err != nil {
+			return err
+		}
+	}
+	if err := s.client.Mkdir(abs); err != nil {
+		// Someone else may have made it in the meantime.
+		if fi, lerr := s.client.Lstat(abs); lerr == nil && fi.IsDir() {
+			return nil
+		}
+		return mapSftpErr(err)
 	}
 	if perm != 0 {
 		_ = s.client.Chmod(abs, perm)
-- 
2.43.0


From bba65852e1fe23f5136ea17cbc45a1bbc2d5adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 62/73] fix: sftpfs opens an existing file with O_CREATE
 without changing its permission

---
 vroot-adapter/sftpfs/sftpfs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 24f6f91..c01e1a8 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -205,7 +205,7 @@ func (s *SftpFs) Open(name string) (vroot.File, error) {
 }
 
 // OpenFile implements [vroot.Fs]. perm is best-effort applied via
-// Chmod after the open succeeds.
+// Chmod after the open succeeds, to a file the open has created only.
 //
 // O_APPEND is honored by seeking to end of file after open because pkg/sftp's
 // stock Server does not implement append-on-write — it ignores SSH_FXF_APPEND
@@ -215,6 +215,11 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 	if err != nil {
 		return nil, fsutil.WrapPathErr("open", name, err)
 	}
+	created := false
+	if perm != 0 && flag&os.O_CREATE != 0 {
+		_, err := s.client.Stat(abs)
+		created = isSftpNotExist(err)
+	}
 	f, err := s.client.OpenFile(abs, flag)
 	if err != nil {
 		return nil, mapSftpErr(err)
@@ -225,7 +230,7 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
 	}
-	if perm != 0 && (flag&os.O_CREATE != 0) {
+	if created {
 		_ = s.client.Chmod(abs, perm)
 	}
 	return &sftpFile{File: f, client: s.client}, nil
-- 
2.43.0


From 06227f68e5abbb04a1939a462adb74855da41634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 63/73] fix: sftpfs ReadDir sorts its entries by name

---
 vroot-adapter/sftpfs/sftpfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index c01e1a8..783e230 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -384,6 +385,8 @@ func (s *SftpFs) ReadDir(name string) ([]fs.DirEntry, error) {
 	if err != nil {
 		return nil, err
 	}
+	// Servers list in whatever order they like; [fs.ReadDirFS] asks for this one.
+	slices.SortFunc(fis, func(i, j os.FileInfo) int { return strings.Compare(i.Name(), j.Name()) })
 	out := make([]fs.DirEntry, len(fis))
 	for i, fi := range fis {
 		out[i] = sftpDirEntry{fi: fi}
-- 
2.43.0


From 9dafbde89dac417f343dfc5263785da885add4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 64/73] fix: sftpfs does not remove, move or replace its base
 directory

---
 vroot-adapter/sftpfs/sftpfs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 783e230..43ae65c 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -255,6 +255,10 @@ func (s *SftpFs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
 	}
+	if abs == s.base {
+		// Consistency with *os.Root.Remove.
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return s.client.Remove(abs)
 }
 
@@ -347,6 +351,10 @@ func (s *SftpFs) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, err)
 	}
+	if oldAbs == s.base || newAbs == s.base {
+		// Consistency with *os.Root.Rename.
+		return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+	}
 
 	if s.posixRename {
 		return s.client.PosixRename(oldAbs, newAbs)
-- 
2.43.0


From 2ec5dad71aed48da09096197efd2f5b9537f1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 65/73] fix: sftpfs lists a directory anew after a seek to its
 start

---
 vroot-adapter/sftpfs/sftpfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 43ae65c..5a368fd 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -437,6 +437,18 @@ func (f *sftpFile) Sync() error {
 	return err
 }
 
+// Seek implements [io.Seeker]. As with [os.File], seeking a directory to its
+// start lists it anew.
+func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
+	n, err := f.File.Seek(offset, whence)
+	if err == nil && n == 0 {
+		f.dirMu.Lock()
+		f.dirLoaded, f.dirEntries, f.dirErr = false, nil, nil
+		f.dirMu.Unlock()
+	}
+	return n, err
+}
+
 // loadDir fetches the directory listing once and caches it for paginated
 // readers below.
 func (f *sftpFile) loadDir() error {
-- 
2.43.0


From e394e4196b9ee7cd11c3c28d78851548feb3b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 66/73] fix: sftpfs RemoveAll does not report success over a
 dangling symlink it could not remove

---
 vroot-adapter/sftpfs/sftpfs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 5a368fd..a28f373 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -295,12 +295,14 @@ func (s *SftpFs) removeAll(abs string) error {
 	// back from unlink to rmdir, so a single call also clears empty
 	// directories and removes symlinks without following them.
 	err := s.client.Remove(abs)
-	if err == nil || isSftpNotExist(err) {
+	if err == nil {
 		return nil
 	}
 
 	// Otherwise, is this a directory we need to recurse into? Lstat (not
-	// Stat) so a symlink is described, never traversed.
+	// Stat) so a symlink is described, never traversed. It also tells whether
+	// there is anything: Remove says "not exist" of a dangling symlink the
+	// server refuses to remove.
 	fi, lerr := s.client.Lstat(abs)
 	if lerr != nil {
 		if isSftpNotExist(lerr) {
-- 
2.43.0


From 069536bc413a9c09c8d7b06d6c6721376de124d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 67/73] fix: fsutil copy does not take a file in the way for
 the directory to make

---
 fsutil/copy_fs.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 7ea57e7..7c8e9c1 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -189,8 +189,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		if dir == "." {
 			continue
 		}
-		err := dst.Mkdir(dir, fs.ModePerm)
-		if err != nil && !errors.Is(err, fs.ErrExist) {
+		err := mkdirOrExist(dst, dir)
+		if err != nil {
 			return err
 		}
 		// Extract the relative part by removing root prefix
@@ -226,6 +226,28 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 	return held.apply(dst)
 }
 
+// mkdirOrExist makes a directory unless there is one already.
+func mkdirOrExist(dst MkdirFs, path string) error {
+	err := dst.Mkdir(path, fs.ModePerm)
+	if err == nil || !errors.Is(err, fs.ErrExist) {
+		return err
+	}
+	statFs, ok := dst.(StatFs)
+	if !ok {
+		return nil
+	}
+	info, statErr := statFs.Stat(path)
+	if statErr != nil {
+		return statErr
+	}
+	if !info.IsDir() {
+		// What exists is not a directory; an empty source directory has no
+		// child whose copying would tell.
+		return err
+	}
+	return nil
+}
+
 // copyEntry performs the actual copy operation for a single entry
 func (opt CopyFsOption[Fsys, File]) copyEntry(
 	dst Fsys,
@@ -245,8 +267,8 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 	switch {
 	case info.IsDir():
 		// Create directory with fs.ModePerm then set proper permissions
-		err = dst.Mkdir(dstPath, fs.ModePerm)
-		if err != nil && !errors.Is(err, fs.ErrExist) {
+		err = mkdirOrExist(dst, dstPath)
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 6c811701680ef87749e5cb856d620a1acb31421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 68/73] fix: FsSink drops the old etag when a transfer without
 one starts afresh

---
 fsutil/resumable_fs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index fc6b938..309ece2 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -267,6 +267,14 @@ func (s *FsSink[Fsys, File]) Append(
 		}
 		writeETag = stored != info.ETag
 	}
+	if info.ETag == "" && offset == 0 {
+		// A fresh start replaces the old identity along with the old data.
+		rerr := s.fsys.Remove(s.sidecarPath())
+		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
+	}
 	if writeETag {
 		if werr := s.writeSidecar(info.ETag); werr != nil {
 			_ = f.Close()
-- 
2.43.0


From ed69b3085b900c458d44d681ed296624992bb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:44 +0000
Subject: [PATCH 69/73] fix: testhelper: set a directory's mode and mtime once
 it is filled

CreateDir applied both before what is declared below the directory was
created: the mtime did not last, and a directory without write permission
failed the setup of its own children.
---
 fsutil/testhelper/setup.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/fsutil/testhelper/setup.go b/fsutil/testhelper/setup.go
index b3622ec..c10d83b 100644
--- a/fsutil/testhelper/setup.go
+++ b/fsutil/testhelper/setup.go
@@ -16,9 +16,22 @@ func (c *C[T, F, Fs]) Setup(setups ...SetupProc[F, Fs]) {
 	c.record("Setup(%d procs)", len(setups))
 	ordered := slices.Clone(setups)
 	slices.SortStableFunc(ordered, compareSetupProc[F, Fs])
+	var dirs []*CreateDir[F, Fs]
 	for _, setup := range ordered {
 		c.record("SetupProc(%s)", describeSetupProc(setup))
-		if err := setup.Setup(c.fsys); err != nil {
+		run := setup.Setup
+		if dir, ok := setup.(*CreateDir[F, Fs]); ok {
+			dirs = append(dirs, dir)
+			run = dir.create
+		}
+		if err := run(c.fsys); err != nil {
+			c.ReportFailf("Setup: %v", err)
+		}
+	}
+	// Filling a directory needs its write permission and changes its mtime:
+	// both are set once everything is in place, the deepest directory first.
+	for _, dir := range slices.Backward(dirs) {
+		if err := dir.setAttrs(c.fsys); err != nil {
 			c.ReportFailf("Setup: %v", err)
 		}
 	}
@@ -143,9 +156,20 @@ func (p *CreateDir[F, Fs]) Order() int {
 }
 
 func (p *CreateDir[F, Fs]) Setup(fsys Fs) error {
+	if err := p.create(fsys); err != nil {
+		return err
+	}
+	return p.setAttrs(fsys)
+}
+
+func (p *CreateDir[F, Fs]) create(fsys Fs) error {
 	if err := fsys.MkdirAll(p.Name, fs.ModePerm); err != nil {
 		return fmt.Errorf("CreateDir: MkdirAll %q: %w", p.Name, err)
 	}
+	return nil
+}
+
+func (p *CreateDir[F, Fs]) setAttrs(fsys Fs) error {
 	if p.Mode != 0 {
 		if err := fsys.Chmod(p.Name, p.Mode.Perm()); err != nil {
 			return fmt.Errorf("CreateDir: Chmod %q: %w", p.Name, err)
-- 
2.43.0


From d3027c015dccd79db0587efd0aa443b4d2022d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 70/73] fix: testhelper: quoted content may hold " -> " in a
 setup line

Such a line was taken for a symlink whose name held the content.
---
 fsutil/testhelper/setup.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fsutil/testhelper/setup.go b/fsutil/testhelper/setup.go
index c10d83b..910c2de 100644
--- a/fsutil/testhelper/setup.go
+++ b/fsutil/testhelper/setup.go
@@ -63,7 +63,7 @@ type SetupProc[F File, Fs Fsys[F]] interface {
 
 func ParseSetupProcLine[F File, Fs Fsys[F]](line string) (SetupProc[F, Fs], error) {
 	switch {
-	case strings.Contains(line, " -> "):
+	case strings.Contains(line, " -> ") && !hasQuotedContent(line):
 		path, targetPath, _ := strings.Cut(line, " -> ")
 		if path == "" || targetPath == "" {
 			return nil, fmt.Errorf("invalid symlink setup line %q", line)
@@ -104,6 +104,14 @@ func ParseSetupProcLine[F File, Fs Fsys[F]](line string) (SetupProc[F, Fs], erro
 	}
 }
 
+// hasQuotedContent reports whether line is of a file with a quoted content, which
+// may hold any other separator.
+func hasQuotedContent(line string) bool {
+	path, content, ok := strings.Cut(line, ": ")
+	return ok && !strings.Contains(path, " -> ") &&
+		(strings.HasPrefix(content, `"`) || strings.HasPrefix(content, "`"))
+}
+
 func compareSetupProc[F File, Fs Fsys[F]](l, r SetupProc[F, Fs]) int {
 	return cmp.Or(
 		cmp.Compare(l.Order(), r.Order()),
-- 
2.43.0


From 1c5c9df5d75469f206536ef493721dc883a661a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:43 +0000
Subject: [PATCH 71/73] fix: overlayfs copy-up keeps the sticky bit

---
 vroot-adapter/overlayfs/copyup.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/copyup.go b/vroot-adapter/overlayfs/copyup.go
index f1b776c..be7e32e 100644
--- a/vroot-adapter/overlayfs/copyup.go
+++ b/vroot-adapter/overlayfs/copyup.go
@@ -213,8 +213,12 @@ func (p *CopyUpPolicyWork) materializeParents(
 // carried it, since a umask may have taken bits off it. atime is set to
 // info.ModTime() for want of anything better — [fs.FileInfo] reports no access
 // time portably.
+//
+// The sticky bit is part of the mode: a shared directory must not lose it by
+// being written in. Setuid and setgid stay behind, the owner and the group they
+// speak of being the copier's now.
 func copyAttrs(fsys vroot.Fs[vroot.File], path string, info fs.FileInfo) {
-	_ = fsys.Chmod(path, info.Mode().Perm())
+	_ = fsys.Chmod(path, info.Mode()&(fs.ModePerm|fs.ModeSticky))
 	_ = fsys.Chtimes(path, info.ModTime(), info.ModTime())
 }
 
-- 
2.43.0


From 7d7d990b8f309a8d4b3d702c6704b87c15b14d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:16 +0000
Subject: [PATCH 72/73] fix: fileserver: count chunks of a size near the
 largest int64

---
 stream/fileserver/chunk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index 40cf2ef..7d1ad03 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -20,8 +20,12 @@ func chunkCount(totalSize, chunkSize int64) int64 {
 	if totalSize == 0 {
 		return 1 // one empty chunk for zero-size objects
 	}
-	// Ceiling division: (totalSize + chunkSize - 1) / chunkSize.
-	return (totalSize + chunkSize - 1) / chunkSize
+	// Ceiling division. The sum of the two may be more than an int64 holds.
+	n := totalSize / chunkSize
+	if totalSize%chunkSize > 0 {
+		n++
+	}
+	return n
 }
 
 // expectedChunkSize returns the expected byte count of chunk i.
-- 
2.43.0


From f745f5c46da954f1cfd7491646eb1f278b0be72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:24 +0000
Subject: [PATCH 73/73] fix: synthfs: refuse sizes no memory holds instead of
 panicking

---
 vroot/synthfs/view_mem_buf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index d66b31b..94cba4e 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -19,6 +19,10 @@ import (
 	"github.com/ngicks/go-fsys-helper/vroot/internal/openflag"
 )
 
+// maxMemSize is the largest size of a memBuf. Growing a slice much beyond it
+// panics.
+const maxMemSize = int64(min(math.MaxInt, 1<<40))
+
 // memBuf is the shared byte buffer behind a memView. Multiple handles opened
 // from the same view share one buf, so writes through one handle are visible
 // to subsequent reads through another.
@@ -77,6 +81,9 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
+	if off+int64(len(p)) > maxMemSize {
+		return 0, fmt.Errorf("synthfs: file too large: %w", syscall.EINVAL)
+	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	return b.write(p, off), nil
@@ -106,6 +113,9 @@ func (b *memBuf) truncate(size int64) error {
 	if size < 0 {
 		return syscall.EINVAL
 	}
+	if size > maxMemSize {
+		return fmt.Errorf("synthfs: file too large: %w", syscall.EINVAL)
+	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	if grow := int(size) - len(b.content); grow > 0 {
-- 
2.43.0

