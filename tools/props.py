#!/usr/bin/env python3
"""The source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    for f in files:
        assert os.path.exists(os.path.join('/repo', f)), (id, f)
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})


prop("C01", "A concatenated reader reads exactly like the concatenation of its parts",
     "For any list of segments that hold as many bytes as they declare (empty ones included), a multi reader behaves for every history of Read, ReadAt and Seek like one reader over the segments' bytes put together: same bytes, same positions, io.EOF exactly at the end, errors for negative positions and unknown whence values. ReadAt never moves the sequential position and may be called from many goroutines at once.",
     ["inputs", "histories", "schedules"], "all segment lists, both sides of the lookup's size threshold; all Read/ReadAt/Seek histories; all interleavings of ReadAt",
     "The tests walk a few fixed segment lists and histories; boundary positions, empty runs and the two lookup algorithms multiply past what examples reach.",
     ["stream/multi_read_at_closer.go"], [("segment lookup and offset translation", "multiReadAtSeekCloser, search, binarySearch in stream/multi_read_at_closer.go")])
prop("C02", "A mis-sized or failing segment is never read over silently",
     "When a segment of a multi reader holds fewer or more bytes than it declares, or fails, no read reports success or a clean end of file over the affected bytes: short segments raise io.ErrUnexpectedEOF, long ones stream.ErrInvalidSize, failing ones their own error. The error is a MultiReadError naming the segment at fault and offsets that fit it, every byte returned before the fault is the right one, and who reads on after a failure that passes meets neither a gap nor a repeat.",
     ["inputs", "fault_sequences", "histories"], "all placements of short, long and failing segments, all buffer sizes and read offsets",
     "Each test places one fault in one segment of one list; which segment, which buffer length and whether EOF comes with data decide the path taken.",
     ["stream/multi_read_at_closer.go"], [("size bookkeeping per segment", "Read and readAt in stream/multi_read_at_closer.go")])
prop("C03", "A sequential ReaderAt equals its object at one open per sequential run",
     "A reader built over an offset-opener answers every ReadAt with the object's bytes at that offset under the io.ReaderAt contract, whatever sizes and EOF style the opened streams use, and surfaces open and stream errors. Contiguous reads share one opened stream; a jump closes it before opening another, and no stream is read after close, closed twice or left open after Close.",
     ["inputs", "histories", "fault_sequences"], "all ReadAt/Close histories over all stream behaviours, with open and mid-stream failures anywhere",
     "The tests use one well-behaved stream and a handful of offsets; stream chunking and failures interact with the kept-open position over a history.",
     ["stream/seq_reader_at.go"], [("kept-open stream and its offset", "seqReaderAt.ReadAt in stream/seq_reader_at.go")])
prop("C04", "Reader helpers keep data, stop on cancel for good, and close everything",
     "A cancellable reader passes its source's bytes through unchanged until the context is cancelled or the source fails, and from then on reports that same outcome from every call without touching the source again. A multi read closer yields its sources' bytes in order and closes every source; closing any multi reader closes every closable part even when some fail, and the joined error reports every failure. A byte repeater yields its byte for every length.",
     ["inputs", "histories", "fault_sequences"], "all sources, cancellation points, subsets of parts failing to close",
     "Tests fix one cancellation point and one failing closer.",
     ["stream/cancellable.go", "stream/multi_read_closer.go", "stream/multi_read_at_closer.go", "stream/internal/serr/gathered.go", "stream/repeat.go"],
     [("sticky error", "stream/cancellable.go"), ("gathered close errors", "stream/internal/serr/gathered.go")])

prop("C05", "A safe write replaces its target wholly or not at all",
     "SafeWrite, Copy and CopyFs, under either temp-file policy, leave the target either as it was or holding exactly the complete new content (or tree) with the permission asked for, whatever call, hook, source read, cancellation or crash fails and at whatever point. An error from the source, a write, a sync, a close the caller did not excuse, a hook or the rename is returned and the target is then untouched; a failed write leaves no temp file behind (only a crash may). Concurrent writers and readers of one target only ever see one writer's whole content.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "all contents, both policies, every file-system call as fault or crash point, all interleavings of writers and readers",
     "Tests fail a chosen call or two; atomicity has to survive a failure or crash at each call of each option's path.",
     ["fsutil/safe_write.go", "fsutil/copy_fs.go"],
     [("write to temp, sync, rename", "SafeWriteOption in fsutil/safe_write.go"), ("temp placement", "TempFilePolicy implementations in fsutil")])
prop("C06", "Temp files get fresh, legal, recognisable names and only they are cleaned up",
     "For every target name, up to the longest a file system takes, a temp-file policy creates its temp file or directory under a fresh name that never opens or overwrites an existing entry, that fits the name length limit, and that the policy's own Match and WalkFunc recognise. Cleaning up with the WalkFunc removes exactly the entries the policy owns and no other. OpenFileRandom and MkdirRandom retry on collision, give up with an error after their bound, pass other errors on at once, reject patterns with a separator, and leave nothing behind on error.",
     ["inputs", "fault_sequences", "histories"], "all names (any bytes, any length), all sets of neighbouring entries, all collision runs",
     "Names that overflow the limit only in bytes, patterns holding '*' and near-miss neighbours are not in any test's list.",
     ["fsutil/safe_write.go", "fsutil/open_random.go", "fsutil/truncate_utf8.go"],
     [("name making and matching", "TempFilePolicyDir and TempFilePolicyRandom"), ("retry loop", "OpenFileRandom and MkdirRandom")])
prop("C07", "Copying a tree yields an equal tree or an error that says why not",
     "CopyAll and CopyPath reproduce the chosen part of a source tree below the destination root: the same directories, file bytes, symlink targets and permission bits as the option's mask leaves them, also for read-only directories, existing destination files and any umask; nothing outside the chosen part or the destination root is written. When any source or destination call fails, a close included, the copy returns that error instead of success unless IgnoreErr takes it, and every handle it opened is closed.",
     ["inputs", "fault_sequences"], "all trees, chosen paths, mask and root choices, and every call as a failing one",
     "Tests copy two fixed trees without faults.",
     ["fsutil/copy_fs.go"], [("walk and per-entry copy", "CopyFsOption in fsutil/copy_fs.go")])
prop("C08", "Path resolution ends where following the path step by step would",
     "ResolvePath, over any tree of directories, files and symlinks (chained, through other links, relative, upward, absolute, dangling, cyclic), returns the link-free path that walking the name component by component reaches, keeping a final symlink when asked to skip it. A name that leads outside the root fails with the escape error, a cycle or over-long chain with ELOOP, a missing or non-directory component with the matching error, never a wrong path and never endless.",
     ["inputs"], "all symlink trees and all relative paths over them; link targets that use '..' inside their middle are read lexically and left out",
     "The shapes that matter are compositions of links; the tests list single ones.",
     ["fsutil/resolve_symlink.go"], [("component loop and link following", "ResolvePath and ResolveSymlink in fsutil")])
prop("C09", "A resumable pull ends with exactly one whole version of the source",
     "Pull leaves the destination absent, as it was, or holding byte for byte one version of the source with the size that version declared, through any history of interruptions, source errors, early ends, cancellation, file-system faults and crashes, and resumptions while the source changes or not. It never splices two versions, reports success without a complete destination, or gets stuck: a fault-free pull after any history completes. A partial file whose version still matches is resumed from where it ended.",
     ["histories", "fault_sequences", "crash_points", "inputs"], "all histories of pulls with any fault at any call between them and any change of source version",
     "Corruption needs a particular interruption followed by a particular change of source, over several runs.",
     ["fsutil/resumable.go"], [("part file and sidecar of size and etag", "Pull in fsutil")])
prop("C10", "A resumable push ends with exactly one whole version at the sink",
     "Push, into a file-system sink or any sink that keeps its contract, leaves the remote name absent, as it was, or holding byte for byte one version of the local file, through any history of interruptions, sink errors, cancellation, crashes, and resumptions while the local file changes or not. It never commits a mixture, a short or an over-long copy, nor reports success without having committed; a fault-free push after any history completes, and appends only what a matching partial copy lacks.",
     ["histories", "fault_sequences", "crash_points", "inputs"], "all histories of pushes with any fault at any call between them and any change of the local file",
     "Corruption needs a particular interruption followed by a particular change of source, over several runs.",
     ["fsutil/resumable.go", "fsutil/resumable_fs.go"], [("sink state and append offset", "Push and FsSink in fsutil")])
prop("C11", "String, path, mode and error helpers keep their contracts on every input",
     "Truncation to a byte limit returns the longest prefix that fits and splits no rune. Iterating a path from its head or tail yields each ancestor of the cleaned path exactly once, in order, the path itself included, and stops when told. The chmod masks keep exactly the bits their platform can change, and error wrapping keeps the cause reachable through errors.Is and As, fills in op and path, maps nil to nil and leaves wrapped errors of the same kind single-layered.",
     ["inputs"], "all strings and limits, all paths, all 32-bit modes, all errors",
     "Tests list a few values each.",
     ["fsutil/truncate_utf8.go", "fsutil/pathutil/head_tail.go", "fsutil/chmod_mask.go", "fsutil/wrap_path_err.go"], [("helpers", "fsutil")])

prop("C12", "An HTTP range reader reads as the object it stands for",
     "Over a server that keeps to one version of the object, New and NewRange give a reader whose ReadAt, Size, Probe and section readers answer for every offset, length, order and number of concurrent callers what the bytes of the object, or of the section, answer: io.EOF exactly at the end, never fewer bytes without an error. It holds whether the size is known beforehand or not, whether answers are chunked, short in their reads, or have strong, weak or no validators, and every response body is closed.",
     ["inputs", "histories", "schedules", "configurations"], "all sizes, sections, read histories, concurrent readers and truthful server styles",
     "Which answer is reused, extended or dropped depends on the reads before; tests make a few in order.",
     ["stream/httprange/httprange.go", "stream/httprange/reader_at.go", "stream/httprange/stream.go", "stream/httprange/range.go", "stream/httprange/probe.go"], [("lane reuse and one-shot requests", "ReaderAt in stream/httprange/reader_at.go"), ("size discovery", "stream/httprange/probe.go")])
prop("C13", "No misbehaving HTTP server makes a range reader give wrong bytes",
     "Whatever a server answers (200 to a range, another range than asked, truncated, overlong or broken bodies, missing or malformed Content-Range, encoded bodies, odd statuses, an object replaced between requests), bytes handed out are those of one version of the object at their offsets, and io.EOF is said only at its true end. Anything else is an error, which for a replaced object says so, and no response body stays open.",
     ["inputs", "fault_sequences", "histories"], "all sequences of server answers, versions and validators under all read histories",
     "Mixing two versions needs a change between two particular requests; tests have one bad answer at a time.",
     ["stream/httprange/reader_at.go", "stream/httprange/content_range.go", "stream/httprange/range.go", "stream/httprange/probe.go", "stream/httprange/stream.go"], [("validation of answers", "stream/httprange/range.go and content_range.go"), ("validators and version checks", "stream/httprange/reader_at.go")])
prop("C14", "A range reader asks for what it lacks only, and tells no secret",
     "Each read makes at most one request, for exactly the missing bytes clipped to the section and the known size, with If-Range carrying the strong validator, identity encoding and the static headers of construction time; a section read in order makes one request in all, and reads that need none make none. No error text shows the user info, query or fragment of a URL or a header value, however the URL is malformed or the error nested, while errors.Is still finds the cause.",
     ["inputs", "histories"], "all read histories with their requests foretold; all well- and ill-formed URLs and transport failures",
     "Request counts are tested for a few sequences, redaction for well-formed URLs.",
     ["stream/httprange/reader_at.go", "stream/httprange/redact.go", "stream/httprange/stream.go", "stream/httprange/range.go"], [("request construction", "stream/httprange/range.go"), ("redaction", "stream/httprange/redact.go")])
prop("C15", "A file-server client stores and finds objects, in chunks too, or says it did not",
     "HTTPClient puts, sizes and gets back from any offset exactly the bytes stored under each name, whatever the name holds and whatever path, query or user info the base URL has; a missing object is fs.ErrNotExist, any other answer an error without secrets, a range starting elsewhere included, and bodies are closed. ChunkedSink.State reports the complete prefix, Append succeeds only when every chunk from there on is stored whole, leaves chunks it did not finish to be found and redone and no temporary files, and ChunkedSource reads the object from any offset with one request per chunk in order, never wrong bytes or an early end when chunks are missing or cut.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all names, base URLs, sizes and chunk sizes, histories of broken pushes and reads, server answers",
     "Resume correctness needs a failure at a particular chunk and byte; tests use well-formed URLs and a few offsets.",
     ["stream/fileserver/client.go", "stream/fileserver/chunk.go"], [("URL and status mapping", "HTTPClient in stream/fileserver/client.go"), ("chunk arithmetic", "ChunkedSource and ChunkedSink in stream/fileserver/chunk.go")])
prop("C16", "A tar file system shows exactly what the archive holds",
     "tarfs.New over any archive archive/tar can write or GNU tar produces (ustar, PAX and GNU headers, all sparse formats, repeated members, missing parent entries, hardlinks) gives the tree the archive holds by its last member of each name: same names, kinds, modes, sizes, times and file bytes through Read, ReadAt and Seek, each directory listing each child once, and Sections tells where each header and body lies. A read of the archive that fails surfaces as that error, in New or in the file it hits, never as missing or wrong bytes; files may be read from many goroutines at once.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all archives of supported member kinds, all read histories, a failing read anywhere",
     "Formats, member orders and sparse maps multiply; the tests hold a few archives made by one tool.",
     ["tarfs/fs.go", "tarfs/headers.go", "tarfs/entdir.go", "tarfs/entfile.go", "tarfs/enthardlink.go", "tarfs/reader.go"],
     [("offset bookkeeping", "Sections in tarfs/headers.go"), ("sparse reads", "tarfs/reader.go"), ("tree building", "New in tarfs/fs.go and addChild in tarfs/entdir.go")])
prop("C17", "Links in a tar file system resolve as on disk and never past its root",
     "Open, Stat, ReadDir, Sub, Lstat and ReadLink resolve symlinks (relative ones, chains, through directories, loops) as an operating system would on the extracted tree, and hardlinks, chains of them included, to the member they name: same target, or a failure where that would fail, with loops ending in ELOOP. Absolute targets and, when rooted, targets climbing above the root or the root of the Sub are refused as ErrPathEscapes, so nothing outside a rooted Sub is shown through symlinks.",
     ["inputs", "histories"], "all trees of directories, files, symlinks and hardlinks, all paths, rooted or not, nested subs",
     "Which combination of '..', chained links and subs escapes or loops is not foreseen by a list of examples.",
     ["tarfs/entdir.go", "tarfs/entsymlink.go", "tarfs/enthardlink.go", "tarfs/fs.go"],
     [("path walk", "openChildResolve in tarfs/entdir.go"), ("hardlinks", "resolveHardlink in tarfs/fs.go")])
prop("C18", "No bytes make a tar file system panic, hang or show what is not there",
     "Whatever bytes it is given, tarfs.New returns an error where archive/tar refuses them and otherwise a file system of which every operation returns: it can be walked, its names are single valid path elements listed once, listings agree with Lstat, and a regular file reads as archive/tar reads it. Members with invalid names, odd kinds, links to themselves or to their parents, and maps at odds with their bodies cause an error or are left out, never a panic, endless recursion, or bytes of another member.",
     ["inputs"], "all byte strings, dense around archives with some blocks changed, dropped, doubled or cut",
     "Tests only read well-formed archives.",
     ["tarfs/headers.go", "tarfs/fs.go", "tarfs/entdir.go", "tarfs/enthardlink.go", "tarfs/reader.go"],
     [("header collection", "tarfs/headers.go"), ("name checks", "New in tarfs/fs.go")])
prop("C19", "No path or symlink leads a rooted file system out of its root",
     "A Root (osfs, synthfs, the path-converting wrappers and every sub-root opened from one) refuses with vroot.ErrPathEscapes each path that climbs out by '..', is absolute, or passes a symlink leading outside, for every operation and after any history of renames, links and symlinks, exactly where *os.Root refuses; nothing outside is read, changed or removed. An Fs that promises only lexical confinement (osfs.Fs, PathPrefixFs, Sub) refuses every path that climbs out lexically, before touching anything. Neither deletes its own root directory.",
     ["inputs", "histories"], "all paths, symlink targets and histories of operations, for all roots and prefix views",
     "Escapes need a composition of links, moves and '..' that no fixed list of names contains.",
     ["vroot/osfs/fs.go", "vroot/osfs/root.go", "vroot/pathprefix.go", "vroot/pathnormalizer.go", "vroot/synthfs/tree.go", "vroot/funcs.go"],
     [("lexical check", "resolvePath in vroot/osfs and vroot/pathprefix.go"), ("walk inside the root", "vroot/synthfs")])
prop("C20", "A read-only view shows everything and changes nothing",
     "A read-only wrapper refuses, with EROFS by itself and EPERM by its files, every operation of an Fs, Root, file or sub-root that could change anything, whatever flags, paths and history are used, and leaves contents, modes, times, link targets and names behind it untouched. Every reading operation answers exactly as the wrapped file system does.",
     ["inputs", "histories"], "all operations, open flags and paths over all trees, on the view, its files and its sub-roots",
     "Tests call each operation once with ordinary arguments; odd flag combinations and handles are where writes slip through.",
     ["vroot/readonly.go"], [("refusal per operation and flag mask", "vroot/readonly.go")])
prop("C21", "Wrappers pass every call through unchanged",
     "Widen, path normalizing and localizing wrappers and prefix views give for every history of calls the same results, errors, handles and final tree as calling the wrapped file system with the converted path, and a failed open yields a nil file, never a non-nil interface around a nil pointer. Optional capabilities of what is wrapped (OpenRoot, Sub, locks) stay reachable as documented.",
     ["inputs", "histories"], "all histories of calls through all wrapper compositions",
     "Each of some twenty methods must hand on each argument and error; tests exercise a few of them once.",
     ["vroot/widen.go", "vroot/pathnormalizer.go", "vroot/pathprefix.go"], [("delegation", "vroot/widen.go, vroot/pathnormalizer.go, vroot/pathprefix.go")])
prop("C22", "WalkDir visits each reachable entry once and always ends",
     "vroot.WalkDir calls its function for every entry of the tree exactly once in lexical order, parents before children, with the entry's Lstat info; with symlink resolution on it enters each directory link whose real target it is not already inside of, so that it ends on every link cycle, and reports the resolved real path. SkipDir, SkipAll, visitor errors and failing Stat, Open or ReadDir calls have the effect fs.WalkDir documents, and no file stays open.",
     ["inputs", "fault_sequences"], "all trees with links and cycles, all placements of skips, errors and failing calls",
     "Tests walk a few trees; cycles, links to links and faults in the middle of a directory combine.",
     ["vroot/walk.go"], [("loop state and recursion", "WalkDir and walkDir_ in vroot/walk.go")])
prop("C23", "The bridges to and from io/fs and the file helpers keep what they carry",
     "ToIoFs and ToIoFsRoot give an fs.FS that refuses exactly the names fs.ValidPath refuses and otherwise answers every read as os.DirFS over the same tree does; FromIoFs gives a vroot file system that serves every tree an fs.FS holds, whatever optional interfaces it has, refuses every change, and lists directories once per pass with the entries that still exist. ReadDir, ReadFile, WriteFile and Sub give all of the content or the first error of what they call, and close what they open.",
     ["inputs", "fault_sequences"], "all trees, names, buffer sizes, read sequences, sets of optional interfaces of the fs.FS, and every call below as a failing one",
     "Which fallback is taken depends on what the wrapped file implements; tests have one or two kinds of file.",
     ["vroot/iofs_to.go", "vroot/iofs_from.go", "vroot/funcs.go"], [("name validation and method mapping", "vroot ToIoFs, FromIoFs, ExpandFsFile"), ("ReadFile, WriteFile, ReadDir", "vroot/funcs.go")])
prop("C24", "memfs and synthfs behave like an operating system's root directory",
     "For every history of operations on paths and open handles (create, read, write, seek, truncate, append, link, symlink, rename, remove, chmod, chtimes, directory listing, sub-roots), a synthfs file system on its memory allocator gives the outcomes, error kinds, file contents, positions, modes, times and final tree *os.Root gives, apart from what its documentation and platforms leave open. A file removed or replaced while open stays readable and writable through its handles, and an offset or size no memory reaches is refused and changes nothing.",
     ["histories", "inputs"], "all histories of calls over all paths, flags, modes and open handles",
     "Agreement depends on the state a long history leaves: links to moved directories, handles on removed files, positions after truncation.",
     ["vroot/synthfs/root.go", "vroot/synthfs/tree.go", "vroot/synthfs/open.go", "vroot/synthfs/handle.go", "vroot/synthfs/handle_dir.go", "vroot/synthfs/rename.go", "vroot/synthfs/remove.go", "vroot/synthfs/view_mem.go", "vroot/memfs/memfs.go"],
     [("tree of nodes and views", "vroot/synthfs"), ("memory-backed contents", "vroot/synthfs")])
prop("C25", "A synthfs tree shows the views put into it, and lets each go once",
     "AddFile and AddFS put each given view, or each file, directory and link of a file system, at the path and with the mode, size, time and bytes it has, through any history of adding, replacing, renaming, linking and removing; where a path is taken the outcome is what the resolver decides, and a failed call leaves the tree as it was. A view is opened while it has a name, keeps serving the handles already open, and is closed exactly once, when its last name goes.",
     ["histories", "inputs", "configurations", "fault_sequences"], "all histories of AddFile, AddFS and ordinary calls, all resolvers, all added file systems, and views that fail",
     "A leak, a double close or a lost entry needs names, hard links, replacement and open handles together.",
     ["vroot/synthfs/add.go", "vroot/synthfs/tree.go", "vroot/synthfs/view.go", "vroot/synthfs/view_fs.go", "vroot/synthfs/view_bytes.go", "vroot/synthfs/add_decision.go"], [("adding and conflict decisions", "AddFile and AddFS in vroot/synthfs"), ("view lifetime", "node and view counts in vroot/synthfs")])
prop("C26", "Concurrent calls on one synthfs tree act as if made one after another",
     "Whatever calls goroutines make at the same time on one synthfs tree and on file handles they share, there is an order of the calls, agreeing with each goroutine's own order and with which call had ended before another began, in which the same calls made one by one give every outcome that was seen and the tree that was left, the times that writes leave apart. No such program races, deadlocks or panics, and no append is lost.",
     ["schedules", "histories"], "all concurrent programs over paths and shared handles, all interleavings",
     "A wrong lock or a check made before the lock is taken shows in particular overlaps only.",
     ["vroot/synthfs/root.go", "vroot/synthfs/tree.go", "vroot/synthfs/handle.go", "vroot/synthfs/view_mem.go"], [("tree and node locks", "vroot/synthfs")])
prop("C27", "An overlay acts as one file system holding the merged tree of its layers",
     "Whatever plain or canonical layers of whatever file systems are stacked, with whatever whiteouts and opaque marks recorded for each, the view shows a name from the topmost layer that holds it and no mask above hides, directories merged, symlinks followed over the merged tree. From there on every history of calls, handles and sub-roots has the outcomes and leaves the tree that *os.Root has on the merged tree, but that a directory lower layers contribute to is not renamed (EXDEV). Where a layer can not be read, a look at the view fails or shows all there is, and never says that a name that is there is not.",
     ["histories", "inputs", "configurations"], "all stacks, marks and histories of calls",
     "Each masking or copy-up rule meets every operation and every layer order; tests sample a few.",
     ["vroot-adapter/overlayfs/fs.go", "vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/resolve.go", "vroot-adapter/overlayfs/merged.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/file.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/link.go"],
     [("merge and masking state", "vroot-adapter/overlayfs/state.go"), ("copy-up", "vroot-adapter/overlayfs/copyup.go")])
prop("C28", "An overlay writes only its top, and what it did is there when opened again",
     "No call on an overlay changes anything in a layer below the top or in its recorded marks; the top's tree keeps to merged/ and work/, and work/ is empty between calls. Closing the overlay and opening it again, over the same layers or with a new top above them, in memory or with the SQLite store, shows the tree that was there.",
     ["histories", "configurations"], "all stacks and histories with reopens and restacks",
     "Each write path can touch the wrong layer or leave a mark out, and only a later reopen shows it.",
     ["vroot-adapter/overlayfs/datasource.go", "vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/metadatastore_sqlite.go"],
     [("top layer and marks", "vroot-adapter/overlayfs/write.go")])
prop("C29", "A change of an overlay cut short by a crash or a fault is done or not done",
     "Wherever a crash stops a create, rename, removal, link, mkdir or change of attributes on an overlay, between or within the calls it makes to the top layer and its store, the overlay opens again and shows the tree before the call or after it, and takes the call again. A single failing call inside, to any layer or the store, leaves one of the two as well, live and reopened, and a success reported means after; RemoveAll and MkdirAll may be partly done, but nothing removed earlier or hidden by a mask comes back.",
     ["crash_points", "fault_sequences", "histories"], "all changes after all histories, crashed or failed at every inner call",
     "Marks and content are kept apart, so an order of writes is safe only if it is so at each step in between.",
     ["vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/state.go"],
     [("order of marks and content", "vroot-adapter/overlayfs/rename.go")])
prop("C30", "Metadata stores keep every mark set, whatever its name and whatever cuts in",
     "MetadataStoreSQLite, on any file system and under any database name, loads exactly the marks its setters left by the contract of MetadataStore, names normalised as paths and otherwise byte for byte, several stores in one file system apart. A setter that returned is kept over close, crash and loss of power with whatever unsynced sectors kept or lost; one cut short or failed is done or not done, the store goes on working after a single failing call, and stores that lock their files are open one at a time, each seeing what the last one set.",
     ["histories", "crash_points", "fault_sequences", "inputs", "schedules"], "all histories of settings, names, crash points and losses of unsynced sectors",
     "Durability is a matter of when sync and lock are called, which no test without a failing disk sees.",
     ["vroot-adapter/overlayfs/metadatastore.go", "vroot-adapter/overlayfs/metadatastore_sqlite.go", "vroot-adapter/overlayfs/internal/sqlvfs/file.go", "vroot-adapter/overlayfs/internal/sqlvfs/open.go", "vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go"],
     [("marks in SQLite", "vroot-adapter/overlayfs/metadatastore_sqlite.go"), ("SQLite VFS over vroot", "vroot-adapter/overlayfs/internal/sqlvfs")])
prop("C31", "Concurrent calls on one overlay act as if made one after another",
     "Whatever calls goroutines make at the same time on one overlay, whatever its layers and masks, and on file handles they share, copied up in the middle or not, there is an order of the calls, agreeing with each goroutine's own order and with which call had ended before another began, in which the same calls made one by one on the same layers give every outcome that was seen and the tree that was left, the times that writes leave apart. No such program races, deadlocks or panics.",
     ["schedules", "histories"], "all concurrent programs over paths and shared handles, all interleavings, all stacks",
     "A copy-up or a mask between a check and the change it is for shows in particular overlaps only.",
     ["vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/file.go", "vroot-adapter/overlayfs/merged.go", "vroot-adapter/overlayfs/state.go"],
     [("state lock", "vroot-adapter/overlayfs/write.go")])
prop("C32", "sftpfs shows, changes and keeps within the directory a server gives it",
     "Every history of calls through sftpfs on a server's directory gives the outcomes, data and tree that the same calls on the directory itself give: kinds and permissions of what is made and of what was there before, reads and writes of any size in any packets, listings in order and by chunks. Names that lead out are refused, the base itself is not removed or moved, and RemoveAll takes links away, never what they lead to. A call during which the server refuses a request or the connection breaks fails or is done in full, touches nothing else, never hangs and leaves no handle open at the server.",
     ["histories", "inputs", "fault_sequences"], "all histories of calls and handles, all packet sizes and client options, every request of a call refused or the connection cut at it",
     "The tests run fixed calls on a server that never fails; which requests a call makes, and what becomes of it when one of them fails, differs with the tree.",
     ["vroot-adapter/sftpfs/sftpfs.go"],
     [("path joining and refusal", "resolvePath in vroot-adapter/sftpfs/sftpfs.go"), ("recursive removal", "removeAll in vroot-adapter/sftpfs/sftpfs.go")])
prop("C33", "osfs file locks exclude as their levels say, over any history and schedule",
     "Files of osfs.Fs and osfs.Root, widened too, hold at most what Lock last asked for: any number of shared holders of one file or a single exclusive one, counting every handle by itself; Lock waits exactly while another handle is in its way, converts in place, and Unlock or Close releases. A level that is neither is EINVAL and changes nothing, and every error is a path error of the file.",
     ["histories", "schedules"], "all histories of Lock, Unlock and Close on handles of several files, all interleavings of holders",
     "The existing test walks one sequence on two handles.",
     ["vroot/osfs/lock_unix.go", "vroot/osfs/file.go"], [("flock levels and retry", "vroot/osfs/lock_unix.go")])

prop("C34", "A declared fixture is built as declared, and no test goes on past a failure",
     "testhelper's Setup and SetupLines leave exactly the directories, files, links, contents, modes and times that were declared, in whatever order and with parents declared or not, and a malformed line is refused. Each call of its C reaches the file system once, with the arguments given, yields what that returned and ends the test exactly when a call that must succeed fails or one that must fail succeeds, telling the error and every step before; so do the error assertions by errors.Is and errors.As. A failing step of a setup ends the test too, and leaves no handle open.",
     ["inputs", "histories", "fault_sequences"], "all fixtures in all orders, all setup lines, every file-system call of a setup failing, all histories of calls and answers",
     "The tests build one small fixture and fail none of it; what one declaration does to another shows in particular combinations and orders.",
     ["fsutil/testhelper/setup.go", "fsutil/testhelper/context.go", "fsutil/testhelper/context_fsys.go", "fsutil/testhelper/err.go"],
     [("order of setup", "C.Setup in fsutil/testhelper/setup.go"), ("failure with history", "C.ReportFailf in fsutil/testhelper/context.go")])

prop("C35", "Copy-up brings all of a name or nothing, and a policy is asked only as told",
     "An overlay calls its CopyUpPolicy only for a write, alone, and for a clean name the top lacks in a directory the top has, handing it the layer the merged view shows the name from; any policy that keeps the contract gives the same file system, and a call whose copy-up fails fails with that error and changes nothing that is seen. CopyUpPolicyWork carries over data, link target, mode bits and modification time whatever the umask, with missing parents as the layer has them, and changes neither the layer nor anything else in the top. Failing at any call it leaves nothing at the name, nothing staged and no handle open, a type it can not carry is refused with ErrTypeNotSupported before anything is made, and one policy serves many overlays at once.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all stacks of layers, all policies keeping the contract, all changes with each copy-up failing, all calls a copy-up makes failing, overlays used concurrently",
     "The tests copy a handful of names up, with one policy of their own; which name needs which copies, from which layer, depends on the stack and the call, and a copy cut short on which call failed.",
     ["vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/datasource.go", "vroot-adapter/overlayfs/fs.go"],
     [("contract", "CopyUpPolicy in vroot-adapter/overlayfs/copyup.go"), ("caller", "Fs.copyUp in vroot-adapter/overlayfs/write.go")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
