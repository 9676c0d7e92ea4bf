package tarft

import (
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/vt"
)

func TestMain(m *testing.M) {
	syscall.Umask(0)
	m.Run()
}

// entry is one member of an archive, and how it is written down.
type entry struct {
	name, link string
	typ        byte
	mode       int64
	mtime      time.Time
	data       []byte // as read back, holes included
	frags      [][2]int
	style      string // v7, ustar, gnu, pax
	sparse     string // "", gnu, pax0.0, pax0.1, pax1.0
	global     string // a comment for a global header before it
	dup        string // a name standing here instead of the true one
	big        bool   // sizes in base 256
	real       int64  // size of a file of which only parts are here
	parts      []byte // the bytes of its fragments

	// where it came to lie
	header, body, end int64
}

func (e *entry) String() string {
	s := fmt.Sprintf("%q %q %s mode=%o", e.name, string(e.typ), e.style, e.mode)
	if e.link != "" {
		s += fmt.Sprintf(" -> %q", e.link)
	}
	if len(e.data) > 0 {
		s += fmt.Sprintf(" %d bytes", len(e.data))
	}
	if e.sparse != "" {
		s += fmt.Sprintf(" sparse %s %v", e.sparse, e.frags)
	}
	return s
}

func (e *entry) size() int {
	if e.parts != nil {
		return int(e.real)
	}
	return len(e.data)
}

func octal(dst []byte, v int64) { copy(dst, fmt.Sprintf("%0*o", len(dst)-1, v)) }

func numeric(dst []byte, v int64, big bool) {
	if !big && v >= 0 && (v < 1<<(3*(len(dst)-1)) || 3*(len(dst)-1) > 62) {
		octal(dst, v)
		return
	}
	for i := len(dst) - 1; i >= 0; i-- {
		dst[i] = byte(v)
		v >>= 8
	}
	dst[0] |= 0x80
}

func headerBlock(name string, typ byte, size, mode, mtime int64, link, style string, big bool) []byte {
	b := make([]byte, 512)
	if style == "ustar" && len(name) > 100 {
		for i := len(name) - 101; i < len(name) && i < 155; i++ {
			if i > 0 && name[i] == '/' {
				copy(b[345:500], name[:i])
				name = name[i+1:]
				break
			}
		}
	}
	copy(b[0:100], name)
	numeric(b[100:108], mode, false)
	numeric(b[108:116], 1000, false)
	numeric(b[116:124], 1000, false)
	numeric(b[124:136], size, big && style == "gnu")
	numeric(b[136:148], mtime, false)
	b[156] = typ
	copy(b[157:257], link)
	switch style {
	case "ustar", "pax":
		copy(b[257:], "ustar\x0000")
	case "gnu":
		copy(b[257:], "ustar  \x00")
	}
	return b
}

// seal writes the checksum.
func seal(b []byte) []byte {
	copy(b[148:156], "        ")
	var sum int64
	for _, c := range b[:512] {
		sum += int64(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

func padded(b []byte) []byte {
	return append(b, make([]byte, -len(b)&511)...)
}

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	for {
		s := fmt.Sprintf("%d %s=%s\n", n, k, v)
		if len(s) == n {
			return s
		}
		n = len(s)
	}
}

// write appends the member.
func (e *entry) write(out *bytes.Buffer) {
	if e.global != "" {
		rec := paxRecord("comment", e.global)
		out.Write(seal(headerBlock("pax_global_header", 'g', int64(len(rec)), 0o644, 0, "", "ustar", false)))
		out.Write(padded([]byte(rec)))
	}
	e.header = int64(out.Len())
	stored := e.data
	if e.sparse != "" {
		stored = nil
		for _, f := range e.frags {
			if e.parts == nil {
				stored = append(stored, e.data[f[0]:f[0]+f[1]]...)
			}
		}
		stored = append(stored, e.parts...)
	}
	name, link := e.name, e.link
	var recs []string
	switch e.style {
	case "gnu":
		for _, l := range []struct {
			s   *string
			typ byte
		}{{&link, 'K'}, {&name, 'L'}} {
			if len(*l.s) > 100 {
				out.Write(seal(headerBlock("././@LongLink", l.typ, int64(len(*l.s)+1), 0, 0, "", "gnu", false)))
				out.Write(padded(append([]byte(*l.s), 0)))
				*l.s = (*l.s)[:100]
			}
		}
	case "pax":
		if e.sparse == "" && (len(name) > 100 || !ascii(name)) {
			recs = append(recs, paxRecord("path", name))
			name = "short"
		}
		if len(link) > 100 || !ascii(link) {
			recs = append(recs, paxRecord("linkpath", link))
			link = "short"
		}
		if ns := e.mtime.Nanosecond(); ns != 0 {
			recs = append(recs, paxRecord("mtime", strings.TrimRight(fmt.Sprintf("%d.%09d", e.mtime.Unix(), ns), "0")))
		}
	}
	size, mapText := int64(len(stored)), ""
	num := func(n int) string { return fmt.Sprint(n) }
	switch e.sparse {
	case "pax0.0":
		recs = append(recs, paxRecord("GNU.sparse.size", num(e.size())), paxRecord("GNU.sparse.numblocks", num(len(e.frags))))
		for _, f := range e.frags {
			recs = append(recs, paxRecord("GNU.sparse.offset", num(f[0])), paxRecord("GNU.sparse.numbytes", num(f[1])))
		}
		recs = append(recs, paxRecord("path", e.name))
	case "pax0.1":
		var m []string
		for _, f := range e.frags {
			m = append(m, num(f[0]), num(f[1]))
		}
		recs = append(recs, paxRecord("GNU.sparse.size", num(e.size())), paxRecord("GNU.sparse.numblocks", num(len(e.frags))),
			paxRecord("GNU.sparse.name", e.name), paxRecord("GNU.sparse.map", strings.Join(m, ",")))
		name = "GNUSparseFile.0/x"
	case "pax1.0":
		recs = append(recs, paxRecord("GNU.sparse.major", "1"), paxRecord("GNU.sparse.minor", "0"), paxRecord("GNU.sparse.name", e.name), paxRecord("GNU.sparse.realsize", num(e.size())))
		mapText = num(len(e.frags)) + "\n"
		for _, f := range e.frags {
			mapText += num(f[0]) + "\n" + num(f[1]) + "\n"
		}
		mapText = string(padded([]byte(mapText)))
		size += int64(len(mapText))
		name = "GNUSparseFile.0/x"
	}
	if len(recs) > 0 {
		all := strings.Join(recs, "")
		out.Write(seal(headerBlock("PaxHeaders.0/x", 'x', int64(len(all)), 0o644, 0, "", "pax", false)))
		out.Write(padded([]byte(all)))
	}
	b := headerBlock(name, e.typ, size, e.mode, e.mtime.Unix(), link, e.style, e.big)
	frags := e.frags
	put := func(dst []byte, n int) (more bool) {
		for i := range n {
			if len(frags) == 0 {
				return false
			}
			numeric(dst[i*24:][:12], int64(frags[0][0]), false)
			numeric(dst[i*24+12:][:12], int64(frags[0][1]), false)
			frags = frags[1:]
		}
		return len(frags) > 0
	}
	if e.sparse == "gnu" {
		numeric(b[483:495], int64(e.size()), false)
		if put(b[386:482], 4) {
			b[482] = 1
		}
	}
	out.Write(seal(b))
	if e.sparse == "gnu" {
		for len(frags) > 0 {
			ext := make([]byte, 512)
			if put(ext, 21) {
				ext[504] = 1
			}
			out.Write(ext)
		}
	}
	out.WriteString(mapText)
	e.body = int64(out.Len())
	if !headerOnly(e.typ) {
		out.Write(stored)
	}
	e.end = int64(out.Len())
	out.Write(make([]byte, -out.Len()&511))
}

func ascii(s string) bool {
	return !slices.ContainsFunc([]byte(s), func(c byte) bool { return c >= 0x80 })
}

func headerOnly(typ byte) bool { return strings.IndexByte("123456", typ) >= 0 }

func build(es []*entry, trailer int) []byte {
	var out bytes.Buffer
	for _, e := range es {
		e.write(&out)
	}
	out.Write(make([]byte, 512*trailer))
	return out.Bytes()
}

// node is what a path of the file system stands for.
type node struct {
	kind   fs.FileMode // 0, ModeDir, ModeSymlink, or of a device
	e      *entry      // nil for a directory without a member of its own
	kids   map[string]*node
	parent *node
	hard   bool
}

func (n *node) dir() bool { return n.kind == fs.ModeDir }

type options struct{ dev, symlink, rooted bool }

// tree is the file system an archive stands for: the last member of each name
// counts, and what has members below it is a directory.
func tree(es []*entry, opt options) *node {
	last := map[string]*entry{}
	for _, e := range es {
		last[path.Clean(e.name)] = e
	}
	root := &node{kind: fs.ModeDir, kids: map[string]*node{}}
	var names []string
	for k := range last {
		names = append(names, k)
	}
	slices.Sort(names)
	for _, k := range names {
		e := last[k]
		if !fs.ValidPath(k) {
			continue
		}
		n := &node{e: e}
		switch e.typ {
		case '0', 0, 'S':
			if e.typ == 0 && strings.HasSuffix(e.name, "/") {
				n.kind, n.kids = fs.ModeDir, map[string]*node{}
			}
		case '5':
			n.kind, n.kids = fs.ModeDir, map[string]*node{}
		case '2':
			n.kind = fs.ModeSymlink
			if !opt.symlink {
				continue
			}
		case '1':
			n.hard = true
		case '3', '4', '6':
			n.kind = map[byte]fs.FileMode{'3': fs.ModeDevice | fs.ModeCharDevice, '4': fs.ModeDevice, '6': fs.ModeNamedPipe}[e.typ]
			if !opt.dev {
				continue
			}
		default:
			continue
		}
		if k == "." {
			if n.dir() {
				root.e = e
			}
			continue
		}
		d := root
		comps := strings.Split(k, "/")
		for i, c := range comps {
			kid := d.kids[c]
			if i == len(comps)-1 {
				n.parent = d
				d.kids[c] = n
				break
			}
			if kid == nil || !kid.dir() {
				kid = &node{kind: fs.ModeDir, kids: map[string]*node{}, parent: d}
				d.kids[c] = kid
			}
			d = kid
		}
	}
	return root
}

func (n *node) walk(at string, fn func(p string, n *node)) {
	fn(at, n)
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	slices.Sort(names)
	for _, k := range names {
		n.kids[k].walk(path.Join(at, k), fn)
	}
}

var comps = []string{"a", "b", "c", "a-b", "a.b", "é", "..x", "...", "a b", ".h", "z"}

func genData(rt *rapid.T, id int) []byte {
	n := vt.Of(rt, "size", 0, 1, 3, 100, 511, 512, 513, 1024, 1500)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(id*53 + i*7 + i>>8 + 1)
		if b[i] == 0 {
			b[i] = 1
		}
	}
	return b
}

func genName(rt *rapid.T, names []string) string {
	if len(names) > 0 && vt.Chance(rt, 3, "below or again") {
		base := names[vt.Pick(rt, len(names), "base")]
		if vt.Chance(rt, 3, "again") {
			return base
		}
		return path.Join(base, comps[vt.Pick(rt, len(comps), "name")])
	}
	n := 1 + vt.Pick(rt, 3, "depth")
	var s []string
	for range n {
		c := comps[vt.Pick(rt, len(comps), "name")]
		if vt.Chance(rt, 12, "long") {
			c = strings.Repeat(c, 1+vt.Of(rt, "length", 60, 99, 101, 160)/len(c))
		}
		s = append(s, c)
	}
	return strings.Join(s, "/")
}

// genEntry gives a well-formed member.
func genEntry(rt *rapid.T, id int, names []string) *entry {
	e := &entry{name: genName(rt, names), mtime: time.Unix(1e9+int64(id)*1000, 0), style: vt.Of(rt, "style", "ustar", "gnu", "pax", "v7"),
		mode: vt.Of[int64](rt, "mode", 0o644, 0o755, 0o600, 0o444, 0, 0o4755, 0o2755, 0o1777, 0o7777)}
	switch vt.Of(rt, "type", "file", "file", "file", "dir", "sparse", "symlink", "hardlink", "dev", "old file", "old dir", "cont", "vendor") {
	case "file":
		e.typ, e.data = '0', genData(rt, id)
	case "dir":
		e.typ = '5'
		if vt.Chance(rt, 2, "slash") {
			e.name += "/"
		}
	case "old file":
		e.typ, e.data = 0, genData(rt, id)
	case "old dir":
		e.typ, e.name = 0, e.name+"/"
	case "symlink":
		e.typ = '2'
		e.link = strings.Repeat("../", vt.Pick(rt, 3, "up")) + genName(rt, names)
		if vt.Chance(rt, 6, "just up") {
			e.link = vt.Of(rt, "to", "..", ".", "../..", "/a", "/")
		}
	case "hardlink":
		e.typ = '1'
		e.link = genName(rt, names)
		if len(names) > 0 && !vt.Chance(rt, 4, "to nothing") {
			e.link = names[vt.Pick(rt, len(names), "to")]
		}
		if vt.Chance(rt, 4, "link spelling") {
			e.link = vt.Of(rt, "how", "./"+e.link, strings.Replace(e.link, "/", "//", 1), strings.Replace(e.link, "/", "/./", 1), "x/../"+e.link)
		}
	case "dev":
		e.typ = vt.Of[byte](rt, "dev", '3', '4', '6')
	case "cont":
		e.typ, e.data = '7', genData(rt, id)
	case "vendor":
		e.typ, e.data = vt.Of[byte](rt, "flag", 'V', 'Z', '9'), genData(rt, id)
	case "sparse":
		e.sparse = vt.Of(rt, "sparse", "gnu", "pax0.0", "pax0.1", "pax1.0")
		e.typ, e.style = '0', "pax"
		if e.sparse == "gnu" {
			e.typ, e.style = 'S', "gnu"
		}
		at := 0
		for range vt.Of(rt, "fragments", 0, 1, 2, 4, 5, 25, 26, 30) {
			at += vt.Of(rt, "hole", 0, 1, 100, 512, 1000)
			l := vt.Of(rt, "length", 1, 0, 5, 512, 700)
			if l > 0 || e.sparse != "gnu" || at > 0 {
				e.frags = append(e.frags, [2]int{at, l})
			}
			at += l
		}
		if len(e.frags) == 0 && strings.HasPrefix(e.sparse, "pax0") {
			e.frags = [][2]int{{at, 0}} // the map is what tells it is one
		}
		full := make([]byte, at+vt.Of(rt, "tail hole", 0, 1, 600))
		for _, f := range e.frags {
			for i := f[0]; i < f[0]+f[1]; i++ {
				full[i] = byte(id*53+i*7)%255 + 1
			}
		}
		e.data = full
	}
	if vt.Chance(rt, 8, "global") {
		e.global = strings.Repeat("x", vt.Of(rt, "comment", 3, 600))
	}
	e.big = vt.Chance(rt, 6, "big")
	if e.style == "pax" && vt.Chance(rt, 3, "fraction") {
		e.mtime = e.mtime.Add(time.Duration(vt.Of(rt, "ns", 500000000, 123456789, 1)))
	}
	e.restyle()
	return e
}

// restyle picks a format the names fit.
func (e *entry) restyle() {
	fits := func(s string) bool { return len(s) <= 100 && ascii(s) }
	if e.sparse == "" && (!fits(e.name) || !fits(e.link)) && e.style != "gnu" {
		if e.style == "ustar" && fits(e.link) && ascii(e.name) && len(e.name) > 100 && splits(e.name) {
			return
		}
		e.style = "pax"
	}
}

func splits(name string) bool {
	b := headerBlock(name, '0', 0, 0, 0, "", "ustar", false)
	return b[345] != 0
}
