package tarft

import (
	"path"
	"testing"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"pgregory.net/rapid"
	"verifharness/vt"
)

// FuzzC18_Archive is TestC18_Arbitrary under coverage guidance: the thorough
// tier runs it. The input is which archive to start from, the options, and what to
// change where: three bytes each, the headers' checksums put right again.
func FuzzC18_Archive(f *testing.F) {
	gen := rapid.Custom(func(rt *rapid.T) []byte {
		var es []*entry
		var names []string
		for i := range 1 + vt.Pick(rt, 4, "members") {
			e := genEntry(rt, i, names)
			if vt.Chance(rt, 4, "link") {
				*e = entry{name: e.name, typ: vt.Of[byte](rt, "kind", '1', '2'), link: genName(rt, names), mode: 0o644, mtime: time.Unix(3, 0), style: "gnu"}
			}
			e.restyle()
			names = append(names, path.Clean(e.name))
			es = append(es, e)
		}
		return build(es, 2)
	})
	var bases [][]byte
	for i := 0; len(bases) < 64; i++ {
		if raw := gen.Example(i); len(raw) < 1<<14 {
			bases = append(bases, raw)
			f.Add(byte(len(bases)-1), byte(i), []byte{})
			f.Add(byte(len(bases)-1), byte(i), []byte{0, 0, 'x', 0, 156, '2', 0, 124, '7', 2, 0, 'y'})
		}
	}
	f.Fuzz(func(t *testing.T, base, opts byte, patches []byte) {
		raw := append([]byte(nil), bases[int(base)%len(bases)]...)
		heads := heads(raw)
		for ; len(patches) >= 3 && len(patches) < 300; patches = patches[3:] {
			at := int(patches[0])<<8 | int(patches[1])
			// most change a header, and keep it one
			if h := at >> 9; h < 3*len(heads) {
				b := raw[heads[h%len(heads)]:][:512]
				b[at&511] = patches[2]
				seal(b)
			} else {
				raw[at%len(raw)] = patches[2]
			}
		}
		if opts&16 != 0 {
			raw = raw[:len(raw)-512*min(len(raw)/512, int(opts>>5))]
		}
		opt := &tarfs.FsOption{AllowDev: opts&1 != 0, HandleSymlink: opts&2 != 0, IsRooted: opts&4 != 0}
		n := 0
		vt.Watch(20*time.Second, func() {
			judge(t.Fatalf, raw, opt, func() bool { n++; return opts&8 != 0 && n%4 == 0 })
		})
	})
}

// heads are where the blocks with a right checksum are.
func heads(raw []byte) (at []int) {
	for i := 0; i+512 <= len(raw); i += 512 {
		if was := string(raw[i:][:512]); raw[i] != 0 && string(seal([]byte(was))) == was {
			at = append(at, i)
		}
	}
	return at
}
