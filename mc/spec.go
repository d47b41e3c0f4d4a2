//go:build go1.22

// Reference model, part 1: abstract fonts and an independent encoder.
// Shares no code with the library under test.

package main

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// HM is one glyph's horizontal metric.
type HM struct {
	Adv uint16
	LSB int16
}

// NameRec is one record of the name table.
type NameRec struct {
	P, E, L, ID uint16
	Data        []byte
}

// NameTab is an abstract name table. Storage selects how strings are laid out when encoding.
type NameTab struct {
	Format  uint16
	Recs    []NameRec
	Tags    [][]byte // language tags (format 1)
	Storage int      // 0 sequential, 1 shared identical strings, 2 reverse order, 3 gap before and between, 4 overlapping suffixes
}

// Sub is one cmap subtable. Body is its encoded form, Map its meaning (nil: format the library does not support).
type Sub struct {
	P, E   uint16
	Format int
	Lang   uint32
	Body   []byte
	Map    map[uint32]uint16
	Supp   bool
}

// CmapTab is a cmap table.
type CmapTab struct {
	Version uint16
	Subs    []Sub
	Share   bool // identical bodies share storage
	Gap     int  // unused bytes between directory and first body
}

// PostTab is a post table: the 32 byte header (including the version) and the version specific rest.
type PostTab struct {
	Header []byte
	Rest   []byte
	Names  []string // meaning of Rest: glyph names by glyph, nil when the version has none
}

// RawTable is an extra table the library does not interpret.
type RawTable struct {
	Tag  string
	Data []byte
}

// Spec is an abstract font plus encoding choices.
type Spec struct {
	Sfnt               uint32
	Head, Hhea, Maxp   []byte // complete tables; counts and loca format are patched in by Encode
	OS2                []byte // nil: absent
	Cvt, Fpgm, Prep    []byte // nil: absent
	Glyphs             [][]byte
	LocFmt             int
	LocaBase, GlyfTail int
	NoGlyf, NoHmtx     bool
	Metrics            []HM
	NHM                int
	Names              *NameTab
	Post               *PostTab
	Cmap               *CmapTab
	Extra              []RawTable
	DirOrder           int    // 0 sorted by tag, 1 reverse, 2 as generated
	PhysOrder          int    // 0 as generated, 1 reverse, 2 sorted by tag
	Last               string // tag of the table to place last in the file
	Align              int    // physical alignment of tables: 4 (default when 0), 1, 2, 16
	PadByte            byte
	LeadGap            int // bytes between the directory and the first table
	TailPad            int // bytes after the last table
	BadSearch          bool
	SameSums           bool // record checksums and checksum adjustment that say nothing about the contents
	Excess             int  // unused bytes at the end of hmtx, loca, name, post and cmap: 1 four bytes, 2 eight zeros
}

func be16(b []byte, o int) uint16     { return binary.BigEndian.Uint16(b[o:]) }
func be32(b []byte, o int) uint32     { return binary.BigEndian.Uint32(b[o:]) }
func put16(b []byte, o int, v uint16) { binary.BigEndian.PutUint16(b[o:], v) }
func put32(b []byte, o int, v uint32) { binary.BigEndian.PutUint32(b[o:], v) }
func app16(b []byte, vs ...int) []byte {
	for _, v := range vs {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}
func app32(b []byte, vs ...uint32) []byte {
	for _, v := range vs {
		b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return b
}

// tsum is the sfnt checksum: big endian 32-bit words, zero padded.
func tsum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i++ {
		s += uint32(b[i]) << (24 - 8*uint(i%4))
	}
	return s
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Tab is an encoded table.
type Tab struct {
	Tag  string
	Data []byte
	id   int // position in the order of generation
}

func (s *Spec) tables() []Tab {
	n := len(s.Glyphs)
	var out []Tab
	add := func(tag string, d []byte) {
		if s.Excess > 0 && (tag == "hmtx" || tag == "loca" || tag == "name" || tag == "post" || tag == "cmap") {
			d = append(clone(d), [][]byte{{0xEE, 0xEF, 1, 2}, make([]byte, 8)}[s.Excess-1]...)
		}
		out = append(out, Tab{tag, d, len(out)})
	}

	head := clone(s.Head)
	put32(head, 8, 0)
	put16(head, 50, uint16(s.LocFmt))
	add("head", head)
	maxp := clone(s.Maxp)
	put16(maxp, 4, uint16(n))
	add("maxp", maxp)
	hhea := clone(s.Hhea)
	put16(hhea, 34, uint16(s.NHM))
	add("hhea", hhea)
	if !s.NoHmtx {
		var b []byte
		for i := 0; i < n; i++ {
			if i < s.NHM {
				b = app16(b, int(s.Metrics[i].Adv))
			}
			b = app16(b, int(s.Metrics[i].LSB))
		}
		add("hmtx", b)
	}
	var loca, glyf []byte
	glyf = make([]byte, s.LocaBase)
	for i := range glyf {
		glyf[i] = 0xEE
	}
	addLoca := func() {
		if s.LocFmt == 0 {
			if len(glyf)%2 != 0 || len(glyf)/2 > 65535 {
				panic("spec: short loca cannot represent offset")
			}
			loca = app16(loca, len(glyf)/2)
		} else {
			loca = app32(loca, uint32(len(glyf)))
		}
	}
	for _, g := range s.Glyphs {
		addLoca()
		glyf = append(glyf, g...)
	}
	addLoca()
	for i := 0; i < s.GlyfTail; i++ {
		glyf = append(glyf, 0xDD)
	}
	add("loca", loca)
	if !s.NoGlyf {
		add("glyf", glyf)
	}
	if s.Prep != nil {
		add("prep", s.Prep)
	}
	if s.Cvt != nil {
		add("cvt ", s.Cvt)
	}
	if s.Fpgm != nil {
		add("fpgm", s.Fpgm)
	}
	if s.Names != nil {
		add("name", encodeName(s.Names))
	}
	if s.OS2 != nil {
		add("OS/2", s.OS2)
	}
	if s.Post != nil {
		add("post", append(clone(s.Post.Header), s.Post.Rest...))
	}
	if s.Cmap != nil {
		add("cmap", encodeCmap(s.Cmap))
	}
	for _, x := range s.Extra {
		add(x.Tag, x.Data)
	}
	return out
}

func encodeName(t *NameTab) []byte {
	type slot struct{ off, n int }
	var store []byte
	slots := make([]slot, len(t.Recs)+len(t.Tags))
	str := func(i int) []byte {
		if i < len(t.Recs) {
			return t.Recs[i].Data
		}
		return t.Tags[i-len(t.Recs)]
	}
	order := make([]int, len(slots))
	for i := range order {
		order[i] = i
	}
	if t.Storage == 2 {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	if t.Storage == 4 { // longest first so that suffixes can be found
		sort.SliceStable(order, func(a, b int) bool { return len(str(order[a])) > len(str(order[b])) })
	}
	for _, i := range order {
		d := str(i)
		if t.Storage == 3 {
			store = append(store, 0xAA, 0xBB, 0xCC)
		}
		off := -1
		if t.Storage == 1 || t.Storage == 4 {
			for o := 0; o+len(d) <= len(store); o++ {
				if string(store[o:o+len(d)]) == string(d) {
					off = o
					break
				}
			}
		}
		if off < 0 {
			off = len(store)
			store = append(store, d...)
		}
		slots[i] = slot{off, len(d)}
	}
	hdr := 6 + 12*len(t.Recs)
	if t.Format == 1 {
		hdr += 2 + 4*len(t.Tags)
	}
	gap := 0
	if t.Storage == 3 {
		gap = 5
	}
	start, past := hdr+gap, 0
	if start > 65535 { // beyond what the header can say: strings are still within reach of the records' own offsets
		start, past = 65535, start-65535
		for i := range slots {
			slots[i].off += past
		}
	}
	var b []byte
	b = app16(b, int(t.Format), len(t.Recs), start)
	for i, r := range t.Recs {
		b = app16(b, int(r.P), int(r.E), int(r.L), int(r.ID), slots[i].n, slots[i].off)
	}
	if t.Format == 1 {
		b = app16(b, len(t.Tags))
		for i := range t.Tags {
			s := slots[len(t.Recs)+i]
			b = app16(b, s.n, s.off)
		}
	}
	for i := 0; i < gap; i++ {
		b = append(b, 0x77)
	}
	return append(b, store...)
}

func encodeCmap(t *CmapTab) []byte {
	var b, body []byte
	b = app16(b, int(t.Version), len(t.Subs))
	seen := map[string]int{}
	base := 4 + 8*len(t.Subs) + t.Gap
	for _, s := range t.Subs {
		off, ok := seen[string(s.Body)]
		if !ok || !t.Share {
			off = len(body)
			seen[string(s.Body)] = off
			body = append(body, s.Body...)
		}
		b = app16(b, int(s.P), int(s.E))
		b = app32(b, uint32(base+off))
	}
	for i := 0; i < t.Gap; i++ {
		b = append(b, 0x5A)
	}
	return append(b, body...)
}

// Loc is where Encode put a table.
type Loc struct{ Off, Len int }

// Encode serializes the font.
func (s *Spec) Encode() ([]byte, map[string]Loc) {
	tabs := s.tables()
	phys := append([]Tab{}, tabs...)
	switch s.PhysOrder {
	case 1:
		for i, j := 0, len(phys)-1; i < j; i, j = i+1, j-1 {
			phys[i], phys[j] = phys[j], phys[i]
		}
	case 2:
		sort.SliceStable(phys, func(i, j int) bool { return phys[i].Tag < phys[j].Tag })
	}
	if s.Last != "" {
		sort.SliceStable(phys, func(i, j int) bool { return phys[i].Tag != s.Last && phys[j].Tag == s.Last })
	}
	align := s.Align
	if align == 0 {
		align = 4
	}
	var body []byte
	start := 12 + 16*len(tabs)
	for i := 0; i < s.LeadGap; i++ {
		body = append(body, 0x99)
	}
	locs := map[string]Loc{}
	at := make([]Loc, len(tabs)) // by id: a tag can be repeated
	for _, t := range phys {
		for (start+len(body))%align != 0 {
			body = append(body, s.PadByte)
		}
		at[t.id] = Loc{start + len(body), len(t.Data)}
		locs[t.Tag] = at[t.id]
		body = append(body, t.Data...)
	}
	for i := 0; i < s.TailPad; i++ {
		body = append(body, s.PadByte)
	}
	dir := append([]Tab{}, tabs...)
	switch s.DirOrder {
	case 0:
		sort.SliceStable(dir, func(i, j int) bool { return dir[i].Tag < dir[j].Tag })
	case 1:
		sort.SliceStable(dir, func(i, j int) bool { return dir[i].Tag > dir[j].Tag })
	}
	var out []byte
	sr, es, rs := searchParams(len(tabs))
	if s.BadSearch {
		sr, es, rs = 7, 11, 13
	}
	out = app32(out, s.Sfnt)
	out = app16(out, len(tabs), sr, es, rs)
	for _, t := range dir {
		out = append(out, t.Tag...)
		l := at[t.id]
		sum := tsum(t.Data)
		if s.SameSums {
			sum = tsum([]byte(t.Tag))
		}
		out = app32(out, sum, uint32(l.Off), uint32(l.Len))
	}
	out = append(out, body...)
	h := locs["head"].Off
	if put32(out, h+8, 0xB1B0AFBA-tsum(out)); s.SameSums {
		put32(out, h+8, 0x12345678)
	}
	return out, locs
}

func searchParams(n int) (sr, es, rs int) {
	if n == 0 {
		return 0, 0, 0
	}
	p := 1
	for p*2 <= n {
		p *= 2
		es++
	}
	return p * 16, es, n*16 - p*16
}

// ---- table builders ----

// pattern returns n distinct-ish bytes.
func pattern(n int, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + seed*101 + 11)
	}
	return b
}

func mkHead() []byte {
	b := pattern(54, 1)
	put16(b, 0, 1)
	put16(b, 2, 0)
	put32(b, 12, 0x5F0F3CF5)
	put16(b, 50, 0)
	return b
}

func mkHhea() []byte {
	b := pattern(36, 2)
	put16(b, 0, 1)
	put16(b, 2, 0)
	for i := 24; i < 32; i++ {
		b[i] = 0
	}
	return b
}

func mkMaxp() []byte {
	b := pattern(32, 3)
	put32(b, 0, 0x00010000)
	return b
}

func os2Len(version int) int {
	switch {
	case version == 0:
		return 78
	case version == 1:
		return 86
	case version < 5:
		return 96
	}
	return 100
}

func mkOS2(version int) []byte {
	b := pattern(os2Len(version), 4)
	put16(b, 0, uint16(version))
	return b
}

func mkPostHeader(version uint32) []byte {
	b := pattern(32, 5)
	put32(b, 0, version)
	return b
}

func mkPost3() *PostTab { return &PostTab{Header: mkPostHeader(0x00030000)} }

// Seg is one format 4 segment. If RangeIdx >= 0 the segment uses glyph array entries starting at RangeIdx.
type Seg struct {
	Start, End int
	Delta      int
	RangeIdx   int // -1: none
}

// mkFmt4 encodes a format 4 subtable with the given segments (terminator appended) and glyph array.
func mkFmt4(p, e, lang int, segs []Seg, arr []int) Sub {
	all := append(append([]Seg{}, segs...), Seg{0xFFFF, 0xFFFF, 1, -1})
	n := len(all)
	m := map[uint32]uint16{}
	for _, s := range segs {
		for c := s.Start; c <= s.End; c++ {
			g := 0
			if s.RangeIdx < 0 {
				g = (c + s.Delta) & 0xFFFF
			} else {
				g = arr[s.RangeIdx+c-s.Start]
				if g != 0 {
					g = (g + s.Delta) & 0xFFFF
				}
			}
			if g != 0 {
				m[uint32(c)] = uint16(g)
			}
		}
	}
	sr, es, rs := searchParams(n)
	var b []byte
	b = app16(b, 4, 16+8*n+2*len(arr), lang, 2*n, sr/8, es, rs/8)
	for _, s := range all {
		b = app16(b, s.End)
	}
	b = app16(b, 0)
	for _, s := range all {
		b = app16(b, s.Start)
	}
	for _, s := range all {
		b = app16(b, s.Delta)
	}
	for i, s := range all {
		if s.RangeIdx < 0 {
			b = app16(b, 0)
		} else {
			b = app16(b, 2*(n-i)+2*s.RangeIdx)
		}
	}
	b = app16(b, arr...)
	return Sub{uint16(p), uint16(e), 4, uint32(lang), b, m, true}
}

func mkFmt0(p, e, lang int, arr map[int]int) Sub {
	var b []byte
	b = app16(b, 0, 262, lang)
	m := map[uint32]uint16{}
	for i := 0; i < 256; i++ {
		b = append(b, byte(arr[i]))
		if arr[i] != 0 {
			m[uint32(i)] = uint16(arr[i])
		}
	}
	return Sub{uint16(p), uint16(e), 0, uint32(lang), b, m, true}
}

func mkFmt6(p, e, lang, first int, arr []int) Sub {
	var b []byte
	b = app16(b, 6, 10+2*len(arr), lang, first, len(arr))
	b = app16(b, arr...)
	m := map[uint32]uint16{}
	for i, g := range arr {
		if g != 0 {
			m[uint32(first+i)] = uint16(g)
		}
	}
	return Sub{uint16(p), uint16(e), 6, uint32(lang), b, m, true}
}

// Group is one format 12 group.
type Group struct{ Start, End, GID uint32 }

func mkFmt12(p, e int, lang uint32, groups []Group) Sub {
	var b []byte
	b = app16(b, 12, 0)
	b = app32(b, uint32(16+12*len(groups)), lang, uint32(len(groups)))
	m := map[uint32]uint16{}
	for _, g := range groups {
		b = app32(b, g.Start, g.End, g.GID)
		for c := g.Start; c <= g.End && g.End >= g.Start; c++ {
			if id := g.GID + c - g.Start; id != 0 {
				m[c] = uint16(id)
			}
		}
	}
	return Sub{uint16(p), uint16(e), 12, lang, b, m, true}
}

// mkUnsup makes a subtable in a format the library does not support.
func mkUnsup(p, e, format int, n int) Sub {
	var b []byte
	switch format {
	case 14:
		b = app16(b, 14)
		b = app32(b, 10, 0)
	case 13:
		b = app16(b, 13, 0)
		b = app32(b, 16+12, 0, 1, 0x20, 0x7e, 1)
	case 2:
		b = app16(b, 2, 6+512+8+2*n, 0)
		for i := 0; i < 256; i++ {
			b = app16(b, 0)
		}
		b = app16(b, 0, n, 0, 2)
		for i := 0; i < n; i++ {
			b = app16(b, i)
		}
	default:
		b = app16(b, format, 8, 0, 0)
	}
	return Sub{uint16(p), uint16(e), format, 0, b, nil, false}
}

// ---- glyphs ----

// simpleGlyph returns n bytes of simple glyph data (n must be 0 or at least 12), distinguishable by seed.
func simpleGlyph(n, seed int) []byte {
	if n == 0 {
		return []byte{}
	}
	b := pattern(n, seed+7)
	put16(b, 0, 1)
	return b
}

// Comp is one component reference of a composite glyph with its encoding.
type Comp struct {
	GID   int
	Words bool
	Xform int // 0 none, 1 scale, 2 x/y scale, 3 two by two
	Extra int // additional flag bits
}

// compositeGlyph encodes a composite glyph, padded to an even length. instr < 0: no instructions.
func compositeGlyph(comps []Comp, instr int, seed int) []byte {
	var b []byte
	b = app16(b, 0xFFFF, seed, seed+1, seed+2, seed+3)
	for i, c := range comps {
		fl := c.Extra
		if c.Words {
			fl |= 1
		}
		switch c.Xform {
		case 1:
			fl |= 0x08
		case 2:
			fl |= 0x40
		case 3:
			fl |= 0x80
		}
		if i+1 < len(comps) {
			fl |= 0x20
		}
		if instr >= 0 && i == len(comps)-1 {
			fl |= 0x100
		}
		b = app16(b, fl, c.GID)
		if c.Words {
			b = app16(b, 0x0102, 0xFEFD)
		} else {
			b = append(b, 3, 0xFC)
		}
		for k := 0; k < []int{0, 1, 2, 4}[c.Xform]; k++ {
			b = app16(b, 0x4000-k)
		}
	}
	if instr >= 0 {
		b = app16(b, instr)
		for i := 0; i < instr; i++ {
			b = append(b, byte(0xB0+i))
		}
	}
	if len(b)%2 != 0 {
		b = append(b, 0)
	}
	return b
}

// utf16be encodes s.
func utf16be(s string) []byte {
	var b []byte
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			b = app16(b, 0xD800+int(r>>10), 0xDC00+int(r&0x3FF))
		} else {
			b = app16(b, int(r))
		}
	}
	return b
}

func mkMetrics(n, nhm int) []HM {
	m := make([]HM, n)
	for i := range m {
		m[i] = HM{uint16(500 + 13*i), int16(40 - 9*i)}
	}
	for i := nhm; i < n; i++ {
		m[i].Adv = m[nhm-1].Adv
	}
	return m
}

// baseSpec is a compact font with every supported table, five glyphs, two of them composite.
func baseSpec() *Spec {
	s := &Spec{
		Sfnt: 0x00010000,
		Head: mkHead(), Hhea: mkHhea(), Maxp: mkMaxp(), OS2: mkOS2(3),
		Cvt: pattern(6, 21), Fpgm: pattern(5, 22), Prep: pattern(7, 23),
		Post: mkPost3(),
	}
	s.Glyphs = [][]byte{
		simpleGlyph(14, 0),
		simpleGlyph(0, 1),
		simpleGlyph(18, 2),
		compositeGlyph([]Comp{{GID: 2, Words: true}, {GID: 0, Xform: 1}}, -1, 3),
		simpleGlyph(12, 4),
		compositeGlyph([]Comp{{GID: 3}}, 3, 5),
	}
	s.NHM = 4
	s.Metrics = mkMetrics(6, 4)
	s.Names = &NameTab{Recs: []NameRec{
		{1, 0, 0, 1, []byte("Fam")},
		{1, 0, 0, 2, []byte("Reg\x8a")},
		{3, 1, 0x409, 1, utf16be("Fam")},
		{3, 1, 0x409, 2, utf16be("Régul")},
	}}
	s.Cmap = &CmapTab{Subs: []Sub{
		mkFmt4(0, 3, 0, []Seg{{0x41, 0x43, 2 - 0x41, -1}, {0x61, 0x62, 0, 0}}, []int{1, 5}),
		mkFmt6(1, 0, 0, 0x40, []int{0, 2, 3, 4}),
		mkFmt4(3, 1, 0, []Seg{{0x41, 0x44, 1 - 0x41, -1}, {0x3B1, 0x3B1, 5 - 0x3B1, -1}}, nil),
		mkFmt12(3, 10, 0, []Group{{0x41, 0x44, 1}, {0x3B1, 0x3B1, 5}, {0x1F600, 0x1F601, 3}}),
	}}
	return s
}

func (s *Spec) String() string {
	return fmt.Sprintf("glyphs=%d nhm=%d loc=%d", len(s.Glyphs), s.NHM, s.LocFmt)
}
