//go:build go1.22

// Reference model, part 2: meaning of a font, abstract operations, and the strict independent decoder.

package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
)

// MSub is the meaning of one supported cmap subtable.
type MSub struct {
	P, E   uint16
	Format int
	Lang   uint32
	Map    map[uint32]uint16
}

// Model is the meaning of a font value. Models are never modified in place.
type Model struct {
	Sfnt      uint32
	Head      []byte // checksum adjustment zeroed
	Hhea      []byte // metric count zeroed
	Maxp      []byte // glyph count zeroed
	OS2       []byte
	Cvt       []byte
	Fpgm      []byte
	Prep      []byte
	N         int
	LocFmt    int
	LocaBase  int      // where the first glyph lies in the source glyf table; -1: derived font
	Glyphs    [][]byte // nil: no glyf table
	Metrics   []HM     // nil: no hmtx table
	NHM       int      // upper bound on stored full metrics
	Names     *NameTab
	Post      *PostTab
	CmapVer   uint16
	Cmap      []MSub // nil: no cmap table
	HasCmap   bool
	Optimized bool
}

// modelOf gives the meaning of a spec.
func modelOf(s *Spec) *Model {
	m := &Model{Sfnt: s.Sfnt, OS2: s.OS2, Cvt: s.Cvt, Fpgm: s.Fpgm, Prep: s.Prep,
		N: len(s.Glyphs), LocFmt: s.LocFmt, LocaBase: s.LocaBase, Names: s.Names, Post: s.Post, NHM: s.NHM}
	m.Head = clone(s.Head)
	put32(m.Head, 8, 0)
	put16(m.Head, 50, uint16(s.LocFmt))
	m.Hhea = clone(s.Hhea)
	put16(m.Hhea, 34, 0)
	for i := 24; i < 32; i++ { // reserved fields
		m.Hhea[i] = 0
	}
	m.Maxp = clone(s.Maxp)
	put16(m.Maxp, 4, 0)
	if !s.NoGlyf {
		m.Glyphs = s.Glyphs
	}
	if !s.NoHmtx {
		m.Metrics = s.Metrics
	}
	if s.Cvt != nil { // control values are 16 bit units
		m.Cvt = s.Cvt[:len(s.Cvt)/2*2]
	}
	if s.Cmap != nil {
		m.HasCmap = true
		m.CmapVer = s.Cmap.Version
		for _, x := range s.Cmap.Subs {
			if x.Supp {
				m.Cmap = append(m.Cmap, MSub{x.P, x.E, x.Format, x.Lang, x.Map})
			}
		}
	}
	return m
}

func (m *Model) first(n int) *Model {
	if n >= m.N {
		return m
	}
	c := *m
	c.N = n
	c.LocaBase = -1
	if m.Glyphs != nil {
		c.Glyphs = m.Glyphs[:n:n]
	}
	if m.Metrics != nil {
		c.Metrics = m.Metrics[:n:n]
		c.Optimized = true
	}
	if c.NHM > n {
		c.NHM = n
	}
	c.Cmap = nil
	for _, s := range m.Cmap {
		t := s
		t.Map = map[uint32]uint16{}
		for code, g := range s.Map {
			if int(g) < n {
				t.Map[code] = g
			}
		}
		c.Cmap = append(c.Cmap, t)
	}
	return &c
}

// components lists the glyphs a composite glyph refers to (independent decoder).
func components(g []byte) ([]int, error) {
	if len(g) == 0 {
		return nil, nil
	}
	if len(g) < 10 {
		return nil, errors.New("short glyph")
	}
	if int16(be16(g, 0)) >= 0 {
		return nil, nil
	}
	var out []int
	o := 10
	for {
		if o+4 > len(g) {
			return nil, errors.New("short composite")
		}
		fl := be16(g, o)
		out = append(out, int(be16(g, o+2)))
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		switch {
		case fl&0x08 != 0:
			o += 2
		case fl&0x40 != 0:
			o += 4
		case fl&0x80 != 0:
			o += 8
		}
		if o > len(g) {
			return nil, errors.New("short composite")
		}
		if fl&0x20 == 0 {
			return out, nil
		}
	}
}

func (m *Model) closure(set []int) (map[int]bool, error) {
	keep := map[int]bool{}
	work := append([]int{}, set...)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if keep[g] {
			continue
		}
		keep[g] = true
		if g < len(m.Glyphs) {
			cs, err := components(m.Glyphs[g])
			if err != nil {
				return nil, err
			}
			work = append(work, cs...)
		}
	}
	return keep, nil
}

// keep is the abstract SubsetKeepIndices.
func (m *Model) keep(set []int) (*Model, error) {
	k, err := m.closure(set)
	if err != nil {
		return nil, err
	}
	c := *m
	c.LocaBase = -1
	if m.Glyphs != nil {
		c.Glyphs = make([][]byte, m.N)
		for i := range c.Glyphs {
			if k[i] {
				c.Glyphs[i] = m.Glyphs[i]
			} else {
				c.Glyphs[i] = []byte{}
			}
		}
	}
	c.Optimized = c.Metrics != nil
	max := 0
	for g := range k {
		if g > max {
			max = g
		}
	}
	return c.first(max + 1), nil
}

func (m *Model) lookup(r rune) int {
	for _, pe := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
		rm, ok := m.runeMap(pe[0], pe[1])
		if !ok {
			continue
		}
		if g, has := rm[r]; has {
			return int(g)
		}
	}
	return 0
}

func (m *Model) keepRunes(rs []rune) (*Model, error) {
	var set []int
	for _, r := range rs {
		set = append(set, m.lookup(r))
	}
	return m.keep(set)
}

func (m *Model) prune(names ...string) *Model {
	c := *m
	for _, n := range names {
		switch n {
		case "cmap":
			c.Cmap, c.HasCmap = nil, false
		case "post":
			c.Post = nil
		case "name":
			c.Names = nil
		}
	}
	return &c
}

func (m *Model) optimize() *Model {
	c := *m
	c.Optimized = c.Metrics != nil
	return &c
}

// minNHM is the fewest full metrics that represent widths w (first nhm glyphs explicit).
func minNHM(ms []HM, nhm int) int {
	if nhm > len(ms) {
		nhm = len(ms)
	}
	k := nhm
	for k > 1 && ms[k-1].Adv == ms[k-2].Adv {
		k--
	}
	return k
}

// codeRune interprets a character code. ok is false where the model gives no meaning.
func codeRune(p, e int, code uint32) (rune, bool) {
	ucs2 := func() (rune, bool) {
		if code > 0xFFFF {
			return 0, false
		}
		if code >= 0xD800 && code <= 0xDFFF {
			return 0xFFFD, true
		}
		return rune(code), true
	}
	ucs4 := func() (rune, bool) {
		if code > 0x10FFFF || code >= 0xD800 && code <= 0xDFFF {
			return 0xFFFD, true
		}
		return rune(code), true
	}
	mb := func(dec func([]byte) ([]byte, error)) (rune, bool) {
		var in []byte
		if code < 256 {
			in = []byte{byte(code)}
		} else {
			in = []byte{byte(code >> 8), byte(code)}
		}
		out, err := dec(in)
		if err != nil {
			return 0, false
		}
		r, n := utf8.DecodeRune(out)
		if n != len(out) || r == 0xFFFD {
			return 0, false
		}
		return r, true
	}
	switch p {
	case 0:
		if e == 4 || e == 6 {
			return ucs4()
		}
		return ucs2()
	case 1:
		if code > 255 {
			return 0, false
		}
		return charmap.Macintosh.DecodeByte(byte(code)), true
	case 3:
		switch e {
		case 0, 1:
			return ucs2()
		case 2:
			return mb(japanese.ShiftJIS.NewDecoder().Bytes)
		case 3:
			return mb(simplifiedchinese.GBK.NewDecoder().Bytes)
		case 4:
			return mb(traditionalchinese.Big5.NewDecoder().Bytes)
		case 10:
			return ucs4()
		}
	}
	return 0, false
}

// runeMap is the abstract GetCmap; glyph 0 entries are left out. Where several codes give one rune, the lowest
// code that maps to a glyph counts.
func (m *Model) runeMap(p, e int) (map[rune]uint16, bool) {
	for _, s := range m.Cmap {
		if int(s.P) != p || int(s.E) != e {
			continue
		}
		codes := make([]uint32, 0, len(s.Map))
		for c := range s.Map {
			codes = append(codes, c)
		}
		sort.Slice(codes, func(i, j int) bool { return codes[i] < codes[j] })
		out := map[rune]uint16{}
		for _, c := range codes {
			r, ok := codeRune(p, e, c)
			if !ok {
				continue
			}
			if _, has := out[r]; !has {
				out[r] = s.Map[c]
			}
		}
		return out, true
	}
	return nil, false
}

// hash identifies a model state.
func (m *Model) hash() uint64 {
	h := fnv.New64a()
	w := func(tag string, b []byte) {
		fmt.Fprintf(h, "|%s %v %d:", tag, b == nil, len(b))
		h.Write(b)
	}
	w("head", m.Head)
	w("hhea", m.Hhea)
	w("maxp", m.Maxp)
	w("os2", m.OS2)
	w("cvt", m.Cvt)
	w("fpgm", m.Fpgm)
	w("prep", m.Prep)
	fmt.Fprintf(h, "|%d %d %d %d %v %v", m.Sfnt, m.N, m.LocFmt, m.LocaBase, m.HasCmap, m.Glyphs == nil)
	for _, g := range m.Glyphs {
		w("g", g)
	}
	fmt.Fprintf(h, "|%v", m.Metrics)
	if m.Names != nil {
		fmt.Fprintf(h, "|n%d", m.Names.Format)
		for _, r := range m.Names.Recs {
			fmt.Fprintf(h, "|%d %d %d %d", r.P, r.E, r.L, r.ID)
			w("d", r.Data)
		}
		for _, t := range m.Names.Tags {
			w("t", t)
		}
	}
	if m.Post != nil {
		w("post", m.Post.Header)
		w("postr", m.Post.Rest)
	}
	for _, s := range m.Cmap {
		fmt.Fprintf(h, "|%d %d %d %d:", s.P, s.E, s.Format, s.Lang)
		var x uint64
		for c, g := range s.Map { // order independent
			y := uint64(c)<<16 | uint64(g)
			y ^= y >> 31
			y *= 0x9E3779B97F4A7C15
			y ^= y >> 29
			x += y
		}
		fmt.Fprintf(h, "%d %x", len(s.Map), x)
	}
	return h.Sum64()
}

// ---- strings ----

func quotePrintable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\n' || unicode.IsPrint(r) {
			b.WriteRune(r)
		} else {
			b.WriteString(strconv.QuoteRune(r))
		}
	}
	return b.String()
}

func decodeUTF16(d []byte) string {
	var out []rune
	for i := 0; i+1 < len(d); i += 2 {
		u := rune(be16(d, i))
		if u >= 0xD800 && u < 0xDC00 && i+3 < len(d) {
			v := rune(be16(d, i+2))
			if v >= 0xDC00 && v < 0xE000 {
				out = append(out, 0x10000+(u-0xD800)<<10+(v-0xDC00))
				i += 2
				continue
			}
		}
		if u >= 0xD800 && u < 0xE000 {
			u = 0xFFFD
		}
		out = append(out, u)
	}
	return string(out)
}

// nameString is the text of a record; ok is false where the model gives no meaning.
func nameString(r NameRec) (string, bool) {
	switch {
	case r.P == 0, r.P == 3 && (r.E == 0 || r.E == 1 || r.E == 10):
		if len(r.Data)%2 != 0 {
			return "", false
		}
		return quotePrintable(decodeUTF16(r.Data)), true
	case r.P == 1 && r.E == 0:
		var s []rune
		for _, c := range r.Data {
			s = append(s, charmap.Macintosh.DecodeByte(c))
		}
		return quotePrintable(string(s)), true
	}
	return "", false
}

// ---- strict decoder ----

// Decoded is what the independent decoder found in a file.
type Decoded struct {
	Sfnt   uint32
	Tabs   map[string][]byte
	Locs   map[string]Loc
	N      int
	LocFmt int
	Loca   []int
	Glyphs [][]byte
	NHM    int
	Metric []HM
	Names  *NameTab
	Cmap   []MSub
	HasCm  bool
	CmVer  uint16
}

// structural decodes a written file and checks everything C02 states.
func structural(d []byte) (*Decoded, error) { return decode(d, true) }

// decode is the independent decoder. Lenient mode is for source fonts: unsupported cmap formats and post versions
// are fine there, and so are search fields and checksums.
func decode(d []byte, strict bool) (*Decoded, error) {
	if len(d) < 12 {
		return nil, errors.New("file shorter than offset table")
	}
	x := &Decoded{Sfnt: be32(d, 0), Tabs: map[string][]byte{}, Locs: map[string]Loc{}}
	nt := int(be16(d, 4))
	sr, es, rs := searchParams(nt)
	if strict && (int(be16(d, 6)) != sr || int(be16(d, 8)) != es || int(be16(d, 10)) != rs) {
		return nil, fmt.Errorf("offset table search fields %d/%d/%d do not match %d tables (want %d/%d/%d)",
			be16(d, 6), be16(d, 8), be16(d, 10), nt, sr, es, rs)
	}
	if len(d) < 12+16*nt {
		return nil, errors.New("file shorter than directory")
	}
	type span struct {
		off, end int
		tag      string
	}
	var spans []span
	prev := ""
	for i := 0; i < nt; i++ {
		o := 12 + 16*i
		tag := string(d[o : o+4])
		if strict && tag <= prev {
			return nil, fmt.Errorf("directory not in ascending tag order: %q after %q", tag, prev)
		}
		prev = tag
		sum, off, n := be32(d, o+4), int(be32(d, o+8)), int(be32(d, o+12))
		if strict && off%4 != 0 {
			return nil, fmt.Errorf("table %q at offset %d is not 4-byte aligned", tag, off)
		}
		if off < 12+16*nt || off+n > len(d) {
			return nil, fmt.Errorf("table %q [%d,+%d) outside file of %d bytes", tag, off, n, len(d))
		}
		b := clone(d[off : off+n])
		if tag == "head" {
			if n != 54 {
				return nil, fmt.Errorf("head has %d bytes", n)
			}
			put32(b, 8, 0)
		}
		if s := tsum(b); strict && s != sum {
			return nil, fmt.Errorf("table %q checksum %08x, record says %08x", tag, s, sum)
		}
		x.Tabs[tag] = b
		x.Locs[tag] = Loc{off, n}
		spans = append(spans, span{off, off + n, tag})
	}
	sort.Slice(spans, func(i, j int) bool {
		if spans[i].off != spans[j].off {
			return spans[i].off < spans[j].off
		}
		return spans[i].end < spans[j].end
	})
	for i := 1; i < len(spans); i++ {
		if strict && spans[i].off < spans[i-1].end {
			return nil, fmt.Errorf("tables %q and %q overlap", spans[i-1].tag, spans[i].tag)
		}
	}
	for _, t := range []string{"head", "maxp", "hhea", "loca"} {
		if x.Tabs[t] == nil {
			return nil, fmt.Errorf("no %s table", t)
		}
	}
	if s := tsum(d); strict && s != 0xB1B0AFBA {
		return nil, fmt.Errorf("whole file sums to %08x", s)
	}
	if len(x.Tabs["maxp"]) != 32 || len(x.Tabs["hhea"]) != 36 {
		return nil, errors.New("maxp or hhea has wrong size")
	}
	x.N = int(be16(x.Tabs["maxp"], 4))
	x.NHM = int(be16(x.Tabs["hhea"], 34))
	x.LocFmt = int(be16(x.Tabs["head"], 50))

	loca := x.Tabs["loca"]
	switch x.LocFmt {
	case 0:
		if len(loca) != 2*(x.N+1) {
			return nil, fmt.Errorf("loca has %d bytes for %d glyphs (short)", len(loca), x.N)
		}
		for i := 0; i <= x.N; i++ {
			x.Loca = append(x.Loca, 2*int(be16(loca, 2*i)))
		}
	case 1:
		if len(loca) != 4*(x.N+1) {
			return nil, fmt.Errorf("loca has %d bytes for %d glyphs (long)", len(loca), x.N)
		}
		for i := 0; i <= x.N; i++ {
			x.Loca = append(x.Loca, int(be32(loca, 4*i)))
		}
	default:
		return nil, fmt.Errorf("loca format %d", x.LocFmt)
	}
	if glyf, ok := x.Tabs["glyf"]; ok {
		x.Glyphs = [][]byte{}
		for i := 0; i < x.N; i++ {
			a, b := x.Loca[i], x.Loca[i+1]
			if a > b || b > len(glyf) {
				return nil, fmt.Errorf("loca entry %d: [%d,%d) in glyf of %d bytes", i, a, b, len(glyf))
			}
			x.Glyphs = append(x.Glyphs, glyf[a:b])
		}
	}
	if hmtx, ok := x.Tabs["hmtx"]; ok {
		x.Metric = []HM{}
		if x.NHM > x.N || x.NHM == 0 && x.N > 0 {
			return nil, fmt.Errorf("%d full metrics for %d glyphs", x.NHM, x.N)
		}
		if len(hmtx) != 4*x.NHM+2*(x.N-x.NHM) {
			return nil, fmt.Errorf("hmtx has %d bytes for %d metrics and %d glyphs", len(hmtx), x.NHM, x.N)
		}
		for i := 0; i < x.N; i++ {
			if i < x.NHM {
				x.Metric = append(x.Metric, HM{be16(hmtx, 4*i), int16(be16(hmtx, 4*i+2))})
			} else {
				x.Metric = append(x.Metric, HM{x.Metric[x.NHM-1].Adv, int16(be16(hmtx, 4*x.NHM+2*(i-x.NHM)))})
			}
		}
	}
	if b, ok := x.Tabs["name"]; ok {
		n, err := decodeName(b)
		if err != nil {
			return nil, err
		}
		x.Names = n
	}
	if b, ok := x.Tabs["cmap"]; ok {
		x.HasCm = true
		x.CmVer = be16(b, 0)
		c, err := decodeCmap(b, x.N, strict)
		if err != nil {
			return nil, err
		}
		x.Cmap = c
	}
	if b, ok := x.Tabs["OS/2"]; ok {
		if len(b) < 2 || len(b) != os2Len(int(be16(b, 0))) && !(be16(b, 0) == 0 && len(b) == 68) && !(be16(b, 0) > 5 && len(b) > 100) {
			return nil, fmt.Errorf("OS/2 has %d bytes", len(b))
		}
	}
	if b, ok := x.Tabs["post"]; ok {
		if len(b) < 32 {
			return nil, fmt.Errorf("post has %d bytes", len(b))
		}
		if v := be32(b, 0); v == 0x00010000 && x.N != 258 {
			return nil, fmt.Errorf("post version 1.0 with %d glyphs", x.N)
		} else if strict && v != 0x00010000 && v != 0x00030000 {
			return nil, fmt.Errorf("post version %08x", v)
		}
	}
	return x, nil
}

func decodeName(b []byte) (*NameTab, error) {
	if len(b) < 6 {
		return nil, errors.New("name table too short")
	}
	t := &NameTab{Format: be16(b, 0)}
	n, so := int(be16(b, 2)), int(be16(b, 4))
	o := 6
	if len(b) < o+12*n {
		return nil, errors.New("name records outside table")
	}
	hdr, lowest := 6+12*n, len(b)
	get := func(l, off int) ([]byte, error) {
		if so+off+l > len(b) {
			return nil, fmt.Errorf("name string [%d,+%d) outside table of %d bytes", so+off, l, len(b))
		}
		if l > 0 && so+off < lowest {
			lowest = so + off
		}
		return b[so+off : so+off+l], nil
	}
	for i := 0; i < n; i++ {
		d, err := get(int(be16(b, o+8)), int(be16(b, o+10)))
		if err != nil {
			return nil, err
		}
		t.Recs = append(t.Recs, NameRec{be16(b, o), be16(b, o+2), be16(b, o+4), be16(b, o+6), d})
		o += 12
	}
	if t.Format == 1 {
		if len(b) < o+2 {
			return nil, errors.New("no language tag count")
		}
		k := int(be16(b, o))
		o += 2
		hdr += 2 + 4*k
		if len(b) < o+4*k {
			return nil, errors.New("language tags outside table")
		}
		for i := 0; i < k; i++ {
			d, err := get(int(be16(b, o)), int(be16(b, o+2)))
			if err != nil {
				return nil, err
			}
			t.Tags = append(t.Tags, d)
			o += 4
		}
	}
	if lowest < hdr || so < hdr && hdr <= 65535 {
		return nil, errors.New("name storage overlaps records")
	}
	return t, nil
}

func decodeCmap(b []byte, numGlyphs int, strict bool) ([]MSub, error) {
	if len(b) < 4 {
		return nil, errors.New("cmap too short")
	}
	n := int(be16(b, 2))
	if len(b) < 4+8*n {
		return nil, fmt.Errorf("cmap announces %d subtables in %d bytes", n, len(b))
	}
	out := []MSub{}
	for i := 0; i < n; i++ {
		o := 4 + 8*i
		s := MSub{P: be16(b, o), E: be16(b, o+2), Map: map[uint32]uint16{}}
		off := int(be32(b, o+4))
		if off < 4+8*n || off+8 > len(b) {
			return nil, fmt.Errorf("cmap subtable %d at %d outside table of %d bytes", i, off, len(b))
		}
		d := b[off:]
		s.Format = int(be16(d, 0))
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("cmap subtable %d (%d,%d) format %d: %s", i, s.P, s.E, s.Format, fmt.Sprintf(f, a...))
		}
		set := func(c uint32, g int) error {
			if g == 0 {
				return nil
			}
			if g >= numGlyphs {
				return bad("code %#x maps to glyph %d of %d", c, g, numGlyphs)
			}
			s.Map[c] = uint16(g)
			return nil
		}
		switch s.Format {
		case 0:
			s.Lang = uint32(be16(d, 4))
			if be16(d, 2) != 262 || len(d) < 262 {
				return nil, bad("length %d", be16(d, 2))
			}
			for c := 0; c < 256; c++ {
				if err := set(uint32(c), int(d[6+c])); err != nil {
					return nil, err
				}
			}
		case 6:
			if len(d) < 10 {
				return nil, bad("short")
			}
			s.Lang = uint32(be16(d, 4))
			first, cnt := int(be16(d, 6)), int(be16(d, 8))
			if int(be16(d, 2)) != 10+2*cnt || len(d) < 10+2*cnt || first+cnt > 0x10000 {
				return nil, bad("length %d first %d count %d", be16(d, 2), first, cnt)
			}
			for k := 0; k < cnt; k++ {
				if err := set(uint32(first+k), int(be16(d, 10+2*k))); err != nil {
					return nil, err
				}
			}
		case 4:
			if len(d) < 16 {
				return nil, bad("short")
			}
			s.Lang = uint32(be16(d, 4))
			ln, sc2 := int(be16(d, 2)), int(be16(d, 6))
			sc := sc2 / 2
			if sc2%2 != 0 || sc == 0 || 16+8*sc > ln || ln > len(d) || ln%2 != 0 {
				return nil, bad("length %d segCountX2 %d in %d bytes", ln, sc2, len(d))
			}
			sr, es, rs := searchParams(sc)
			if int(be16(d, 8)) != sr/8 || int(be16(d, 10)) != es || int(be16(d, 12)) != rs/8 {
				return nil, bad("search fields %d/%d/%d for %d segments", be16(d, 8), be16(d, 10), be16(d, 12), sc)
			}
			last := -1
			for k := 0; k < sc; k++ {
				end := int(be16(d, 14+2*k))
				start := int(be16(d, 16+2*sc+2*k))
				delta := int(be16(d, 16+4*sc+2*k))
				ro := int(be16(d, 16+6*sc+2*k))
				if k == sc-1 {
					if end != 0xFFFF {
						return nil, bad("last segment ends at %#x", end)
					}
				}
				if start > end || start <= last {
					return nil, bad("segment %d [%#x,%#x] after %#x", k, start, end, last)
				}
				last = end
				for c := start; c <= end; c++ {
					g := 0
					if ro == 0 {
						g = (c + delta) & 0xFFFF
					} else {
						p := 16 + 6*sc + 2*k + ro + 2*(c-start)
						if p+2 > ln {
							if k == sc-1 {
								continue // terminator with conventional bogus range offset
							}
							return nil, bad("glyph array index outside subtable")
						}
						if g = int(be16(d, p)); g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if c == 0xFFFF {
						if k == sc-1 && start == 0xFFFF {
							if g >= numGlyphs {
								g = 0
							}
						}
					}
					if err := set(uint32(c), g); err != nil {
						return nil, err
					}
				}
			}
		case 12:
			if len(d) < 16 {
				return nil, bad("short")
			}
			s.Lang = be32(d, 8)
			ln, ng := int(be32(d, 4)), int(be32(d, 12))
			if ln != 16+12*ng || ln > len(d) {
				return nil, bad("length %d groups %d in %d bytes", ln, ng, len(d))
			}
			last := int64(-1)
			for k := 0; k < ng; k++ {
				st, en, g := int64(be32(d, 16+12*k)), int64(be32(d, 20+12*k)), int64(be32(d, 24+12*k))
				if st > en || st <= last {
					return nil, bad("group %d [%#x,%#x] after %#x", k, st, en, last)
				}
				last = en
				if g+en-st >= int64(numGlyphs) {
					return nil, bad("group %d reaches glyph %d of %d", k, g+en-st, numGlyphs)
				}
				for c := st; c <= en; c++ {
					if err := set(uint32(c), int(g+c-st)); err != nil {
						return nil, err
					}
				}
			}
		default:
			if !strict {
				continue
			}
			return nil, bad("unexpected format in written file")
		}
		out = append(out, s)
	}
	return out, nil
}

func diffBytes(what string, got, want []byte) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("%s: present=%v, want present=%v", what, got != nil, want != nil)
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Errorf("%s: %d bytes, want %d; first difference at %d", what, len(got), len(want), i)
	}
	return nil
}

// matches compares a decoded file with the model's meaning.
func (m *Model) matches(x *Decoded) error {
	if x.Sfnt != m.Sfnt {
		return fmt.Errorf("sfnt version %08x, want %08x", x.Sfnt, m.Sfnt)
	}
	want := map[string]bool{"head": true, "maxp": true, "hhea": true, "loca": true,
		"hmtx": m.Metrics != nil, "glyf": m.Glyphs != nil, "OS/2": m.OS2 != nil, "cvt ": m.Cvt != nil,
		"fpgm": m.Fpgm != nil, "prep": m.Prep != nil, "name": m.Names != nil, "post": m.Post != nil, "cmap": m.HasCmap}
	for t, w := range want {
		if _, has := x.Tabs[t]; has != w {
			return fmt.Errorf("table %q present=%v, want %v", t, has, w)
		}
	}
	for t := range x.Tabs {
		if !want[t] {
			return fmt.Errorf("unexpected table %q", t)
		}
	}
	if x.N != m.N {
		return fmt.Errorf("%d glyphs, want %d", x.N, m.N)
	}
	hhea := clone(x.Tabs["hhea"])
	put16(hhea, 34, 0)
	maxp := clone(x.Tabs["maxp"])
	put16(maxp, 4, 0)
	nn := func(b []byte, present bool) []byte {
		if present && b == nil {
			return []byte{}
		}
		return b
	}
	for _, c := range []struct {
		n         string
		got, want []byte
	}{
		{"head", x.Tabs["head"], m.Head}, {"hhea", hhea, m.Hhea}, {"maxp", maxp, m.Maxp},
		{"OS/2", x.Tabs["OS/2"], m.OS2},
		{"cvt", nn(x.Tabs["cvt "], m.Cvt != nil), m.Cvt},
		{"fpgm", nn(x.Tabs["fpgm"], m.Fpgm != nil), m.Fpgm},
		{"prep", nn(x.Tabs["prep"], m.Prep != nil), m.Prep},
	} {
		if err := diffBytes(c.n, c.got, c.want); err != nil {
			return err
		}
	}
	if m.Glyphs != nil {
		for i := range m.Glyphs {
			if !bytes.Equal(x.Glyphs[i], m.Glyphs[i]) {
				return fmt.Errorf("glyph %d outline: %d bytes %x, want %d bytes %x", i, len(x.Glyphs[i]), trunc(x.Glyphs[i]), len(m.Glyphs[i]), trunc(m.Glyphs[i]))
			}
		}
	}
	if m.Metrics != nil {
		for i := range m.Metrics {
			if x.Metric[i] != m.Metrics[i] {
				return fmt.Errorf("glyph %d metric %+v, want %+v", i, x.Metric[i], m.Metrics[i])
			}
		}
		if m.Optimized {
			if k := minNHM(m.Metrics, m.NHM); x.NHM > k {
				return fmt.Errorf("%d full metrics after optimization, %d suffice", x.NHM, k)
			}
		}
	}
	if m.Names != nil {
		if err := sameNames(x.Names, m.Names); err != nil {
			return err
		}
	}
	if m.Post != nil {
		v := uint32(0x00030000)
		if be32(m.Post.Header, 0) == 0x00010000 && m.N == 258 {
			v = 0x00010000
		}
		h := clone(m.Post.Header)
		put32(h, 0, v)
		if err := diffBytes("post", x.Tabs["post"], h); err != nil {
			return err
		}
	}
	if m.HasCmap {
		if x.CmVer != m.CmapVer {
			return fmt.Errorf("cmap version %d, want %d", x.CmVer, m.CmapVer)
		}
		if err := sameCmap(x.Cmap, m.Cmap); err != nil {
			return err
		}
	}
	return nil
}

func trunc(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

func sameNames(a, b *NameTab) error {
	if a.Format != b.Format || len(a.Recs) != len(b.Recs) || len(a.Tags) != len(b.Tags) {
		return fmt.Errorf("name table format/records/tags %d/%d/%d, want %d/%d/%d", a.Format, len(a.Recs), len(a.Tags), b.Format, len(b.Recs), len(b.Tags))
	}
	for i := range a.Recs {
		p, q := a.Recs[i], b.Recs[i]
		if p.P != q.P || p.E != q.E || p.L != q.L || p.ID != q.ID || !bytes.Equal(p.Data, q.Data) {
			return fmt.Errorf("name record %d: %v, want %v", i, p, q)
		}
	}
	for i := range a.Tags {
		if !bytes.Equal(a.Tags[i], b.Tags[i]) {
			return fmt.Errorf("language tag %d: %x, want %x", i, a.Tags[i], b.Tags[i])
		}
	}
	return nil
}

func sameCmap(got, want []MSub) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d cmap subtables, want %d", len(got), len(want))
	}
	for i := range want {
		g, w := got[i], want[i]
		if g.P != w.P || g.E != w.E || g.Format != w.Format || g.Lang != w.Lang {
			return fmt.Errorf("cmap subtable %d is (%d,%d) format %d language %d, want (%d,%d) format %d language %d",
				i, g.P, g.E, g.Format, g.Lang, w.P, w.E, w.Format, w.Lang)
		}
		for c, id := range w.Map {
			if g.Map[c] != id {
				return fmt.Errorf("cmap subtable %d (%d,%d) format %d: code %#x maps to %d, want %d", i, g.P, g.E, g.Format, c, g.Map[c], id)
			}
		}
		for c, id := range g.Map {
			if _, has := w.Map[c]; !has {
				return fmt.Errorf("cmap subtable %d (%d,%d) format %d: code %#x maps to %d, want unmapped", i, g.P, g.E, g.Format, c, id)
			}
		}
	}
	return nil
}

// modelOfFile gives the meaning of an existing font file.
func modelOfFile(d []byte) (*Model, error) {
	x, err := decode(d, false)
	if err != nil {
		return nil, err
	}
	m := &Model{Sfnt: x.Sfnt, Head: x.Tabs["head"], OS2: x.Tabs["OS/2"], Cvt: x.Tabs["cvt "], Fpgm: x.Tabs["fpgm"],
		Prep: x.Tabs["prep"], N: x.N, LocFmt: x.LocFmt, LocaBase: x.Loca[0], Glyphs: x.Glyphs, Metrics: x.Metric,
		NHM: x.NHM, Names: x.Names, CmapVer: x.CmVer, Cmap: x.Cmap, HasCmap: x.HasCm}
	m.Hhea = clone(x.Tabs["hhea"])
	put16(m.Hhea, 34, 0)
	m.Maxp = clone(x.Tabs["maxp"])
	put16(m.Maxp, 4, 0)
	if m.Cvt != nil {
		m.Cvt = m.Cvt[:len(m.Cvt)/2*2]
	}
	if p, ok := x.Tabs["post"]; ok {
		m.Post = &PostTab{Header: p[:32], Rest: p[32:]}
	}
	return m, nil
}
