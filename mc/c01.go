//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/unidoc/unitype"
)

func runRoundTrip(r *Rec, mk func() *Spec, parts Parts) error {
	s := mk()
	data, _ := s.Encode()
	r.Input(data)
	m := modelOf(s)
	r.State(m.hash())
	r.Trans(2)
	r.Trace(1)
	f, err := parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	r.Sample("%d byte file, %d glyphs", len(data), m.N)
	return agree(f, m, parts)
}

// sweepBase has a chain of nested composite glyphs.
func sweepBase() *Spec {
	s := baseSpec()
	s.OS2 = mkOS2(5)
	s.Glyphs = append(s.Glyphs, compositeGlyph([]Comp{{GID: 5}}, -1, 6), compositeGlyph([]Comp{{GID: 6}, {GID: 4}}, -1, 7), simpleGlyph(12, 8))
	s.Metrics = mkMetrics(9, 4)
	return s
}

// sweepValues are the values of bytes and of 16-bit words in a sweep.
func sweepValues(c *Ctx, some bool) (bytes, words []int) {
	switch {
	case c.Thorough() && !some:
		for v := 0; v < 256; v++ {
			bytes = append(bytes, v)
		}
		for v := 0; v < 0x10000; v += 1 + v>>10 {
			words = append(words, v)
		}
	case !some:
		bytes = []int{0, 1, 0x7F, 0x80, 0xFF, 0x55}
		for v := 0; v < 0x10000; v += 1 + v>>6 {
			words = append(words, v)
		}
		for v := 50; v <= 1000; v += 50 {
			words = append(words, v)
		}
	default:
		bytes = []int{0, 1, 0x7F, 0x80, 0xFF, 0x55}
		for v := 0; v < 0x10000; v += 1 + v>>2 {
			words = append(words, v)
		}
	}
	return bytes, append(words, 1000, 1024, 2000, 2048, 4096, 16384, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF)
}

// knownTags are tags of tables that exist, or nearly so; the library supports none of them.
func knownTags() []string {
	return strings.Fields("BASE CBDT CBLC CFF_ CFF2 COLR CPAL DSIG EBDT EBLC EBSC FFTM Feat GDEF GPOS GSUB Glat Gloc HVAR JSTF LTSH MATH MERG MVAR PCLT PfEd Silf Sill STAT SVG_ " +
		"TSI0 TSI1 TSI2 TSI3 TSI5 TTFA VDMX VORG VVAR Zapf acnt ankr avar bdat bhed bloc bsln cvar fdsc feat fmtx fond fvar gasp gvar hdmx hsty just kern kerx lcar ltag meta mort morx opbd prop sbix trak vhea vmtx xref " +
		"HEAD Head MAXP Maxp HHEA Hhea HMTX Hmtx LOCA Loca GLYF Glyf CMAP Cmap POST Post NAME Name OS/1 OS_2 os/2 Os/2 CVT_ Cvt_ cvt0 cvtt FPGM Fpgm PREP Prep " +
		"hea0 hhe_ eahd daeh pamc fylg acol emam mape posu OS/3 OS2_ hmty locb glyg maxq namf cmaq fpgn preq ____ !!!! ~~~~ aaaa zzzz true ttcf OTTO wOFF")
}

// tagFonts is every font with one or three tables of these tags.
func tagFonts() []Base {
	var out []Base
	for i, t := range knownTags() {
		i, t := i, strings.ReplaceAll(t, "_", " ")
		out = append(out, Base{"tag " + t, func() *Spec {
			s := baseSpec()
			s.Extra = []RawTable{{t, pattern(4+i%9, i%4)}}
			return s
		}}, Base{"tag " + t + " like head", func() *Spec {
			s := baseSpec()
			h := clone(s.Head)
			put16(h, 18, 77)
			s.Extra = []RawTable{{t, h}}
			return s
		}})
	}
	return out
}

// wordSweep enumerates values of every byte and 16-bit word of the scalar tables (fewer if some).
func wordSweep(c *Ctx, some bool, base func() *Spec, run func(r *Rec, mk func() *Spec) error) {
	type tab struct {
		name string
		get  func(s *Spec) []byte
		skip func(o int) bool
	}
	tabs := []tab{
		{"head", func(s *Spec) []byte { return s.Head }, func(o int) bool { return o >= 8 && o < 16 || o == 50 || o == 51 }},
		{"hhea", func(s *Spec) []byte { return s.Hhea }, func(o int) bool { return o >= 24 && o < 32 || o >= 34 }},
		{"maxp", func(s *Spec) []byte { return s.Maxp }, func(o int) bool { return o < 6 }},
		{"OS/2", func(s *Spec) []byte { return s.OS2 }, func(o int) bool { return o < 2 }},
		{"post", func(s *Spec) []byte { return s.Post.Header }, func(o int) bool { return o < 4 }},
	}
	for _, t := range tabs {
		n := len(t.get(base()))
		for o := 0; o < n; o++ {
			if t.skip(o) {
				continue
			}
			o := o
			c.Emit(fmt.Sprintf("sweep/%s/%d", t.name, o), func(r *Rec) error {
				vals, words := sweepValues(c, some)
				for _, v := range words {
					if o%2 == 1 || o+1 >= n || t.skip(o+1) {
						break
					}
					v := v
					if err := run(r, func() *Spec { s := base(); put16(t.get(s), o, uint16(v)); return s }); err != nil {
						return fmt.Errorf("word %d of %s = %#x: %v", o, t.name, v, err)
					}
				}
				for _, v := range vals {
					v := v
					if err := run(r, func() *Spec { s := base(); t.get(s)[o] = byte(v); return s }); err != nil {
						return fmt.Errorf("byte %d of %s = %#x: %v", o, t.name, v, err)
					}
					if v == 0 && o+1 < n && !t.skip(o+1) {
						if err := run(r, func() *Spec { s := base(); put16(t.get(s), o, 0x8000); return s }); err != nil {
							return fmt.Errorf("word %d of %s = 0x8000: %v", o, t.name, err)
						}
					}
				}
				return nil
			})
		}
	}
	// maxp version: everything from 1.0 on is accepted.
	for _, v := range []uint32{0x00010000, 0x00010001, 0x00020000, 0x7FFFFFFF} {
		c.Emit(fmt.Sprintf("sweep/maxpversion/%x", v), func(r *Rec) error {
			return run(r, func() *Spec { s := base(); put32(s.Maxp, 0, v); return s })
		})
	}
	// Fields of name records and of cmap subtables.
	ids := []int{0, 1, 2, 3, 4, 5, 9, 10, 25, 26, 127, 128, 255, 256, 257, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFF}
	if c.Thorough() {
		ids = nil
		for v := 0; v < 0x10000; v += 1 + v>>8 {
			ids = append(ids, v)
		}
		ids = append(ids, 0x7FFF, 0x8000, 0xFFFF)
	}
	for field := 0; field < 4; field++ {
		field := field
		c.Emit(fmt.Sprintf("sweep/name/%d", field), func(r *Rec) error {
			for _, v := range ids {
				for at := 0; at < 2; at++ {
					mk := func() *Spec {
						s := base()
						s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 4, []byte("Mac\xe9")}, {3, 1, 0x409, 6, utf16be("Win\u03b1")}}}
						x := &s.Names.Recs[at]
						*[]*uint16{&x.P, &x.E, &x.L, &x.ID}[field] = uint16(v)
						return s
					}
					if err := run(r, mk); err != nil {
						return fmt.Errorf("field %d of name record %d = %#x: %v", field, at, v, err)
					}
				}
			}
			return nil
		})
	}
	for field := 0; field < 3; field++ {
		for fi := 0; fi < 4; fi++ {
			field, fi := field, fi
			c.Emit(fmt.Sprintf("sweep/cmap/%d/%d", field, fi), func(r *Rec) error {
				for _, v := range ids {
					mk := func() *Spec {
						s := base()
						f := [3]int{3, 1, 0}
						f[field] = v
						p, e, l := f[0], f[1], f[2]
						s.Cmap = &CmapTab{Subs: []Sub{[]Sub{
							mkFmt0(p, e, l, map[int]int{0x41: 3, 0xFF: 1}),
							mkFmt4(p, e, l, []Seg{{0x41, 0x45, 0, 0}}, []int{5, 4, 3, 0, 1}),
							mkFmt6(p, e, l, 0x41, []int{5, 0, 2}),
							mkFmt12(p, e, uint32(l)<<16|uint32(l), []Group{{0x41, 0x45, 1}, {0x1F600, 0x1F601, 2}})}[fi]}}
						return s
					}
					if err := run(r, mk); err != nil {
						return fmt.Errorf("field %d of a cmap subtable = %#x: %v", field, v, err)
					}
				}
				return nil
			})
		}
	}
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking",
		Rule:   "every font with at most k deviations from a base font over the listed dimensions (glyph shapes and counts, loca format and base, metrics split, OS/2 and post versions, name and cmap layouts, absent tables, physical layout), every scalar table byte over boundary values, every glyph count around 255/256/257 and 65535, and the repository's sample fonts; each is parsed, written and decoded by an independent decoder and compared with the abstract model",
		Assume: []string{"input fonts come from an independent encoder; well-formedness is as documented in spec.go", "reserved hhea words are zero in well formed fonts"},
		Gen: func(c *Ctx) {
			k := c.Pick(3, 4)
			c.Bound("max_deviations", k)
			c.Bound("dimensions", len(fontDims()))
			eachFont(k, func(name string, mk func() *Spec) {
				c.Emit(name, func(r *Rec) error { return runRoundTrip(r, mk, pFile) })
			})
			wordSweep(c, false, sweepBase, func(r *Rec, mk func() *Spec) error { return runRoundTrip(r, mk, pFile) })
			emitContents(c, false, func(r *Rec, mk func() *Spec) error { return runRoundTrip(r, mk, pFile|pReparse|pNames) })
			emitTwins(c, func(r *Rec, mk func() *Spec) error { return runRoundTrip(r, mk, pFile|pReparse|pNames|pCmap|pOffsets) })
			for _, b := range tagFonts() {
				b := b
				c.Emit(b.Name, func(r *Rec) error { return runRoundTrip(r, b.Mk, pFile|pValidate|pReparse) })
			}
			for _, n := range []int{255, 256, 257, 258, 1000, 32767, 32768, 65535} {
				for _, nhm := range []int{1, n / 2, n} {
					for loc := 0; loc < 2; loc++ {
						c.Emit(fmt.Sprintf("count/%d/%d/%d", n, nhm, loc), func(r *Rec) error {
							return runRoundTrip(r, func() *Spec { return countSpec(n, nhm, loc) }, pFile)
						})
					}
				}
			}
			emitSizes(c, "", func(r *Rec, b Base) error { return runRoundTrip(r, b.Mk, pFile|pReparse) })
			names, data := realFonts()
			for _, n := range names {
				c.Emit("real/"+n, func(r *Rec) error { return runReal(r, data[n], pFile|pReparse) })
			}
		}})
	register(&Check{ID: "C02", Level: "model_checking",
		Rule: "every font of the C01 space at k-1 deviations, and from every base font of a list every sequence of subset, prune, optimize and write operations up to the depth bound; each written file is decoded strictly (directory order, alignment, overlap, search fields, checksums, whole file sum, loca, hmtx, name and cmap consistency), validated and parsed back",
		Gen: func(c *Ctx) {
			k := 3
			c.Bound("max_deviations", k)
			parts := pFile | pValidate | pReparse
			eachFont(k, func(name string, mk func() *Spec) {
				c.Emit(name, func(r *Rec) error { return runRoundTrip(r, mk, parts) })
			})
			emitSizes(c, "", func(r *Rec, b Base) error {
				data, _ := b.Mk().Encode()
				m := modelOf(b.Mk())
				for _, ops := range [][]Op{{}, {opFirst(m.N - 1)}, {opKeep(0, 2), opOptimize()}, {opPrune("cmap"), opOptimize()}} {
					if err := runPath(r, data, m, parts, ops...); err != nil {
						return err
					}
				}
				return nil
			})
			emitContents(c, true, func(r *Rec, mk func() *Spec) error { return runRoundTrip(r, mk, parts) })
			emitTwins(c, func(r *Rec, mk func() *Spec) error { return runRoundTrip(r, mk, parts) })
			d := c.Pick(3, 4)
			c.Bound("operation_depth", d)
			opTree(c, "ops", d, func(f *Font, m *Model) error { return agree(f, m, parts) })
			names, data := realFonts()
			for _, n := range names {
				c.Emit("real/"+n, func(r *Rec) error { return runReal(r, data[n], pValidate|pReparse) })
			}
			c.Emit("dirsize", func(r *Rec) error { // every number of tables 4..13 by absence
				for mask := 0; mask < 256; mask++ {
					s := baseSpec()
					for b, do := range []func(){
						func() { s.OS2 = nil }, func() { s.Cvt = nil }, func() { s.Fpgm = nil }, func() { s.Prep = nil },
						func() { s.Names = nil }, func() { s.Post = nil }, func() { s.Cmap = nil }, func() { s.NoHmtx = true },
					} {
						if mask>>b&1 == 1 {
							do()
						}
					}
					if err := runRoundTrip(r, func() *Spec { return s }, parts); err != nil {
						return fmt.Errorf("absence mask %08b: %v", mask, err)
					}
				}
				return nil
			})
		}})
}

// countSpec is a font with n small glyphs.
func countSpec(n, nhm, loc int) *Spec {
	s := baseSpec()
	g := make([][]byte, n)
	for i := range g {
		if n < 2000 || i%64 == 0 || i > n-3 {
			g[i] = simpleGlyph(12, i)
		} else {
			g[i] = []byte{}
		}
	}
	setGlyphs(s, g, nhm)
	s.LocFmt = loc
	s.Cmap = &CmapTab{Subs: []Sub{
		mkFmt4(3, 1, 0, []Seg{{0x41, 0x41 + min(n-2, 0xFF00), 1 - 0x41, -1}}, nil),
		mkFmt12(3, 10, 0, []Group{{0x10000, 0x10000 + uint32(n) - 1, 0}}),
	}}
	return s
}

func runReal(r *Rec, data []byte, parts Parts) error {
	m, err := modelOfFile(data)
	if err != nil {
		return nil // not a font the independent decoder covers
	}
	if err := unitype.ValidateBytes(data); err != nil {
		return nil
	}
	f, err := parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	r.State(m.hash())
	r.Trans(2)
	r.Trace(1)
	return agree(f, m, parts)
}
