//go:build go1.22

// C07, C08, C09, C14, C20, C21: subsetting, metrics, pruning, glyph location.

package main

import (
	"fmt"
	"io"
	"strings"
)

// smallSpec is a font with the given glyphs, all tables, distinct metrics and a map A, B, C, ... to glyphs 0, 1, 2, ...
func smallSpec(g [][]byte) *Spec {
	s := baseSpec()
	n := len(g)
	setGlyphs(s, g, (n+1)/2)
	var gr []Group
	if n > 1 {
		gr = []Group{{0x42, 0x41 + uint32(n) - 1, 1}}
	}
	s.Cmap = &CmapTab{Subs: []Sub{mkFmt12(3, 10, 0, gr)}}
	return s
}

// graphGlyphs turns a component relation (bit n*i+j: glyph i uses glyph j) into glyphs.
func graphGlyphs(n, rel int) [][]byte {
	g := make([][]byte, n)
	for i := range g {
		var cs []Comp
		for j := 0; j < n; j++ {
			if rel>>(n*i+j)&1 == 1 {
				cs = append(cs, Comp{GID: j, Words: (i+j)%2 == 0, Xform: (i + 2*j) % 4})
			}
		}
		if len(cs) == 0 {
			g[i] = simpleGlyph(12+2*i, i)
		} else {
			instr := -1
			if i%2 == 1 {
				instr = i
			}
			g[i] = compositeGlyph(cs, instr, i)
		}
	}
	return g
}

// step runs one operation on a fresh parse (nil data: on f) and checks agreement.
func runPath(r *Rec, data []byte, m *Model, parts Parts, ops ...Op) error {
	if err := runPathAsking(r, data, m, parts, false, ops...); err != nil || len(ops) == 0 {
		return err
	}
	if err := runPathAsking(r, data, m, parts, true, ops...); err != nil {
		return fmt.Errorf("with questions in between: %v", err)
	}
	return nil
}

// ask is some use of a font that must not matter to what comes later.
func ask(f *Font, size int) {
	for _, pe := range cmapPairs {
		f.GetCmap(pe[0], pe[1])
	}
	f.LookupRunes(probeRunes)
	for id := -1; id < 8; id++ {
		f.GetNameByID(id)
	}
	f.GetNameRecords()
	for g := 0; g < 8; g++ {
		f.GetGlyphDataOffset(GID(g))
	}
	if size < 4096 {
		for _, t := range []string{"head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name", "trec"} {
			f.TableInfo(t)
		}
		_ = f.String()
	}
	if size < 1<<16 {
		f.Write(io.Discard)
	}
}

func runPathAsking(r *Rec, data []byte, m *Model, parts Parts, asking bool, ops ...Op) error {
	f, err := parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	r.Input(data)
	name := ""
	for _, op := range ops {
		name += op.Name + "; "
		if asking {
			ask(f, len(data))
		}
		m2, merr := op.Model(m)
		f2, ierr := op.Impl(f)
		if (merr != nil) != (ierr != nil) {
			return fmt.Errorf("%s error %v, model error %v", name, ierr, merr)
		}
		if ierr == nil {
			f, m = f2, m2
		}
		r.Trans(1)
		r.State(m.hash())
	}
	r.Trace(1)
	r.Sample("%d glyphs; %s", m.N, name)
	if err := agree(f, m, parts); err != nil {
		return fmt.Errorf("%s%v", name, err)
	}
	return nil
}

func subsetOf(n, mask int) []int {
	set := []int{}
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			set = append(set, i)
		}
	}
	return set
}

func runesOf(set []int) string {
	s := ""
	for _, g := range set {
		s += string(rune(0x41 + g))
	}
	return s
}

func sequences(alphabet, maxLen int, do func(seq []int)) {
	var rec func(seq []int)
	rec = func(seq []int) {
		do(seq)
		if len(seq) == maxLen {
			return
		}
		for i := 0; i < alphabet; i++ {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)
}

func genC07(c *Ctx) {
	emitContents(c, true, func(r *Rec, mk func() *Spec) error {
		data, _ := mk().Encode()
		for _, op := range []Op{opKeep(3, 1), opKeep(0), opKeep(5)} {
			if err := runPath(r, data, modelOf(mk()), pFile, op); err != nil {
				return err
			}
		}
		return nil
	})
	emitKinds(c, pFile, func(m *Model) [][]Op {
		return [][]Op{{opKeep(m.N - 1)}, {opKeep(2)}, {opKeep(m.N/2, m.N-1)}}
	}, "glyph", "lastglyph", "glyphs", "shortloca")
	n3 := 3
	for rel := 0; rel < 1<<(n3*n3); rel++ {
		rel := rel
		c.Emit(fmt.Sprintf("graph/3/%d", rel), func(r *Rec) error {
			s := smallSpec(graphGlyphs(n3, rel))
			s.LocFmt = rel & 1
			s.LocaBase = rel & 2
			data, _ := s.Encode()
			m := modelOf(s)
			for mask := 0; mask < 1<<n3; mask++ {
				if err := runPath(r, data, m, pFile|pOffsets|pReparse|pValidate, opKeep(subsetOf(n3, mask)...)); err != nil {
					return err
				}
				if err := runPath(r, data, m, pFile|pCmap, opRunes(runesOf(subsetOf(n3, mask)))); err != nil {
					return err
				}
				for mask2 := 0; mask2 < 1<<n3; mask2++ {
					if err := runPath(r, data, m, pFile, opKeep(subsetOf(n3, mask)...), opKeep(subsetOf(n3, mask2)...)); err != nil {
						return err
					}
				}
				for k := 1; k <= n3; k++ {
					if err := runPath(r, data, m, pFile, opFirst(k), opKeep(subsetOf(n3, mask)...)); err != nil {
						return err
					}
					if err := runPath(r, data, m, pFile, opKeep(subsetOf(n3, mask)...), opFirst(k)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	c.Bound("graphs_3_glyphs", "all 512 component relations (cycles included) x all index sets x one or two operations")
	// Four glyphs: all relations (thorough) or all with one row of self reference left out (quick), singletons / all sets.
	block := 64
	for lo := 0; lo < 1<<16; lo += block {
		lo := lo
		c.Emit(fmt.Sprintf("graph/4/%d", lo), func(r *Rec) error {
			for rel := lo; rel < lo+block; rel++ {
				if !c.Thorough() && rel&0x8421&^1 != 0 { // no self references
					continue
				}
				s := smallSpec(graphGlyphs(4, rel))
				data, _ := s.Encode()
				m := modelOf(s)
				masks := []int{1, 2, 4, 8}
				if c.Thorough() {
					masks = nil
					for k := 0; k < 16; k++ {
						masks = append(masks, k)
					}
				}
				for _, mask := range masks {
					if err := runPath(r, data, m, pFile, opKeep(subsetOf(4, mask)...)); err != nil {
						return fmt.Errorf("relation %#x: %v", rel, err)
					}
				}
			}
			return nil
		})
	}
	c.Bound("graphs_4_glyphs", map[bool]string{false: "all 4096 relations without self reference x single indices", true: "all 65536 relations x all 16 index sets"}[c.Thorough()])
	// Index lists: order, repetition, out of range ids.
	ids := []int{0, 1, 3, 5, 6, 300, 65535}
	c.Emit("lists", func(r *Rec) error {
		s := baseSpec()
		data, _ := s.Encode()
		m := modelOf(s)
		var err error
		sequences(len(ids), 3, func(seq []int) {
			if err != nil {
				return
			}
			var set []int
			for _, i := range seq {
				set = append(set, ids[i])
			}
			err = runPath(r, data, m, pFile|pOffsets|pCmap, opKeep(set...))
		})
		return err
	})
	// Component encodings.
	type enc struct {
		words bool
		xform int
		extra int
	}
	var encs []enc
	extras := []int{0, 0x0002, 0x0004, 0x0010, 0x0200, 0x0400, 0x0800, 0x1000, 0xE000}
	for _, w := range []bool{false, true} {
		for x := 0; x < 4; x++ {
			for _, e := range extras {
				encs = append(encs, enc{w, x, e})
			}
		}
	}
	for a := range encs {
		a := a
		c.Emit(fmt.Sprintf("encoding/%d", a), func(r *Rec) error {
			try := func(es []enc, instr int) error {
				var cs []Comp
				for i, e := range es {
					cs = append(cs, Comp{GID: 1 + i, Words: e.words, Xform: e.xform, Extra: e.extra})
				}
				g := [][]byte{simpleGlyph(12, 0), simpleGlyph(14, 1), simpleGlyph(16, 2), simpleGlyph(18, 3), compositeGlyph(cs, instr, 4), simpleGlyph(12, 5)}
				s := smallSpec(g)
				data, _ := s.Encode()
				return runPath(r, data, modelOf(s), pFile, opKeep(4))
			}
			for _, instr := range []int{-1, 0, 1, 4} {
				if err := try([]enc{encs[a]}, instr); err != nil {
					return err
				}
				for b := range encs {
					if err := try([]enc{encs[a], encs[b]}, instr); err != nil {
						return err
					}
					if c.Thorough() || encs[b].extra == 0 {
						for d := range encs {
							if encs[d].extra == 0 {
								if err := try([]enc{encs[a], encs[b], encs[d]}, instr); err != nil {
									return err
								}
							}
						}
					}
				}
			}
			return nil
		})
	}
	// Instructions announced on a component other than the last one.
	c.Emit("instructions on any component", func(r *Rec) error {
		for mask := 1; mask < 8; mask++ {
			for _, n := range []int{1, 2, 3, 10} {
				var cs []Comp
				for i := 0; i < 3; i++ {
					x := Comp{GID: i, Words: i == 1, Xform: i}
					if mask>>i&1 == 1 {
						x.Extra = 0x100
					}
					cs = append(cs, x)
				}
				s := smallSpec([][]byte{simpleGlyph(12, 0), simpleGlyph(14, 1), simpleGlyph(16, 2), simpleGlyph(18, 3), compositeGlyph(cs, n, 4), {}})
				data, _ := s.Encode()
				if err := runPath(r, data, modelOf(s), pFile, opKeep(4)); err != nil {
					return fmt.Errorf("mask %03b, %d instructions: %v", mask, n, err)
				}
			}
		}
		return nil
	})
	// Every field of a glyph's header, and of its components.
	for _, g := range []int{1, 4} {
		for word := 0; word < 5; word++ {
			g, word := g, word
			c.Emit(fmt.Sprintf("header/%d/%d", g, word), func(r *Rec) error {
				_, vals := sweepValues(c, !c.Thorough())
				for _, v := range vals {
					if word == 0 && g == 4 && v < 0x8000 {
						v |= 0x8000 // any negative number means composite
					} else if word == 0 && g == 1 {
						v &= 0x7FFF
					}
					gl := [][]byte{simpleGlyph(12, 0), simpleGlyph(14, 1), simpleGlyph(16, 2), compositeGlyph([]Comp{{GID: 2}}, -1, 3), compositeGlyph([]Comp{{GID: 3, Words: true}, {GID: 1}}, -1, 4), simpleGlyph(12, 5)}
					put16(gl[g], 2*word, uint16(v))
					s := smallSpec(gl)
					data, _ := s.Encode()
					m := modelOf(s)
					for _, ops := range [][]Op{{opKeep(4)}, {opKeep(g)}, {opFirst(5), opKeep(4)}, {opKeep(3, 1), opKeep(3)}, {opFirst(5)}} {
						if err := runPath(r, data, m, pFile, ops...); err != nil {
							return fmt.Errorf("word %d of glyph %d is %#x: %v", word, g, v, err)
						}
					}
				}
				return nil
			})
		}
	}
	for _, xf := range []int{0, 1, 2, 3} {
		xf := xf
		c.Emit(fmt.Sprintf("arguments/%d", xf), func(r *Rec) error {
			for _, words := range []bool{false, true} {
				n := len(compositeGlyph([]Comp{{GID: 3, Words: words, Xform: xf}}, -1, 4))
				for o := 14; o < n; o++ {
					for v := 0; v < 256; v++ {
						gl := [][]byte{simpleGlyph(12, 0), simpleGlyph(14, 1), simpleGlyph(16, 2), compositeGlyph([]Comp{{GID: 2}}, -1, 3),
							compositeGlyph([]Comp{{GID: 3, Words: words, Xform: xf}, {GID: 1}}, -1, 4), simpleGlyph(12, 5)}
						gl[4][o] = byte(v)
						s := smallSpec(gl)
						data, _ := s.Encode()
						if err := runPath(r, data, modelOf(s), pFile, opKeep(4)); err != nil {
							return fmt.Errorf("byte %d of the glyph is %#x: %v", o, v, err)
						}
					}
				}
			}
			return nil
		})
	}
	// Chains, wide composites, diamonds, components with high ids or out of range.
	big := func(name string, n int, mk func(g [][]byte), sets ...[]int) {
		for _, loc := range []int{0, 1} {
			c.Emit(fmt.Sprintf("%s/%d/loc%d", name, n, loc), func(r *Rec) error {
				g := make([][]byte, n)
				for i := range g {
					g[i] = []byte{}
					if n < 2000 || i > n-4 {
						g[i] = simpleGlyph(12, i)
					}
				}
				mk(g)
				total := 0
				for _, b := range g {
					total += len(b) + len(b)%2
				}
				if loc == 0 && total > 131070 {
					return nil // needs long locations
				}
				s := smallSpec(g)
				s.LocFmt = loc
				data, _ := s.Encode()
				m := modelOf(s)
				for _, set := range sets {
					if err := runPath(r, data, m, pFile, opKeep(set...)); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	for _, n := range []int{2, 10, 40, 300} {
		big("chain up", n, func(g [][]byte) {
			for i := 0; i+1 < n; i++ {
				g[i] = compositeGlyph([]Comp{{GID: i + 1, Words: i%2 == 0, Xform: i % 4}}, -1, i)
			}
		}, []int{0}, []int{n / 2}, []int{n - 1})
		big("chain down", n, func(g [][]byte) {
			for i := n - 1; i > 0; i-- {
				g[i] = compositeGlyph([]Comp{{GID: i - 1, Words: i%2 == 0, Xform: i % 4}}, i%3-1, i)
			}
		}, []int{0}, []int{n / 2}, []int{n - 1})
		big("wide", n, func(g [][]byte) {
			var cs []Comp
			for i := 1; i < n; i++ {
				cs = append(cs, Comp{GID: i, Words: i%3 == 0, Xform: i % 4})
			}
			g[0] = compositeGlyph(cs, 2, 0)
		}, []int{0})
		big("tree", n, func(g [][]byte) {
			for i := 0; 2*i+2 < n; i++ {
				g[i] = compositeGlyph([]Comp{{GID: 2*i + 1}, {GID: 2*i + 2, Words: true}}, -1, i)
			}
		}, []int{0}, []int{1}, []int{2, 0})
	}
	for _, n := range []int{258, 32770, 65535} {
		last := n - 1
		big("high id", n, func(g [][]byte) {
			g[0] = compositeGlyph([]Comp{{GID: last, Words: true}, {GID: last / 2}}, -1, 0)
			g[last/2] = compositeGlyph([]Comp{{GID: 256}}, -1, 1)
			g[last] = simpleGlyph(14, 3)
		}, []int{0}, []int{last}, []int{last / 2}, []int{1}, []int{256})
	}
	// Many glyphs at once: long lists, each glyph with a component of its own; long chains and wide composites.
	lens := []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000}
	c.Bound("longest index list", 10000)
	for li, n := range lens {
		n := n
		orders := [][]int{nil, nil, nil, nil}
		for i := 0; i < n; i++ {
			orders[0] = append(orders[0], i)
			orders[1] = append(orders[1], n-1-i)
			orders[2] = append(orders[2], i*7919%10000)
			orders[3] = append(orders[3], i/2*2)
		}
		if !c.Thorough() {
			orders = append(orders[:1:1], orders[1+li%3])
		}
		big(fmt.Sprintf("long list/%d", n), 20000, func(g [][]byte) {
			for i := range g {
				if i < 10000 {
					g[i] = compositeGlyph([]Comp{{GID: 10000 + i*3%10000, Words: i%2 == 0}}, -1, i)
				} else {
					g[i] = simpleGlyph(12, i)
				}
			}
			if n%2 == 0 {
				g[n/2] = compositeGlyph([]Comp{{GID: 19999}, {GID: n/2 + 1}}, -1, 1)
			}
		}, orders...)
	}
	for _, n := range []int{1000, 5000, c.Pick(5001, 60000)} {
		big("long chain", n, func(g [][]byte) {
			for i := 0; i+1 < n; i++ {
				g[i] = compositeGlyph([]Comp{{GID: i + 1, Words: i%2 == 0, Xform: i % 4}}, -1, i)
			}
		}, []int{0}, []int{n / 2})
	}
	for _, n := range []int{1000, 5000} {
		big("very wide", n, func(g [][]byte) {
			var cs []Comp
			for i := 1; i < n; i++ {
				cs = append(cs, Comp{GID: i, Words: i%3 == 0, Xform: i % 4})
			}
			g[0] = compositeGlyph(cs, 2, 0)
		}, []int{0})
	}
	big("out of range component", 6, func(g [][]byte) {
		g[1] = compositeGlyph([]Comp{{GID: 6}, {GID: 2}}, -1, 0)
		g[3] = compositeGlyph([]Comp{{GID: 65535}, {GID: 4}}, -1, 0)
	}, []int{1}, []int{3}, []int{1, 3}, []int{0}, []int{65535})
	// Every scalar field of the header tables, with nested composites.
	wordSweep(c, true, sweepBase, func(r *Rec, mk func() *Spec) error {
		s := mk()
		data, _ := s.Encode()
		m := modelOf(s)
		for _, g := range []int{7, 6, 3, 8} {
			if err := runPath(r, data, m, pFile, opKeep(g)); err != nil {
				return err
			}
		}
		return nil
	})
	twinPaths(c, pFile|pOffsets, []Op{opKeep(3)}, []Op{opKeep(1, 4)}, []Op{opKeep(5)})
	// Every font shape with every single kept glyph.
	eachFont(c.Pick(1, 2), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			m := modelOf(s)
			for g := 0; g <= m.N && g < 8; g++ {
				if err := runPath(r, data, m, pFile|pOffsets|pValidate, opKeep(g)); err != nil {
					return err
				}
				if err := runPath(r, data, m, pFile|pCmap, opRunes(runesOf([]int{g, 1}))); err != nil {
					return err
				}
			}
			return nil
		})
	})
	names, data := realFonts()
	for _, nm := range names {
		nm := nm
		c.Emit("real/"+nm, func(r *Rec) error {
			m, err := modelOfFile(data[nm])
			if err != nil {
				return nil
			}
			var comps []int
			for i, g := range m.Glyphs {
				if len(g) > 10 && int16(be16(g, 0)) < 0 {
					comps = append(comps, i)
				}
			}
			step := c.Pick(len(comps)/6+1, len(comps)/60+1)
			for i := 0; i < len(comps); i += step {
				if err := runPath(r, data[nm], m, pFile, opKeep(comps[i])); err != nil {
					return err
				}
			}
			return runPath(r, data[nm], m, pFile, opRunes("ÄÅéñǻﬁ"))
		})
	}
}

func genC08(c *Ctx) {
	emitContents(c, true, func(r *Rec, mk func() *Spec) error {
		data, _ := mk().Encode()
		for _, n := range []int{1, 2, 4, 6} {
			if err := runPath(r, data, modelOf(mk()), pFile, opFirst(n)); err != nil {
				return err
			}
		}
		return nil
	})
	emitKinds(c, pFile|pOffsets, prefixes, "glyph", "lastglyph", "shortloca", "glyphs", "post2")
	maxN := c.Pick(8, 11)
	c.Bound("glyphs", maxN)
	parts := pFile | pOffsets | pValidate | pReparse | pCmap | pLookup
	for n := 1; n <= maxN; n++ {
		for nhm := 1; nhm <= n; nhm++ {
			for loc := 0; loc < 2; loc++ {
				for base := 0; base <= 4; base += 4 {
					for eq := 0; eq < 2; eq++ {
						n, nhm, loc, base, eq := n, nhm, loc, base, eq
						c.Emit(fmt.Sprintf("first/N%d/nhm%d/loc%d/base%d/eq%d", n, nhm, loc, base, eq), func(r *Rec) error {
							var g [][]byte
							for i := 0; i < n; i++ {
								l := 12 + 2*(i%3) + loc*(i%2)
								if i%4 == 2 {
									l = 0
								}
								g = append(g, simpleGlyph(l, i))
							}
							s := smallSpec(g)
							s.NHM, s.Metrics = nhm, mkMetrics(n, nhm)
							s.LocFmt, s.LocaBase = loc, base
							if eq == 1 {
								for i := range s.Metrics {
									s.Metrics[i].Adv = 777
								}
							}
							data, _ := s.Encode()
							m := modelOf(s)
							for k := 0; k <= n+2; k++ {
								if err := runPath(r, data, m, parts, opFirst(k)); err != nil {
									return err
								}
								for k2 := 0; k2 <= n; k2++ {
									if err := runPath(r, data, m, pFile|pOffsets, opFirst(k), opFirst(k2)); err != nil {
										return err
									}
									if err := runPath(r, data, m, pFile|pOffsets, opKeep(k2), opFirst(k)); err != nil {
										return err
									}
								}
								if err := runPath(r, data, m, pFile, opOptimize(), opFirst(k)); err != nil {
									return err
								}
							}
							return nil
						})
					}
				}
			}
		}
	}
	wordSweep(c, true, sweepBase, func(r *Rec, mk func() *Spec) error {
		s := mk()
		data, _ := s.Encode()
		m := modelOf(s)
		for _, k := range []int{1, 4, 5, 9} {
			if err := runPath(r, data, m, pFile, opFirst(k)); err != nil {
				return err
			}
		}
		return nil
	})
	twinPaths(c, pFile, []Op{opFirst(3)}, []Op{opFirst(5)})
	k := c.Pick(2, 2)
	c.Bound("max_deviations", k)
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			m := modelOf(s)
			ks := []int{257, 258, 259, 65535, 65536, 1 << 30}
			for i := 0; i <= 7; i++ {
				ks = append(ks, i)
			}
			for _, n := range ks {
				if err := runPath(r, data, m, pFile|pOffsets|pValidate|pReparse|pNames, opFirst(n)); err != nil {
					return err
				}
			}
			return nil
		})
	})
	for _, n := range []int{256, 257, 300, 65535} {
		for _, nhm := range []int{1, 2, 255, 256, n - 1, n} {
			for loc := 0; loc < 2; loc++ {
				n, nhm, loc := n, nhm, loc
				if nhm > n || n == 65535 && !c.Thorough() && nhm > 2 && nhm < n-1 {
					continue
				}
				c.Emit(fmt.Sprintf("many/%d/%d/%d", n, nhm, loc), func(r *Rec) error {
					s := countSpec(n, nhm, loc)
					data, _ := s.Encode()
					m := modelOf(s)
					for _, k := range []int{1, 2, 255, 256, 257, n / 2, n - 1, n, n + 1} {
						if err := runPath(r, data, m, pFile|pOffsets, opFirst(k)); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	names, data := realFonts()
	for _, nm := range names {
		nm := nm
		m, err := modelOfFile(data[nm])
		if err != nil {
			continue
		}
		ks := []int{1, 2, 3, 100, 255, 256, 257, m.N / 2, m.N - 1, m.N, m.N + 1}
		if c.Thorough() {
			for k := 5; k < m.N; k += 17 {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			k := k
			c.Emit(fmt.Sprintf("real/%s/%d", nm, k), func(r *Rec) error {
				return runPath(r, data[nm], m, pFile, opFirst(k))
			})
		}
	}
}

// mapSubs gives every encoding of the finite map codes[i] -> gids[i] in the supported formats.
func mapSubs(codes []int, gids []int) []Sub {
	var out []Sub
	lo, hi := codes[0], codes[len(codes)-1]
	span := hi - lo + 1
	full := make([]int, span)
	m0 := map[int]int{}
	for i, c := range codes {
		full[c-lo] = gids[i]
		m0[c] = gids[i]
	}
	small := true
	for _, g := range gids {
		if g > 255 {
			small = false
		}
	}
	if hi < 256 && small {
		out = append(out, mkFmt0(1, 0, 2, m0))
	}
	if hi < 0x10000 {
		out = append(out, mkFmt6(3, 1, 6, lo, full))
	}
	if hi < 0xFFFF {
		// one segment per code; alternately delta and glyph array
		var own, arr4, run []Seg
		var arr []int
		for i, c := range codes {
			if i%2 == 0 {
				own = append(own, Seg{c, c, (gids[i] - c) & 0xFFFF, -1})
			} else {
				own = append(own, Seg{c, c, 0, len(arr)})
				arr = append(arr, gids[i])
			}
		}
		out = append(out, mkFmt4(3, 1, 1, own, arr))
		// one segment through the glyph array, with a delta
		var shifted []int
		const d = 0x10002
		for _, g := range full {
			if g == 0 {
				shifted = append(shifted, 0)
			} else {
				shifted = append(shifted, (g-d)&0xFFFF)
			}
		}
		arr4 = append(arr4, Seg{lo, hi, d & 0xFFFF, 0})
		// a shifted entry of 0 would mean glyph 0
		ok := true
		for i, g := range full {
			if g != 0 && shifted[i] == 0 {
				ok = false
			}
		}
		if ok {
			out = append(out, mkFmt4(0, 3, 2, arr4, shifted))
		}
		// maximal delta segments
		for i := 0; i < len(codes); {
			j := i + 1
			for j < len(codes) && codes[j]-codes[i] == j-i && gids[j]-gids[i] == j-i {
				j++
			}
			run = append(run, Seg{codes[i], codes[j-1], (gids[i] - codes[i]) & 0xFFFF, -1})
			i = j
		}
		out = append(out, mkFmt4(3, 0, 3, run, nil))
	}
	var own, run []Group
	for i := 0; i < len(codes); {
		j := i + 1
		for j < len(codes) && codes[j]-codes[i] == j-i && gids[j]-gids[i] == j-i {
			j++
		}
		run = append(run, Group{uint32(codes[i]), uint32(codes[j-1]), uint32(gids[i])})
		for k := i; k < j; k++ {
			own = append(own, Group{uint32(codes[k]), uint32(codes[k]), uint32(gids[k])})
		}
		i = j
	}
	out = append(out, mkFmt12(3, 10, 0xA0B0C0D0, run), mkFmt12(0, 4, 0, own))
	return out
}

func genC09(c *Ctx) {
	twinPaths(c, pFile|pCmap, []Op{opFirst(5)}, []Op{opFirst(3)})
	emitKinds(c, pFile|pCmap|pLookup, prefixes, "fmt4", "fmt6", "fmt12", "groups", "subtables", "languages", "glyphs")
	patterns := [][]int{{0, 1, 2, 3}, {0, 1, 3, 4}, {0, 2, 4, 6}, {0, 1, 2, 100}}
	basesOf := []int{0x41, 0, 0xFC, 0xD7FE, 0xFFF0, 0xFFFB, 0x1F600, 0x10FFF0}
	if !c.Thorough() {
		patterns = append(patterns, []int{0, 1, 2, 3, 4})
	} else {
		patterns = append(patterns, []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 4, 5}, []int{0, 1, 3, 4, 5})
		basesOf = append(basesOf, 0x00FE, 0x7FFE, 0x8000, 0xFFFE-3, 0x10000, 0xE000)
	}
	c.Bound("maps", "all assignments of glyphs 0..3 (4 glyph font) to 4 codes (thorough: 5), in every format and segmentation, on every code pattern and base")
	for pi, pat := range patterns {
		for _, base := range basesOf {
			pat, base := pat, base
			if base+pat[len(pat)-1] > 0x10FFFF {
				continue
			}
			c.Emit(fmt.Sprintf("map/p%d/%#x", pi, base), func(r *Rec) error {
				n := len(pat)
				total := 1
				for i := 0; i < n; i++ {
					total *= 4
				}
				for x := 0; x < total; x++ {
					codes, gids := make([]int, n), make([]int, n)
					for i, v := 0, x; i < n; i, v = i+1, v/4 {
						codes[i] = base + pat[i]
						gids[i] = v % 4
					}
					subs := mapSubs(codes, gids)
					s := smallSpec([][]byte{simpleGlyph(12, 0), simpleGlyph(12, 1), {}, simpleGlyph(12, 3)})
					s.Cmap = &CmapTab{Subs: subs, Share: x%2 == 1}
					data, _ := s.Encode()
					m := modelOf(s)
					for k := 1; k <= 4; k++ {
						if err := runPath(r, data, m, pFile|pCmap|pLookup, opFirst(k)); err != nil {
							return fmt.Errorf("codes %#x glyphs %v: %v", codes, gids, err)
						}
						if err := runPath(r, data, m, pFile|pCmap, opKeep(k-1)); err != nil {
							return fmt.Errorf("codes %#x glyphs %v: %v", codes, gids, err)
						}
						for k2 := 1; k2 < k; k2++ {
							if err := runPath(r, data, m, pFile|pCmap, opFirst(k), opFirst(k2)); err != nil {
								return fmt.Errorf("codes %#x glyphs %v: %v", codes, gids, err)
							}
						}
					}
					if x%16 == 0 {
						if err := runPath(r, data, m, pValidate|pReparse, opFirst(3)); err != nil {
							return fmt.Errorf("codes %#x glyphs %v: %v", codes, gids, err)
						}
					}
				}
				return nil
			})
		}
	}
	// Glyph ids around byte and word boundaries.
	for _, n := range []int{257, 300, 40000} {
		for _, base := range []int{0, 0x41, 0x100, 0x8000, 0xFF00 - n%256 - 256} {
			n, base := n, base
			c.Emit(fmt.Sprintf("glyphs/%d/%#x", n, base), func(r *Rec) error {
				g := make([][]byte, n)
				for i := range g {
					g[i] = []byte{}
				}
				g[0] = simpleGlyph(12, 0)
				for _, cg := range [][2][]int{
					{{base, base + 1, base + 2, base + 3}, {n - 4, n - 3, n - 2, n - 1}},
					{{base, base + 1, base + 2, base + 3}, {254, 255, 256, 1}},
					{{base, base + 1, base + 2, base + 3}, {n - 1, n - 2, 256, 255}},
					{{base, base + 2, base + 3, base + 4}, {n / 2, n/2 + 1, n/2 + 2, n/2 + 3}},
				} {
					s := smallSpec(g)
					s.Cmap = &CmapTab{Subs: mapSubs(cg[0], cg[1])}
					data, _ := s.Encode()
					m := modelOf(s)
					for _, k := range []int{1, 2, 255, 256, 257, n/2 + 1, n/2 + 3, n - 3, n - 1, n} {
						if err := runPath(r, data, m, pFile|pCmap|pLookup, opFirst(k)); err != nil {
							return fmt.Errorf("codes %#x glyphs %v: %v", cg[0], cg[1], err)
						}
					}
				}
				return nil
			})
		}
	}
	// Subtable mixtures: unsupported formats between, the same pair or body twice, empty subtables, languages.
	for _, b := range cmapTabs() {
		b := b
		c.Emit("table/"+b.Name, func(r *Rec) error {
			s := baseSpec()
			b.Do(s)
			data, _ := s.Encode()
			m := modelOf(s)
			for k := 1; k <= 6; k++ {
				for k2 := 1; k2 <= k; k2++ {
					if err := runPath(r, data, m, pFile|pCmap|pLookup|pReparse|pValidate, opFirst(k), opFirst(k2)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// Large maps: runs, alternation (more than 8190 segments), the whole basic plane.
	type big struct {
		name string
		mk   func(n int) []Sub
	}
	n := 20000
	bigs := []big{
		{"alternating", func(n int) []Sub {
			var arr []int
			for i := 0; i < 20000; i++ {
				arr = append(arr, 1+(i*7919)%(n-1))
			}
			return []Sub{mkFmt4(3, 1, 0, []Seg{{0x100, 0x100 + len(arr) - 1, 0, 0}}, arr), mkFmt6(0, 3, 0, 0x100, arr)}
		}},
		{"shared", func(n int) []Sub { // two segments over one array; written out for each of them, the data just fit
			arr := make([]int, 16373)
			for i := range arr {
				arr[i] = 1 + (i*7919)%(n-1)
			}
			return []Sub{mkFmt4(3, 1, 0, []Seg{{0x100, 0x100 + len(arr) - 1, 0, 0}, {0x8000, 0x8000 + len(arr) - 1, 0, 0}}, arr)}
		}},
		{"run", func(n int) []Sub {
			return []Sub{mkFmt4(3, 1, 0, []Seg{{0x100, 0x100 + n - 2, 1 - 0x100, -1}}, nil), mkFmt12(3, 10, 0, []Group{{0x10000, 0x10000 + uint32(n) - 2, 1}})}
		}},
		{"wrap", func(n int) []Sub { // the delta wraps around inside the segment's image
			return []Sub{mkFmt4(3, 1, 0, []Seg{{0x20, 0x30, 0xFFF0, -1}, {0x8000, 0x8000 + n - 2, 0x8001, -1}}, nil)}
		}},
		{"manygroups", func(n int) []Sub {
			var gr []Group
			for i := 0; i < 9000; i++ {
				gr = append(gr, Group{uint32(0x10000 + 2*i), uint32(0x10000 + 2*i), uint32(1 + (i*31)%(n-1))})
			}
			return []Sub{mkFmt12(3, 10, 0, gr), mkFmt12(0, 4, 1, gr)}
		}},
		{"everyother", func(n int) []Sub { // 8000 segments: fits
			var segs []Seg
			for i := 0; i < 8000; i++ {
				segs = append(segs, Seg{0x100 + 2*i, 0x100 + 2*i, (n - 1 - i - 0x100 - 2*i) & 0xFFFF, -1})
			}
			return []Sub{mkFmt4(3, 1, 0, segs, nil)}
		}},
	}
	for _, b := range bigs {
		b := b
		c.Emit("large/"+b.name, func(r *Rec) error {
			g := make([][]byte, n)
			for i := range g {
				g[i] = []byte{}
			}
			g[0] = simpleGlyph(12, 0)
			s := smallSpec(g)
			subs := b.mk(n)
			s.Cmap = &CmapTab{Subs: subs}
			if b.name == "wrap" { // keep only glyphs that exist
				for c2, gid := range subs[0].Map {
					if int(gid) >= n {
						delete(subs[0].Map, c2)
						_ = c2
					}
				}
				subs[0] = mkFmt4(3, 1, 0, []Seg{{0x20, 0x30, 0xFFF0, -1}, {0x8000, 0x8000 + n - 2, 0x8001, -1}}, nil)
				s.Cmap.Subs = subs
			}
			data, _ := s.Encode()
			m := modelOf(s)
			for _, k := range []int{1, 2, 100, 8189, 8190, 8191, 8192, 12000, n - 1} {
				if err := runPath(r, data, m, pFile|pCmap, opFirst(k)); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// The same a little longer: refused, or right.
	for x := 16370; x <= 16384; x++ {
		x := x
		c.Emit(fmt.Sprintf("toolong/%d", x), func(r *Rec) error {
			g := make([][]byte, n)
			for i := range g {
				g[i] = []byte{}
			}
			g[0] = simpleGlyph(12, 0)
			s := smallSpec(g)
			arr := make([]int, x)
			for i := range arr {
				arr[i] = 1 + (i*7919)%(n-2)
			}
			s.Cmap = &CmapTab{Subs: []Sub{mkFmt4(3, 1, 0, []Seg{{0x100, 0x100 + len(arr) - 1, 0, 0}, {0x8000, 0x8000 + len(arr) - 1, 0, 0}}, arr)}}
			data, _ := s.Encode()
			m := modelOf(s)
			f, err := parse(data)
			if err != nil {
				return err
			}
			r.Input(data)
			r.Trace(1)
			r.Trans(1)
			r.State(uint64(x))
			sub, err := f.SubsetFirst(n - 1)
			if err != nil {
				if x < 16374 {
					return err
				}
				r.Count("refused", 1)
				return nil
			}
			return agree(sub, m.first(n-1), pFile|pCmap)
		})
	}
	names, data := realFonts()
	for _, nm := range names {
		nm := nm
		m, err := modelOfFile(data[nm])
		if err != nil {
			continue
		}
		for _, k := range []int{1, 2, 50, 256, m.N / 3, m.N / 2, m.N - 1} {
			k := k
			c.Emit(fmt.Sprintf("real/%s/%d", nm, k), func(r *Rec) error {
				return runPath(r, data[nm], m, pFile|pCmap|pLookup, opFirst(k))
			})
		}
	}
}

func genC14(c *Ctx) {
	emitKinds(c, pFile|pOffsets, func(m *Model) [][]Op {
		return append(prefixes(m), []Op{opOptimize()}, []Op{opKeep(m.N - 1), opOptimize()})
	}, "glyphs")
	emitContents(c, false, func(r *Rec, mk func() *Spec) error {
		data, _ := mk().Encode()
		m := modelOf(mk())
		for _, ops := range [][]Op{{opOptimize()}, {opFirst(5)}, {opKeep(5, 1), opOptimize()}, {opOptimize(), opFirst(3)}} {
			if err := runPath(r, data, m, pFile, ops...); err != nil {
				return err
			}
		}
		return idempotent(data)
	}, "metrics", "bearings")
	maxN := c.Pick(7, 8)
	alpha := []uint16{500, 0, 65535}
	c.Bound("glyphs", maxN)
	c.Bound("widths", "all sequences over 3 values")
	for n := 1; n <= maxN; n++ {
		for nhm := 1; nhm <= n; nhm++ {
			n, nhm := n, nhm
			total := 1
			for i := 0; i < nhm; i++ {
				total *= 3
			}
			c.Emit(fmt.Sprintf("widths/N%d/nhm%d", n, nhm), func(r *Rec) error {
				g := make([][]byte, n)
				for i := range g {
					g[i] = simpleGlyph(12, i)
				}
				for x := 0; x < total; x++ {
					s := smallSpec(g)
					s.NHM, s.Metrics = nhm, mkMetrics(n, nhm)
					v := x
					for i := 0; i < nhm; i++ {
						s.Metrics[i].Adv = alpha[v%3]
						v /= 3
					}
					for i := nhm; i < n; i++ {
						s.Metrics[i].Adv = s.Metrics[nhm-1].Adv
					}
					for i := range s.Metrics {
						s.Metrics[i].LSB = int16(i*1000 - 2000)
					}
					data, _ := s.Encode()
					m := modelOf(s)
					var paths [][]Op
					paths = append(paths, []Op{opOptimize()}, []Op{opOptimize(), opOptimize()}, []Op{opWrite(), opOptimize(), opWrite()}, nil)
					for k := 1; k <= n; k++ {
						paths = append(paths, []Op{opFirst(k)}, []Op{opKeep(k - 1)}, []Op{opOptimize(), opFirst(k)}, []Op{opFirst(k), opOptimize()},
							[]Op{opKeep(k - 1), opOptimize()}, []Op{opOptimize(), opKeep(k - 1)})
						for k2 := 1; k2 < k; k2++ {
							paths = append(paths, []Op{opFirst(k), opFirst(k2)}, []Op{opKeep(k - 1), opFirst(k2)}, []Op{opKeep(k - 1), opKeep(k2 - 1)})
						}
					}
					for _, p := range paths {
						if err := runPath(r, data, m, pFile, p...); err != nil {
							return fmt.Errorf("widths %v: %v", s.Metrics, err)
						}
					}
					if err := idempotent(data); err != nil {
						return fmt.Errorf("widths %v: %v", s.Metrics, err)
					}
				}
				return nil
			})
		}
	}
	for _, n := range []int{256, 257, 65535} {
		for _, nhm := range []int{1, 2, 256, n - 1, n} {
			for mode := 0; mode < 4; mode++ {
				n, nhm, mode := n, nhm, mode
				c.Emit(fmt.Sprintf("many/%d/%d/%d", n, nhm, mode), func(r *Rec) error {
					s := countSpec(n, nhm, 1)
					for i := 0; i < nhm; i++ {
						switch mode {
						case 0:
							s.Metrics[i].Adv = 600
						case 1:
							s.Metrics[i].Adv = uint16(i % 2)
						case 2:
							s.Metrics[i].Adv = 600
							if i == nhm/2 {
								s.Metrics[i].Adv = 601
							}
						case 3:
							s.Metrics[i].Adv = uint16(min(i, nhm-nhm/3))
						}
					}
					for i := nhm; i < n; i++ {
						s.Metrics[i].Adv = s.Metrics[nhm-1].Adv
					}
					data, _ := s.Encode()
					m := modelOf(s)
					for _, p := range [][]Op{{opOptimize()}, {opFirst(n - 1)}, {opKeep(n - 2)}, {opKeep(1), opOptimize()}, {opOptimize(), opFirst(256)}} {
						if err := runPath(r, data, m, pFile, p...); err != nil {
							return err
						}
					}
					return idempotent(data)
				})
			}
		}
	}
	twinPaths(c, pFile, []Op{opOptimize()}, []Op{opFirst(2), opOptimize()})
	eachFont(c.Pick(1, 2), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			m := modelOf(s)
			for _, p := range [][]Op{{opOptimize()}, {opFirst(2), opOptimize()}, {opKeep(1), opOptimize(), opFirst(1)}} {
				if err := runPath(r, data, m, pFile|pValidate, p...); err != nil {
					return err
				}
			}
			return idempotent(data)
		})
	})
	names, data := realFonts()
	for _, nm := range names {
		nm := nm
		c.Emit("real/"+nm, func(r *Rec) error {
			m, err := modelOfFile(data[nm])
			if err != nil {
				return nil
			}
			if err := runPath(r, data[nm], m, pFile, opOptimize()); err != nil {
				return err
			}
			if err := runPath(r, data[nm], m, pFile, opKeep(m.N-1)); err != nil {
				return err
			}
			return idempotent(data[nm])
		})
	}
}

// idempotent: optimizing again changes nothing observable.
func idempotent(data []byte) error {
	f, err := parse(data)
	if err != nil {
		return err
	}
	if err := f.Optimize(); err != nil {
		return err
	}
	a := append(observeQueries(f, true), "")
	b1, err := write(f)
	if err != nil {
		return err
	}
	if err := f.Optimize(); err != nil {
		return err
	}
	if err := diffObs(a, append(observeQueries(f, true), "")); err != nil {
		return fmt.Errorf("second Optimize changes the font: %v", err)
	}
	b2, err := write(f)
	if err != nil {
		return err
	}
	if err := diffBytes("file after second Optimize", b2, b1); err != nil {
		return err
	}
	// and on the font read back
	g, err := parse(b1)
	if err != nil {
		return err
	}
	if err := g.Optimize(); err != nil {
		return err
	}
	b3, err := write(g)
	if err != nil {
		return err
	}
	return diffBytes("file after write, parse, Optimize", b3, b1)
}

func genC20(c *Ctx) {
	twinPaths(c, pFile|pCmap|pNames, []Op{opPrune("name")}, []Op{opPrune("cmap")})
	names := []string{"cmap", "post", "name", "glyf", "", "CMAP", "cmap ", "head"}
	maxLen := 3
	c.Bound("prune_arguments", "all lists up to length 3 over 8 names")
	afters := [][]Op{nil, {opFirst(3)}, {opKeep(3)}, {opOptimize()}, {opFirst(2), opKeep(1)}, {opRunes("AB")}}
	served := map[string]string{"cmap": "cmap", "post": "post", "name": "name"}
	var bs []Base
	bs = append(bs, bases()...)
	shapes := map[string]bool{}
	eachFont(1, func(name string, mk func() *Spec) {
		shapes[name] = true
		bs = append(bs, Base{name, mk})
	})
	for _, b := range bs {
		b := b
		for first := -1; first < len(names); first++ {
			first := first
			c.Emit(fmt.Sprintf("prune/%s/%d", b.Name, first), func(r *Rec) error {
				s := b.Mk()
				data, _ := s.Encode()
				m := modelOf(s)
				var err error
				n := maxLen
				if shapes[b.Name] && !c.Thorough() {
					n = 2
				}
				sequences(len(names), n, func(seq []int) {
					if err != nil || first < 0 && len(seq) > 0 || first >= 0 && (len(seq) == 0 || seq[0] != first) {
						return
					}
					var args []string
					gone := map[string]bool{}
					for _, i := range seq {
						args = append(args, names[i])
						if t, ok := served[names[i]]; ok {
							gone[t] = true
						}
					}
					for _, after := range afters {
						if err = runPath(r, data, m, pAll, append([]Op{opPrune(args...)}, after...)...); err != nil {
							return
						}
						if len(after) > 0 {
							if err = runPath(r, data, m, pAll, append(append([]Op{}, after...), opPrune(args...))...); err != nil {
								return
							}
						}
					}
					// one at a time is the same as all at once
					if len(args) > 1 {
						var ops []Op
						for _, a := range args {
							ops = append(ops, opPrune(a))
						}
						if err = runPath(r, data, m, pAll, ops...); err != nil {
							return
						}
					}
					// queries not served by a removed table
					f, e := parse(data)
					if e != nil {
						err = e
						return
					}
					info := func() map[string]string {
						out := map[string]string{}
						for _, t := range []string{"head", "os2", "hhea", "hmtx", "loca", "glyf", "cmap", "post", "name"} {
							if !gone[t] {
								out[t] = tableInfo(f, t)
							}
						}
						return out
					}
					before := info()
					if e := f.PruneTables(args...); e != nil {
						err = fmt.Errorf("PruneTables%q: %v", args, e)
						return
					}
					for t, w := range before {
						if g := tableInfo(f, t); g != w {
							err = fmt.Errorf("PruneTables%q changes TableInfo(%q): %q, was %q", args, t, g, w)
							return
						}
					}
				})
				return err
			})
		}
	}
	// Every tag of the format, nearly those that can be pruned, alone and next to one that can; long lists.
	tags := append(knownTags(), "head", "hhea", "hmtx", "maxp", "loca", "glyf", "OS/2", "os2", "cvt ", "cvt", "fpgm", "prep", "trec", "*", "all", " ", ",", "cmap,name", "cmap name", "names",
		"nam", "pos", "cma", "cmap\x00", "\x00", " cmap", "post ", " post", "name ", " name", "Cmap", "Name", "Post", "POST", "NAME", "posts", "map", "c", "n", "p", "\xff", "\u0441map", strings.Repeat("name", 1000))
	for i := range tags {
		t := strings.ReplaceAll(tags[i], "_", " ")
		c.Emit(fmt.Sprintf("tag/%d", i), func(r *Rec) error {
			for _, b := range []func() *Spec{baseSpec, func() *Spec { s := baseSpec(); s.Extra = []RawTable{{"DSIG", pattern(9, 2)}}; return s }} {
				s := b()
				data, _ := s.Encode()
				m := modelOf(s)
				for _, args := range [][]string{{t}, {t, "name"}, {"post", t}, {"cmap", t, "name"}, {t, t, "cmap"}} {
					for _, ops := range [][]Op{{opPrune(args...)}, {opFirst(4), opPrune(args...)}, {opPrune(args...), opKeep(3)}} {
						if err := runPath(r, data, m, pAll, ops...); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
	for _, n := range []int{15, 16, 17, 255, 256, 257, 1000, 65536} {
		n := n
		c.Emit(fmt.Sprintf("long/%d", n), func(r *Rec) error {
			data, _ := baseSpec().Encode()
			m := modelOf(baseSpec())
			for _, fill := range []string{"zzzz", "name", ""} {
				for _, one := range []string{"cmap", "post", "name"} {
					for _, at := range []int{0, n / 2, n - 1} {
						args := make([]string, n)
						for i := range args {
							args[i] = fill
						}
						args[at] = one
						if err := runPath(r, data, m, pAll, opPrune(args...)); err != nil {
							return fmt.Errorf("%q at %d of %d times %q: %.200v", one, at, n, fill, err)
						}
					}
				}
			}
			return nil
		})
	}
	nm, rd := realFonts()
	for _, n := range nm {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil {
				return nil
			}
			for _, args := range [][]string{{"cmap"}, {"post"}, {"name"}, {"post", "cmap"}, {"name", "post", "cmap", "name", "zzz"}} {
				if err := runPath(r, rd[n], m, pFile|pNames|pLookup|pValidate, opPrune(args...)); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func genC21(c *Ctx) {
	emitContents(c, true, func(r *Rec, mk func() *Spec) error {
		data, _ := mk().Encode()
		for _, ops := range [][]Op{nil, {opFirst(5)}, {opKeep(4)}} {
			if err := runPath(r, data, modelOf(mk()), pOffsets, ops...); err != nil {
				return err
			}
		}
		return nil
	}, "glyph", "last glyph", "long glyph", "instructions")
	emitKinds(c, pOffsets, func(m *Model) [][]Op {
		return append(prefixes(m), []Op{}, []Op{opOptimize()}, []Op{opKeep(m.N - 1)})
	}, "glyph", "lastglyph", "shortloca", "glyphs", "cvt", "name")
	maxN := c.Pick(5, 6)
	c.Bound("glyphs", maxN)
	for loc := 0; loc < 2; loc++ {
		lens := []int{0, 12, 18}
		if loc == 1 {
			lens = []int{0, 11, 12, 17}
		}
		for _, base := range []int{0, 2, 6} {
			for n := 1; n <= maxN; n++ {
				loc, base, n := loc, base, n
				total := 1
				for i := 0; i < n; i++ {
					total *= len(lens)
				}
				c.Emit(fmt.Sprintf("lengths/loc%d/base%d/N%d", loc, base, n), func(r *Rec) error {
					for x := 0; x < total; x++ {
						g := make([][]byte, n)
						v := x
						var ls []int
						for i := range g {
							g[i] = simpleGlyph(lens[v%len(lens)], i)
							ls = append(ls, len(g[i]))
							v /= len(lens)
						}
						s := smallSpec(g)
						s.LocFmt, s.LocaBase = loc, base
						s.GlyfTail = x % 3
						data, _ := s.Encode()
						m := modelOf(s)
						paths := [][]Op{nil, {opOptimize()}, {opPrune("cmap")}, {opWrite()}}
						for k := 1; k <= n; k++ {
							paths = append(paths, []Op{opFirst(k)}, []Op{opKeep(k - 1)}, []Op{opKeep(k-1, n-1)}, []Op{opKeep(n - 1), opFirst(k)}, []Op{opFirst(k), opKeep(k / 2)})
						}
						for _, p := range paths {
							if err := runPath(r, data, m, pOffsets|pFile, p...); err != nil {
								return fmt.Errorf("glyph lengths %v: %v", ls, err)
							}
						}
					}
					return nil
				})
			}
		}
	}
	// Large glyphs in every position.
	for _, size := range []int{65534, 65536, 65538, 66000, 100000} {
		for pos := 0; pos < 3; pos++ {
			for loc := 0; loc < 2; loc++ {
				size, pos, loc := size, pos, loc
				c.Emit(fmt.Sprintf("huge/%d/%d/loc%d", size, pos, loc), func(r *Rec) error {
					g := [][]byte{simpleGlyph(12, 0), {}, simpleGlyph(14, 2), simpleGlyph(16, 3)}
					g[pos] = simpleGlyph(size, 9)
					s := smallSpec(g)
					s.LocFmt = loc
					data, _ := s.Encode()
					m := modelOf(s)
					for _, p := range [][]Op{nil, {opFirst(3)}, {opFirst(2)}, {opKeep(pos)}, {opKeep(3)}, {opKeep(pos, 3), opFirst(3)}} {
						if err := runPath(r, data, m, pOffsets|pFile|pReparse, p...); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	// Every 16 bit glyph id on one font of each loca format and size.
	for _, n := range []int{1, 6, 256, 257, 65535} {
		for loc := 0; loc < 2; loc++ {
			n, loc := n, loc
			c.Emit(fmt.Sprintf("ids/%d/loc%d", n, loc), func(r *Rec) error {
				var s *Spec
				if n == 1 {
					s = smallSpec([][]byte{simpleGlyph(12, 0)})
				} else {
					s = countSpec(n, 1, loc)
				}
				s.LocFmt = loc
				data, _ := s.Encode()
				f, err := parse(data)
				if err != nil {
					return err
				}
				check := func(f *Font, glyphs [][]byte) error {
					at := 0
					for id := 0; id < 65536; id++ {
						o, l, err := f.GetGlyphDataOffset(GID(id))
						if id >= len(glyphs) {
							if err == nil {
								return fmt.Errorf("glyph %d of %d: offset %d,+%d without error", id, len(glyphs), o, l)
							}
							continue
						}
						if err != nil || int(o) != at || int(l) != len(glyphs[id]) {
							return fmt.Errorf("glyph %d: %d,+%d %v, want %d,+%d", id, o, l, err, at, len(glyphs[id]))
						}
						at += len(glyphs[id])
					}
					r.Trans(65536)
					r.Trace(1)
					r.State(hashBytes(data) + uint64(len(glyphs)))
					return nil
				}
				if err := check(f, s.Glyphs); err != nil {
					return err
				}
				for _, k := range []int{1, n / 2, n - 1} {
					if k < 1 || k >= n {
						continue
					}
					g, err := f.SubsetFirst(k)
					if err != nil {
						return err
					}
					if err := check(g, s.Glyphs[:k]); err != nil {
						return fmt.Errorf("after SubsetFirst(%d): %v", k, err)
					}
				}
				return nil
			})
		}
	}
	twinPaths(c, pOffsets, nil, []Op{opFirst(2)}, []Op{opKeep(3)})
	eachFont(c.Pick(2, 3), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			m := modelOf(s)
			for _, p := range [][]Op{nil, {opFirst(2)}, {opKeep(3)}} {
				if err := runPath(r, data, m, pOffsets, p...); err != nil {
					return err
				}
			}
			return nil
		})
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil {
				return nil
			}
			for _, p := range [][]Op{nil, {opFirst(m.N / 2)}, {opKeep(m.N / 3)}} {
				if err := runPath(r, rd[n], m, pOffsets, p...); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func init() {
	register(&Check{ID: "C07", Level: "model_checking",
		Rule: "every component relation over 3 glyphs (cycles, self references) with every index set through SubsetKeepIndices and SubsetKeepRunes, alone and chained with a second subset; relations over 4 glyphs; every encoding of one to three components; every index list up to length 3 with repeats and out of range ids; chains, trees and wide composites up to 300 glyphs and ids up to 65534; every font shape with every single glyph. Each result's written file is decoded independently and compared with the model's transitive closure",
		Gen:  genC07})
	register(&Check{ID: "C08", Level: "model_checking",
		Rule: "every glyph count up to the bound x every metrics split x loca format and base x every n (0 to count+2), alone and chained after another subset or Optimize; every font shape of the deviation space x n; glyph counts around 256 and 65535; sample fonts. The written file, queries and offsets are compared with the model's prefix",
		Gen:  genC08})
	register(&Check{ID: "C09", Level: "model_checking",
		Rule: "every map from 4 codes to 4 glyphs in every supported format and segmentation, on code patterns and bases at the edges of the code ranges, limited to every glyph count directly and in two steps; glyph ids around 256 and 32768; mixtures of subtables; maps with more than 8190 segments. Lookups and the strictly decoded written cmap are compared with the model",
		Gen:  genC09})
	register(&Check{ID: "C14", Level: "model_checking",
		Rule: "every width sequence over 3 values x every metrics split up to the glyph bound x Optimize, SubsetFirst and SubsetKeepIndices sequences; each written file is decoded: every width and bearing as in the source, stored metrics as announced and minimal; optimizing again (directly and after a read back) changes no byte",
		Gen:  genC14})
	register(&Check{ID: "C20", Level: "model_checking",
		Rule: "every PruneTables argument list up to length 3 over 8 names on every base font, before and after subset and optimize operations; queries, table info and written file compared with the model without those tables",
		Gen:  genC20})
	register(&Check{ID: "C21", Level: "model_checking",
		Rule: "every sequence of glyph lengths up to the bound x loca format x data start x operations; glyphs over 64 KiB in every position; all 65536 glyph ids on fonts of 1 to 65535 glyphs; every font shape with up to two deviations; answers compared with the source layout or the written glyf table",
		Gen:  genC21})
}
