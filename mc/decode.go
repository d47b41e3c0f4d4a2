//go:build go1.22

// C12, C13, C15, C16: character maps, rune lookup, names, glyph names.

package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// plainSpec is a font with n empty glyphs and the given subtables.
func plainSpec(n int, subs ...Sub) *Spec {
	s := baseSpec()
	g := make([][]byte, n)
	for i := range g {
		g[i] = []byte{}
	}
	g[0] = simpleGlyph(12, 0)
	setGlyphs(s, g, 1)
	s.OS2, s.Cvt, s.Fpgm, s.Prep, s.Names, s.Post = nil, nil, nil, nil, nil, nil
	s.Cmap = &CmapTab{Subs: subs}
	s.NoGlyf = n > 64 // saves time
	return s
}

// tight is the number of glyphs of the smallest font the subtables are valid for (at least 2).
func tight(subs ...Sub) int {
	n := 2
	for _, s := range subs {
		for _, g := range s.Map {
			n = max(n, int(g)+1)
		}
	}
	return n
}

func runCmap(r *Rec, s *Spec, parts Parts) error {
	data, _ := s.Encode()
	return runPath(r, data, modelOf(s), parts)
}

// spans calls do for every maximal run of codes with a defined meaning, up to maxLen long.
func codeRuns(p, e int, lo, hi uint32, maxLen int, do func(a, b uint32)) {
	for c := lo; c <= hi; {
		if _, ok := codeRune(p, e, c); !ok {
			c++
			continue
		}
		d := c
		for d < hi && int(d-c)+1 < maxLen {
			if _, ok := codeRune(p, e, d+1); !ok {
				break
			}
			d++
		}
		do(c, d)
		c = d + 1
	}
}

func genC12(c *Ctx) {
	emitKinds(c, pCmap, noOps, "fmt4", "fmt6", "fmt12", "groups", "subtables", "languages", "glyphs")
	const big = 65535
	parts := pCmap | pLookup
	type enc struct{ p, e int }
	narrow := []enc{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 6}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {3, 4}, {3, 10}}
	for _, pe := range narrow {
		pe := pe
		for _, mult := range []int{1, 0x3039} {
			mult := mult
			c.Emit(fmt.Sprintf("codes4/%d,%d/%d", pe.p, pe.e, mult), func(r *Rec) error {
				// every 16 bit code, in format 4 segments cut into several subtables if need be
				var segs []Seg
				flush := func() error {
					if len(segs) == 0 {
						return nil
					}
					s := plainSpec(big, mkFmt4(pe.p, pe.e, 0, segs, nil))
					segs = nil
					return runCmap(r, s, parts)
				}
				var err error
				codeRuns(pe.p, pe.e, 0, 0xFFFE, 0xFFFF, func(a, b uint32) {
					if err != nil {
						return
					}
					if mult == 1 {
						// code -> code+1: never glyph 0 and never past the last glyph
						if b == 0xFFFE {
							segs = append(segs, Seg{int(a), int(b) - 1, 1, -1})
							b = 0xFFFD
						} else {
							segs = append(segs, Seg{int(a), int(b), 1, -1})
						}
					} else { // pieces of 37 codes with unrelated deltas, wrapping modulo 65536
						for x := int(a); x <= int(b); x += 37 {
							y := min(x+36, int(b))
							g := 1 + (x*mult)%(big-40)
							segs = append(segs, Seg{x, y, (g - x) & 0xFFFF, -1})
							if len(segs) == 4000 {
								if err = flush(); err != nil {
									return
								}
							}
						}
					}
				})
				if err == nil {
					err = flush()
				}
				return err
			})
		}
		c.Emit(fmt.Sprintf("codes12/%d,%d", pe.p, pe.e), func(r *Rec) error {
			hi := uint32(0xFFFF)
			if _, ok := codeRune(pe.p, pe.e, 0x10FFFF); ok {
				hi = 0x10FFFF
			}
			var gr []Group
			codeRuns(pe.p, pe.e, 0, hi, 60000, func(a, b uint32) { gr = append(gr, Group{a, b, 1 + a%5000}) })
			return runCmap(r, plainSpec(big, mkFmt12(pe.p, pe.e, 0, gr)), parts)
		})
		c.Emit(fmt.Sprintf("codes6/%d,%d", pe.p, pe.e), func(r *Rec) error {
			var err error
			codeRuns(pe.p, pe.e, 0, 0xFFFF, 5000, func(a, b uint32) {
				var arr []int
				for x := a; x <= b; x++ {
					arr = append(arr, int(x*7%6000))
				}
				if err == nil {
					err = runCmap(r, plainSpec(6000, mkFmt6(pe.p, pe.e, 0, int(a), arr)), parts)
				}
			})
			return err
		})
	}
	c.Bound("codes", "every 16-bit code (every Unicode code point in format 12) with a defined meaning, per platform/encoding")
	c.Emit("codes0", func(r *Rec) error {
		for _, pe := range []enc{{1, 0}, {0, 3}, {3, 1}, {3, 0}, {0, 0}, {3, 10}} {
			for k := 0; k < 4; k++ {
				m := map[int]int{}
				for i := 0; i < 256; i++ {
					m[i] = []int{i, 255 - i, i * 7 % 256, (i + 1) % 256}[k]
				}
				if err := runCmap(r, plainSpec(256, mkFmt0(pe.p, pe.e, 0, m)), parts); err != nil {
					return err
				}
			}
			for code := 0; code < 256; code++ {
				for _, g := range []int{1, 2, code, 254, 255} {
					if err := runCmap(r, plainSpec(256, mkFmt0(pe.p, pe.e, 0, map[int]int{code: g})), pCmap); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	c.Emit("macroman", func(r *Rec) error {
		arr := make([]int, 256)
		for i := range arr {
			arr[i] = i + 1
		}
		for first := 0; first < 256; first++ {
			if err := runCmap(r, plainSpec(300, mkFmt6(1, 0, 0, first, arr[first:])), pCmap); err != nil {
				return err
			}
		}
		if err := runCmap(r, plainSpec(300, mkFmt4(1, 0, 0, []Seg{{0, 255, 1, -1}}, nil)), parts); err != nil {
			return err
		}
		return runCmap(r, plainSpec(300, mkFmt12(1, 0, 0, []Group{{0, 255, 1}})), parts)
	})
	// Format 4: every combination of two segments' ranges, deltas and range offsets over a small glyph array.
	type mode struct{ delta, idx int }
	var modes []mode
	for _, d := range []int{0, 1, 0xFFFF, 0x10000 - 0x40, 0x10000 - 0x42} {
		modes = append(modes, mode{d, -1})
	}
	for idx := 0; idx < 3; idx++ {
		for _, d := range []int{0, 1, 2, 0xFFFF} {
			modes = append(modes, mode{d, idx})
		}
	}
	arrays := 81
	c.Bound("format4", fmt.Sprintf("two segments: %d delta/range-offset modes each x lengths 1..3 x gap 0..1 x %d glyph arrays x 3 code bases", len(modes), arrays))
	for mi := range modes {
		for mj := range modes {
			a, b := modes[mi], modes[mj]
			c.Emit(fmt.Sprintf("segments/%d/%d", mi, mj), func(r *Rec) error {
				for _, base := range []int{0x40, 0, 0xFFF0} {
					for l1 := 1; l1 <= 3; l1++ {
						for l2 := 1; l2 <= 3; l2++ {
							for gap := 0; gap < 2; gap++ {
								na := 1
								for _, x := range []struct {
									m mode
									l int
								}{{a, l1}, {b, l2}} {
									if x.m.idx >= 0 && x.m.idx+x.l > na {
										na = x.m.idx + x.l
									}
								}
								total := 1
								for i := 0; i < na && total < arrays; i++ {
									total *= 3
								}
								if a.idx < 0 && b.idx < 0 {
									total = 1
								}
								for x := 0; x < total; x++ {
									arr := make([]int, na)
									for i, v := 0, x; i < na; i, v = i+1, v/3 {
										arr[i] = v % 3
									}
									segs := []Seg{{base, base + l1 - 1, a.delta, a.idx}, {base + l1 + gap, base + l1 + gap + l2 - 1, b.delta, b.idx}}
									sub := mkFmt4(3, 1, 0, segs, arr)
									n := 1
									for _, g := range sub.Map {
										if int(g) >= n {
											n = int(g) + 1
										}
									}
									if n > 70 && (x > 0 || n > 65534 || l1+l2 > 2 || gap > 0) {
										continue // one small case is enough where deltas lead to high glyphs
									}
									if err := runCmap(r, plainSpec(n, sub), pCmap); err != nil {
										return fmt.Errorf("segments %+v array %v: %v", segs, arr, err)
									}
								}
							}
						}
					}
				}
				return nil
			})
		}
	}
	c.Emit("terminators", func(r *Rec) error { // conventional variants of the last segment
		for _, tr := range [][2]int{{1, 0}, {0, 0}, {1, 0xFFFF}, {0, 0xFFFF}, {2, 0}} {
			sub := mkFmt4(3, 1, 0, []Seg{{0x41, 0x44, 1 - 0x41, -1}, {0xFFF0, 0xFFFE, 0x10000 - 0xFFE9, -1}}, nil)
			n := 3
			put16(sub.Body, 16+4*n+2*(n-1)+2*0, uint16(tr[0]))
			put16(sub.Body, 16+6*n+2*(n-1), uint16(tr[1]))
			for len(sub.Body) > 0 {
				if err := runCmap(r, plainSpec(30, sub), pCmap|pLookup); err != nil {
					return fmt.Errorf("terminator delta %d range offset %#x: %v", tr[0], tr[1], err)
				}
				break
			}
		}
		return nil
	})
	// Format 12: groups at the edges of the planes.
	c.Emit("groups", func(r *Rec) error {
		var err error
		lens := []uint32{1, 2, 3}
		for _, base := range []uint32{0, 0x41, 0xD7FC, 0xFFFC, 0x1FFFD, 0x10FFF0} {
			for _, pe := range []enc{{3, 10}, {0, 4}, {0, 6}} {
				sequences(6, 3, func(seq []int) { // per group: length 1..3, glyphs ascending or restarting
					if err != nil {
						return
					}
					at, g := base, uint32(0)
					var gr []Group
					for i, k := range seq {
						n := lens[k%3]
						if k >= 3 {
							g = uint32(i + 1)
							at++
						}
						gr = append(gr, Group{at, at + n - 1, g})
						at += n
						g += n
					}
					sub := mkFmt12(pe.p, pe.e, 0, gr)
					for _, n := range []int{20, tight(sub)} {
						if err == nil {
							err = runCmap(r, plainSpec(n, sub), pCmap|pLookup)
						}
					}
				})
			}
		}
		return err
	})
	// Glyph ids the font does not have, also those that 16 bits cannot tell: refused or not mapped, never another glyph.
	for _, n := range []int{1, 6, 300, 65535} {
		n := n
		c.Emit(fmt.Sprintf("beyond/%d", n), func(r *Rec) error {
			r.Trace(1)
			starts := []uint32{0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFF0001, 0xFFFFFFF8, 0xFFFFFFFF}
			for _, m := range []uint32{0, 1 << 16, 2 << 16, 0xFFFF << 16} {
				for d := uint32(0); d < 8; d++ {
					starts = append(starts, m+d, m+uint32(n)-4+d)
				}
			}
			for _, g := range starts {
				for _, l := range []uint32{1, 2, 12} {
					for _, pe := range [][2]int{{3, 10}, {0, 4}} {
						for _, more := range []bool{false, true} {
							gr := []Group{{0x41, 0x41 + l - 1, g}}
							if more {
								gr = append(gr, Group{0x1F600, 0x1F601, 0})
							}
							s := plainSpec(n, mkFmt12(pe[0], pe[1], 0, gr))
							data, _ := s.Encode()
							r.Trans(1)
							r.Input(data)
							r.State(uint64(g)<<32 | uint64(l)<<17 | uint64(n))
							f, err := parse(data)
							if err != nil {
								if uint64(g)+uint64(l) <= uint64(n) && (!more || n > 1) {
									return fmt.Errorf("%d codes to glyph %d of %d: %v", l, g, n, err)
								}
								continue
							}
							got := f.GetCmap(pe[0], pe[1])
							for c, id := range got {
								want := uint64(g) + uint64(c) - 0x41
								if c >= 0x1F600 {
									want = uint64(c) - 0x1F600
								} else if c < 0x41 || c >= 0x41+rune(l) {
									return fmt.Errorf("%d codes to glyph %d of %d: %U is mapped to %d", l, g, n, c, id)
								}
								if id != 0 && uint64(id) != want {
									return fmt.Errorf("%d codes to glyph %d of %d: %U is mapped to %d", l, g, n, c, id)
								}
							}
						}
					}
				}
			}
			return nil
		})
	}
	c.Emit("ranges6", func(r *Rec) error {
		for _, pe := range []enc{{3, 1}, {0, 3}, {3, 10}} {
			for _, first := range []int{0, 1, 0x41, 0xFE, 0xFF, 0xD7FF, 0xFFFA} {
				for n := 0; n <= 4; n++ {
					total := 1
					for i := 0; i < n; i++ {
						total *= 3
					}
					for x := 0; x < total; x++ {
						arr := make([]int, n)
						for i, v := 0, x; i < n; i, v = i+1, v/3 {
							arr[i] = v % 3
						}
						sub := mkFmt6(pe.p, pe.e, 0, first, arr)
						for _, ng := range []int{3, tight(sub)} {
							if err := runCmap(r, plainSpec(ng, sub), pCmap); err != nil {
								return fmt.Errorf("first %#x array %v: %v", first, arr, err)
							}
						}
					}
				}
			}
		}
		return nil
	})
	// Orders of supported and unsupported subtables; the same platform/encoding pair twice; shared bodies; gaps.
	mk := func(k, pos int) Sub {
		g := 1 + pos
		switch k {
		case 0:
			return mkFmt0(1, 0, 0, map[int]int{0x41 + pos: g, 0x42: 5})
		case 1:
			return mkFmt4(3, 1, 0, []Seg{{0x41 + pos, 0x43 + pos, (g - 0x41 - pos) & 0xFFFF, -1}}, nil)
		case 2:
			return mkFmt6(0, 3, 0, 0x41, []int{g, 0, 2})
		case 3:
			return mkFmt12(3, 10, 0, []Group{{0x1F600, 0x1F601, uint32(g)}})
		case 4:
			return mkUnsup(0, 5, 14, 0)
		case 5:
			return mkUnsup(3, 3, 2, 5)
		case 6:
			return mkUnsup(0, 4, 13, 0)
		case 7:
			return mkUnsup(1, 0, 8, 0)
		case 8:
			return mkUnsup(3, 0, 10, 0)
		}
		return mkFmt4(0, 4, 0, []Seg{{0x41, 0x44, (g - 0x41) & 0xFFFF, -1}}, nil)
	}
	const kinds = 10
	c.Bound("subtable_orders", fmt.Sprintf("all sequences up to length %d over %d kinds", c.Pick(4, 5), kinds))
	for k0 := 0; k0 < kinds; k0++ {
		k0 := k0
		c.Emit(fmt.Sprintf("orders/%d", k0), func(r *Rec) error {
			var err error
			sequences(kinds, c.Pick(4, 5), func(seq []int) {
				if err != nil || len(seq) == 0 || seq[0] != k0 {
					return
				}
				var subs []Sub
				for i, k := range seq {
					subs = append(subs, mk(k, i))
				}
				for v := 0; v < 3; v++ {
					s := plainSpec(10-v%2*(10-tight(subs...)), subs...)
					s.Cmap.Share = v == 1
					s.Cmap.Gap = 2 * v
					s.LocFmt = v % 2
					if err = runCmap(r, s, pCmap|pLookup); err != nil {
						err = fmt.Errorf("kinds %v: %v", seq, err)
						return
					}
				}
			})
			return err
		})
	}
	c.Emit("absent pairs", func(r *Rec) error {
		s := baseSpec()
		data, _ := s.Encode()
		f, err := parse(data)
		if err != nil {
			return err
		}
		m := modelOf(s)
		for p := -1; p < 300; p++ {
			for e := -1; e < 300; e++ {
				if err := agreeCmap(f, m, p, e); err != nil {
					return err
				}
			}
		}
		r.Trans(301 * 301)
		r.Trace(1)
		return nil
	})
	emitTwins(c, func(r *Rec, mk func() *Spec) error { return runCmap(r, mk(), pCmap|pLookup) })
	eachFont(c.Pick(2, 3), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error { return runCmap(r, mk(), pCmap|pLookup) })
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error { return runReal(r, rd[n], pCmap|pLookup) })
	}
}

func genC13(c *Ctx) {
	runes := []rune{'A', 'B', 0x1F600, 0, 0x10FFFF, -1, 0x7FFFFFFF, 'C'}
	pe := [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}}
	// Per subtable: absent, present but without the characters, characters mapped to glyph 0, mapped, mapped in part.
	kinds := 5
	total := 1
	for range pe {
		total *= kinds
	}
	c.Bound("subtable_configurations", total)
	c.Bound("rune_sequences", "all up to length 3 over 8 runes")
	for cfg := 0; cfg < total; cfg++ {
		for order := 0; order < 2; order++ {
			cfg, order := cfg, order
			c.Emit(fmt.Sprintf("config/%d/%d", cfg, order), func(r *Rec) error {
				var subs []Sub
				v := cfg
				for i, x := range pe {
					k := v % kinds
					v /= kinds
					if k == 0 {
						continue
					}
					ga, gb := 1+2*i, 2+2*i
					switch k {
					case 1:
						ga, gb = -1, -1
					case 2:
						ga, gb = 0, 0
					case 4:
						ga = -1
					}
					var pairs [][2]int
					if ga >= 0 {
						pairs = append(pairs, [2]int{'A', ga})
					}
					if gb >= 0 {
						pairs = append(pairs, [2]int{'B', gb})
					}
					switch {
					case x[0] == 1:
						m := map[int]int{}
						for _, p := range pairs {
							m[p[0]] = p[1]
						}
						subs = append(subs, mkFmt0(1, 0, 0, m))
					case x[1] == 10:
						var gr []Group
						for _, p := range pairs {
							gr = append(gr, Group{uint32(p[0]), uint32(p[0]), uint32(p[1])})
						}
						gr = append(gr, Group{0x1F600, 0x1F600, 9})
						subs = append(subs, mkFmt12(3, 10, 0, gr))
					default:
						arr := []int{0, 0, 0}
						for _, p := range pairs {
							arr[p[0]-'A'] = p[1]
						}
						if k == 1 {
							arr = nil
							subs = append(subs, mkFmt4(x[0], x[1], 0, nil, nil))
						} else {
							subs = append(subs, mkFmt4(x[0], x[1], 0, []Seg{{'A', 'C', 0, 0}}, arr))
						}
					}
				}
				// decoys that must not be consulted
				subs = append(subs, mkFmt6(0, 4, 0, 'A', []int{20, 20, 20}), mkFmt6(3, 0, 0, 'A', []int{21, 21, 21}))
				if order == 1 {
					for i, j := 0, len(subs)-1; i < j; i, j = i+1, j-1 {
						subs[i], subs[j] = subs[j], subs[i]
					}
				}
				s := plainSpec(22, subs...)
				for i := range s.Glyphs {
					s.Glyphs[i] = simpleGlyph(12, i)
				}
				data, _ := s.Encode()
				m := modelOf(s)
				maps := m.lookupMaps()
				f, err := parse(data)
				if err != nil {
					return err
				}
				r.Input(data)
				r.State(m.hash())
				sequences(len(runes), 3, func(seq []int) {
					if err != nil {
						return
					}
					in := make([]rune, len(seq))
					for i, k := range seq {
						in[i] = runes[k]
					}
					keep := append([]rune{}, in...)
					got := f.LookupRunes(in)
					r.Trans(1)
					r.Trace(1)
					if len(got) != len(in) {
						err = fmt.Errorf("LookupRunes(%U): %d results", in, len(got))
						return
					}
					for i := range in {
						if in[i] != keep[i] {
							err = fmt.Errorf("LookupRunes changed its argument")
						}
						if w := lookupIn(maps, in[i]); int(got[i]) != w {
							err = fmt.Errorf("LookupRunes(%U)[%d] = %d, want %d", in, i, got[i], w)
						}
					}
					if err != nil || len(seq) > 2 {
						return
					}
					if err = sameSubset(data, in); err != nil {
						err = fmt.Errorf("SubsetKeepRunes(%U): %v", in, err)
						return
					}
					if order == 0 {
						err = runPath(r, data, m, pFile, opRunes2(in))
					}
				})
				return err
			})
		}
	}
	// Every rune on fonts that have one block of characters: no other character is taken for one of them.
	blocks := [][]uint32{{'A', 'Z'}, {'a', 'z'}, {' ', '@'}, {0x20, 0x7E}, {0, 0x1F, 0x7F, 0x7F}, {0x80, 0xFF}, {0x100, 0x17F}, {0xF000, 0xF0FF}, {0x2000, 0x206F}, {0x20A0, 0x20BF, 0x2100, 0x214F},
		{0x370, 0x4FF}, {0x300, 0x36F}, {0x3000, 0x30FF}, {0x4E00, 0x4EFF}, {0xAC00, 0xACFF}, {0xF900, 0xF9FF}, {0xFB00, 0xFB4F}, {0xFE00, 0xFEFF}, {0xFF00, 0xFFFE}, {0x1D400, 0x1D4FF}, {0x1F600, 0x1F64F}, {0x10FF00, 0x10FFFF}}
	for bi := range blocks {
		b := blocks[bi]
		for where := 0; where < 5; where++ {
			where := where
			c.Emit(fmt.Sprintf("block/%x/%d", b, where), func(r *Rec) error {
				var pairs [][2]int
				mac := map[int]int{}
				var gr []Group
				g := 1
				for i := 0; i < len(b); i += 2 {
					gr = append(gr, Group{b[i], b[i+1], uint32(g)})
					for x := b[i]; x <= b[i+1]; x++ {
						if x < 256 {
							mac[int(x)] = g
						}
						if x < 0xFFFF {
							pairs = append(pairs, [2]int{int(x), g})
						}
						g++
					}
				}
				var subs []Sub
				if b[0] < 0xFFFF && (where == 2 || where == 4) {
					subs = append(subs, fmt4Of(0, 3, 0, pairs))
				}
				if b[0] < 0xFFFF && (where == 0 || where == 4) {
					subs = append(subs, fmt4Of(3, 1, 0, pairs))
				}
				if len(mac) > 0 && (where == 1 || where == 4) {
					subs = append(subs, mkFmt0(1, 0, 0, mac))
				}
				if where >= 3 {
					subs = append(subs, mkFmt12(3, 10, 0, gr))
				}
				if len(subs) == 0 {
					return nil
				}
				s := plainSpec(min(g, 300), subs...)
				if g > 256 { // format 0 has bytes for glyphs
					s = plainSpec(g, subs...)
				}
				data, _ := s.Encode()
				f, err := parse(data)
				if err != nil {
					return err
				}
				maps := modelOf(s).lookupMaps()
				in := make([]rune, 0, 0x110010)
				for x := rune(0); x < 0x110008; x++ {
					in = append(in, x)
				}
				for _, x := range []uint32{b[0], b[1], 'A', ' ', 0xF041} {
					in = append(in, rune(x|1<<31), rune(x|0x200000), rune(x|1<<24), rune(x|1<<30), -rune(x))
				}
				got := f.LookupRunes(in)
				if len(got) != len(in) {
					return fmt.Errorf("%d results for %d runes", len(got), len(in))
				}
				for i := range got {
					if w := lookupIn(maps, in[i]); int(got[i]) != w {
						return fmt.Errorf("LookupRunes: %U = %d, want %d", in[i], got[i], w)
					}
				}
				r.Trans(len(in))
				r.Trace(1)
				r.State(uint64(b[0])<<8 | uint64(where))
				return nil
			})
		}
	}
	c.Emit("long", func(r *Rec) error {
		s := countSpec(40000, 1, 1)
		data, _ := s.Encode()
		f, err := parse(data)
		if err != nil {
			return err
		}
		m := modelOf(s)
		maps := m.lookupMaps()
		var in []rune
		for i := 0; i < 0x20000; i += 3 {
			in = append(in, rune(i), rune(i%200), rune(0x1FFFF-i))
		}
		for _, n := range []int{0, 1, 255, 256, 257, 65535, 65536, 65537, len(in)} {
			got := f.LookupRunes(in[:n])
			if len(got) != n {
				return fmt.Errorf("%d results for %d runes", len(got), n)
			}
			for i := range got {
				if w := lookupIn(maps, in[i]); int(got[i]) != w {
					return fmt.Errorf("LookupRunes[%d] (%U) = %d, want %d", i, in[i], got[i], w)
				}
			}
			r.Trans(n)
			r.Trace(1)
		}
		if len(f.LookupRunes(nil)) != 0 {
			return fmt.Errorf("LookupRunes(nil) is not empty")
		}
		return nil
	})
	twinPaths(c, pLookup, nil)
	eachFont(c.Pick(2, 3), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			if err := runPath(r, data, modelOf(s), pLookup); err != nil {
				return err
			}
			return sameSubset(data, []rune{'B', 'A', 0x1F600})
		})
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil {
				return nil
			}
			f, err := parse(rd[n])
			if err != nil {
				return err
			}
			maps := m.lookupMaps()
			for _, g := range []*Font{f} {
				var in []rune
				for x := rune(0); x < 0x30000; x++ {
					in = append(in, x)
				}
				got := g.LookupRunes(in)
				if len(got) != len(in) {
					return fmt.Errorf("%d results", len(got))
				}
				for i := range in {
					if in[i] != 0xFFFD && int(got[i]) != lookupIn(maps, in[i]) {
						return fmt.Errorf("LookupRunes(%U) = %d, want %d", in[i], got[i], lookupIn(maps, in[i]))
					}
				}
				r.Trans(len(in))
				r.Trace(1)
			}
			return sameSubset(rd[n], []rune("Hello, Wörld"))
		})
	}
}

func opRunes2(in []rune) Op {
	in = append([]rune{}, in...)
	return Op{fmt.Sprintf("SubsetKeepRunes(%U)", in), false,
		func(f *Font) (*Font, error) { return f.SubsetKeepRunes(in) },
		func(m *Model) (*Model, error) { return m.keepRunes(in) }}
}

// sameSubset: SubsetKeepRunes and SubsetKeepIndices of the looked up glyphs write the same file.
func sameSubset(data []byte, in []rune) error {
	f, err := parse(data)
	if err != nil {
		return err
	}
	g, err := parse(data)
	if err != nil {
		return err
	}
	a, err1 := f.SubsetKeepRunes(in)
	b, err2 := g.SubsetKeepIndices(g.LookupRunes(in))
	if (err1 != nil) != (err2 != nil) {
		return fmt.Errorf("errors %v and %v", err1, err2)
	}
	if err1 != nil {
		return nil
	}
	x, err1 := write(a)
	y, err2 := write(b)
	if err1 != nil || err2 != nil {
		return fmt.Errorf("write errors %v and %v", err1, err2)
	}
	if !bytes.Equal(x, y) {
		return diffBytes("file against SubsetKeepIndices of the same glyphs", x, y)
	}
	return nil
}

func genC15(c *Ctx) {
	emitKinds(c, pNames|pFile, noOps, "name", "nametag", "names", "tags")
	type plat struct{ p, e uint16 }
	plats := []plat{{1, 0}, {3, 1}, {0, 3}}
	langs := []uint16{0, 0x409}
	ids := []uint16{1, 2}
	type kind struct {
		plat
		l, id uint16
	}
	var kinds []kind
	for _, p := range plats {
		for _, l := range langs {
			for _, id := range ids {
				kinds = append(kinds, kind{p, l, id})
			}
		}
	}
	texts := []string{"abc", "bc", "c", "abc"}
	rec := func(k kind, text string) NameRec {
		if k.p == 1 {
			return NameRec{k.p, k.e, k.l, k.id, []byte(text)}
		}
		return NameRec{k.p, k.e, k.l, k.id, utf16be(text)}
	}
	parts := pNames
	try := func(r *Rec, t *NameTab, reread bool) error {
		s := plainSpec(1)
		s.Names = t
		data, _ := s.Encode()
		m := modelOf(s)
		f, err := parse(data)
		if err != nil {
			return fmt.Errorf("Parse: %v", err)
		}
		r.Input(data)
		r.Trans(1)
		r.Trace(1)
		r.State(m.hash())
		if err := agree(f, m, parts); err != nil {
			return err
		}
		if !reread {
			return nil
		}
		b, err := write(f)
		if err != nil {
			return err
		}
		g, err := parse(b)
		if err != nil {
			return fmt.Errorf("Parse of the written file: %v", err)
		}
		if err := agree(g, m, parts|pFile); err != nil {
			return fmt.Errorf("after write and read back: %v", err)
		}
		return agree(f, m, parts)
	}
	c.Emit("long", func(r *Rec) error {
		units := []int{0xD83D, 0xDE00, 0x41, 0xE9, 0xFFFD}
		for _, n := range []int{15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193} {
			for period := 2; period <= len(units); period++ { // pairs come to lie across every position
				for shift := 0; shift < period; shift++ {
					var win, mac []byte
					for i := 0; i < n; i++ {
						win = app16(win, units[(i+shift)%period])
						mac = append(mac, "A\x8a\xdb ~"[(i+shift)%period])
					}
					t := &NameTab{Recs: []NameRec{{3, 1, 0x409, 1, win}, {1, 0, 0, 2, mac}, {0, 3, 0, 3, win[:len(win)/4*2]}, {3, 10, 0x407, 4, win[2:6]}}}
					if err := try(r, t, period == 3 && shift == 1); err != nil {
						return fmt.Errorf("%d units, period %d, shift %d: %.300v", n, period, shift, err)
					}
				}
			}
		}
		return nil
	})
	depth := c.Pick(4, 5)
	c.Bound("records", fmt.Sprintf("all sequences up to length %d over %d record kinds x 5 storage layouts x formats 0 and 1", depth, len(kinds)))
	for k0 := -1; k0 < len(kinds); k0++ {
		for k1 := -1; k1 < len(kinds); k1++ {
			k0, k1 := k0, k1
			if k0 < 0 && k1 >= 0 {
				continue
			}
			c.Emit(fmt.Sprintf("records/%d/%d", k0, k1), func(r *Rec) error {
				var err error
				do := func(seq []int) {
					if err != nil {
						return
					}
					for st := 0; st < 5; st++ {
						for format := 0; format < 2; format++ {
							if len(seq) >= 4 && (format == 1 && st != 1 || len(seq) > 4 && st > 1) {
								continue
							}
							t := &NameTab{Storage: st, Format: uint16(format)}
							for i, k := range seq {
								t.Recs = append(t.Recs, rec(kinds[k], texts[i%len(texts)]))
							}
							if format == 1 {
								t.Tags = [][]byte{utf16be("en"), utf16be("abc")}
								if len(seq) > 1 {
									t.Recs[1].L = 0x8001
								}
							}
							if err = try(r, t, len(seq) < 3 || st == format+1); err != nil {
								err = fmt.Errorf("kinds %v storage %d format %d: %v", seq, st, format, err)
								return
							}
						}
					}
				}
				if k0 < 0 {
					do(nil)
					return err
				}
				if k1 < 0 {
					do([]int{k0})
					return err
				}
				do([]int{k0, k1})
				sequences(len(kinds), depth-2, func(seq []int) {
					if len(seq) > 0 {
						do(append([]int{k0, k1}, seq...))
					}
				})
				return err
			})
		}
	}
	// Decoding: every Mac byte, every UTF-16 unit, unit sequences around the surrogates, for every platform.
	uplats := []plat{{0, 0}, {0, 1}, {0, 3}, {0, 4}, {0, 6}, {3, 0}, {3, 1}, {3, 10}}
	c.Emit("mac bytes", func(r *Rec) error {
		for a := 0; a < 256; a++ {
			t := &NameTab{}
			for b := 0; b < 256; b++ {
				t.Recs = append(t.Recs, NameRec{1, 0, uint16(b), 1, []byte{byte(a), byte(b)}})
			}
			t.Recs = append(t.Recs, NameRec{1, 0, 0, 2, []byte{byte(a)}})
			if err := try(r, t, a%16 == 0); err != nil {
				return fmt.Errorf("first byte %#x: %v", a, err)
			}
		}
		return nil
	})
	for _, p := range uplats {
		p := p
		c.Emit(fmt.Sprintf("units/%d,%d", p.p, p.e), func(r *Rec) error {
			for hi := 0; hi < 256; hi++ {
				t := &NameTab{}
				for lo := 0; lo < 256; lo++ {
					t.Recs = append(t.Recs, NameRec{p.p, p.e, uint16(lo), 1, []byte{byte(hi), byte(lo)}})
				}
				if err := try(r, t, hi%64 == 0); err != nil {
					return fmt.Errorf("units %#x00..: %v", hi, err)
				}
			}
			units := []int{0x41, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFF, 0xFEFF, 0}
			t := &NameTab{}
			sequences(len(units), 3, func(seq []int) {
				var d []byte
				for _, u := range seq {
					d = app16(d, units[u])
				}
				t.Recs = append(t.Recs, NameRec{p.p, p.e, uint16(len(t.Recs)), 1, d})
			})
			return try(r, t, true)
		})
		c.Emit(fmt.Sprintf("pairs/%d,%d", p.p, p.e), func(r *Rec) error { // every surrogate pair
			step := c.Pick(4, 1)
			for hi := 0xD800; hi < 0xDC00; hi += step {
				var d []byte
				for lo := 0xDC00; lo < 0xE000; lo++ {
					d = app16(d, hi, lo)
				}
				t := &NameTab{Recs: []NameRec{{p.p, p.e, 0, 1, d}}}
				if err := try(r, t, false); err != nil {
					return fmt.Errorf("high surrogate %#x: %v", hi, err)
				}
			}
			return nil
		})
	}
	c.Emit("ids", func(r *Rec) error { // every 16 bit name and language id
		for base := 0; base < 65536; base += 2048 {
			t := &NameTab{Storage: 1}
			for i := 0; i < 2048; i++ {
				t.Recs = append(t.Recs, NameRec{1, 0, uint16(65535 - base - i), uint16(base + i), []byte{byte('a' + i%26)}})
			}
			if err := try(r, t, base%16384 == 0); err != nil {
				return err
			}
		}
		return nil
	})
	for _, a := range nameTabs() {
		a := a
		c.Emit("table/"+a.Name, func(r *Rec) error {
			s := baseSpec()
			a.Do(s)
			data, _ := s.Encode()
			for _, p := range [][]Op{nil, {opFirst(2)}, {opKeep(3)}, {opPrune("cmap"), opOptimize()}, {opWrite(), opWrite()}} {
				if err := runPath(r, data, modelOf(s), pNames|pFile|pReparse, p...); err != nil {
					return err
				}
			}
			return nil
		})
	}
	twinPaths(c, pNames, nil)
	eachFont(c.Pick(2, 3), func(name string, mk func() *Spec) {
		c.Emit("shape/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			return runPath(r, data, modelOf(s), pNames)
		})
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error { return runReal(r, rd[n], pNames|pFile) })
	}
}

var postLine = regexp.MustCompile(`(?m)^- post: (\d+): (.*)$`)
var postCount = regexp.MustCompile(`(?m)^- post glyphNames: (\d+)$`)
var goString = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)

// agreePostNames compares the glyph names TableInfo reports: the listed ones (the first eleven), the count, and all
// of them where the table dump shows exactly one quoted string per glyph.
func agreePostNames(f *Font, names []string, dontCare map[int]bool) error {
	info := f.TableInfo("post")
	if m := postCount.FindStringSubmatch(info); m != nil {
		if n, _ := strconv.Atoi(m[1]); n != len(names) {
			return fmt.Errorf("%d glyph names, want %d", n, len(names))
		}
	}
	seen := 0
	for _, m := range postLine.FindAllStringSubmatch(info, -1) {
		i, _ := strconv.Atoi(m[1])
		if i-1 >= len(names) || i < 1 {
			return fmt.Errorf("glyph name number %d of %d", i, len(names))
		}
		seen++
		if !dontCare[i-1] && m[2] != names[i-1] {
			return fmt.Errorf("name of glyph %d is %.40q, want %.40q", i-1, m[2], names[i-1])
		}
	}
	if seen != min(11, len(names)) {
		return fmt.Errorf("%d glyph names listed, want %d", seen, min(11, len(names)))
	}
	if i := strings.LastIndex(info, "\n&"); i >= 0 {
		all := goString.FindAllString(info[i:], -1)
		if len(all) == len(names) {
			for k, q := range all {
				s, err := strconv.Unquote(q)
				if err == nil && !dontCare[k] && s != names[k] {
					return fmt.Errorf("name of glyph %d is %.40q, want %.40q", k, s, names[k])
				}
			}
		}
	}
	return nil
}

func postSpec(n int, version uint32, rest []byte) *Spec {
	s := plainSpec(n)
	s.Post = &PostTab{Header: mkPostHeader(version), Rest: rest}
	return s
}

func genC16(c *Ctx) {
	accept := func(r *Rec, s *Spec, names []string, dontCare map[int]bool) error {
		data, _ := s.Encode()
		r.Input(data)
		f, err := parse(data)
		if err != nil {
			return fmt.Errorf("Parse: %v", err)
		}
		m := modelOf(s)
		r.State(m.hash())
		r.Trans(1)
		r.Trace(1)
		if names != nil {
			if err := agreePostNames(f, names, dontCare); err != nil {
				return err
			}
		}
		return agree(f, m, pFile)
	}
	reject := func(r *Rec, s *Spec) error {
		data, _ := s.Encode()
		r.Input(data)
		r.State(hashBytes(data))
		r.Trans(1)
		r.Trace(1)
		if _, err := parse(data); err == nil {
			return fmt.Errorf("accepted")
		}
		return nil
	}
	std := macNames[:258]
	c.Emit("v1", func(r *Rec) error {
		if err := accept(r, postSpec(258, 0x00010000, nil), std, nil); err != nil {
			return err
		}
		for _, n := range []int{1, 2, 257, 259, 1000, 65535} {
			if err := reject(r, postSpec(n, 0x00010000, nil)); err != nil {
				return fmt.Errorf("version 1.0 with %d glyphs: %v", n, err)
			}
		}
		return nil
	})
	c.Emit("v1 derived", func(r *Rec) error {
		data, _ := postSpec(258, 0x00010000, nil).Encode()
		m := modelOf(postSpec(258, 0x00010000, nil))
		for _, p := range [][]Op{{opFirst(257)}, {opFirst(258)}, {opFirst(1)}, {opKeep(257)}, {opKeep(256)}, {opKeep(0)}, {opOptimize()}, {opPrune("post")}, {opFirst(300)}, {opKeep(257), opFirst(257)}} {
			if err := runPath(r, data, m, pFile|pReparse|pValidate, p...); err != nil {
				return err
			}
		}
		return nil
	})
	for _, v := range []uint32{0x00030000, 0x00040000} {
		v := v
		c.Emit(fmt.Sprintf("nameless/%x", v), func(r *Rec) error {
			for _, n := range []int{1, 2, 257, 258, 259, 65535} {
				for _, rest := range [][]byte{nil, pattern(1, 1), pattern(2*n, 1)} {
					if err := accept(r, postSpec(n, v, rest), nil, nil); err != nil {
						return fmt.Errorf("%d glyphs: %v", n, err)
					}
				}
			}
			return nil
		})
	}
	// Version 2.0: every standard index; all index vectors over a small alphabet x stored names.
	c.Emit("v2 standard", func(r *Rec) error {
		for i := 0; i < 258; i++ {
			idx := []int{i, (i + 1) % 258, 257 - i}
			if err := accept(r, postSpec(3, 0x00020000, encodePost2(idx, nil)), []string{std[idx[0]], std[idx[1]], std[idx[2]]}, nil); err != nil {
				return fmt.Errorf("index %d: %v", i, err)
			}
		}
		idx := make([]int, 258)
		names := make([]string, 258)
		for i := range idx {
			idx[i] = 257 - i
			names[i] = std[257-i]
		}
		if err := accept(r, postSpec(258, 0x00020000, encodePost2(idx, nil)), names, nil); err != nil {
			return err
		}
		for i := range idx {
			idx[i] = i
			names[i] = std[i]
		}
		s := postSpec(258, 0x00020000, encodePost2(idx, nil))
		return accept(r, s, names, nil)
	})
	alpha := []int{0, 1, 257, 258, 259, 260, 261, 300}
	depth := c.Pick(5, 6)
	c.Bound("v2_vectors", fmt.Sprintf("all index vectors up to length %d over %v x 0..4 stored names", depth, alpha))
	for first := range alpha {
		first := first
		c.Emit(fmt.Sprintf("v2 vectors/%d", first), func(r *Rec) error {
			var err error
			sequences(len(alpha), depth, func(seq []int) {
				if err != nil || len(seq) == 0 || seq[0] != first {
					return
				}
				for stored := 0; stored <= 4; stored++ {
					var custom [][]byte
					for i := 0; i < stored; i++ {
						custom = append(custom, []byte("n"+strings.Repeat("x", i*3)))
					}
					var idx []int
					var names []string
					ok := true
					for _, k := range seq {
						x := alpha[k]
						idx = append(idx, x)
						switch {
						case x < 258:
							names = append(names, std[x])
						case x-258 < stored:
							names = append(names, string(custom[x-258]))
						default:
							ok = false
						}
					}
					s := postSpec(len(seq), 0x00020000, encodePost2(idx, custom))
					if ok {
						err = accept(r, s, names, nil)
					} else {
						err = reject(r, s)
					}
					if err != nil {
						err = fmt.Errorf("indices %v with %d stored names: %v", idx, stored, err)
						return
					}
				}
			})
			return err
		})
	}
	c.Emit("v2 lengths", func(r *Rec) error { // every name length, first and second of two names
		for n := 1; n <= 255; n++ {
			long := strings.Repeat("abcdefghij", 26)[:n]
			for k := 0; k < 2; k++ {
				custom := [][]byte{[]byte(long), []byte("short")}
				if k == 1 {
					custom[0], custom[1] = custom[1], custom[0]
				}
				names := []string{string(custom[1]), std[5], string(custom[0]), string(custom[1])}
				s := postSpec(4, 0x00020000, encodePost2([]int{259, 5, 258, 259}, custom))
				if err := accept(r, s, names, nil); err != nil {
					return fmt.Errorf("name of %d bytes: %v", n, err)
				}
				// cut short: the last name's bytes are missing
				for cut := 1; cut < min(len(custom[1])+1, 4); cut++ {
					s := postSpec(4, 0x00020000, encodePost2([]int{259, 5, 258, 259}, custom))
					s.Post.Rest = s.Post.Rest[:len(s.Post.Rest)-cut]
					if err := reject(r, s); err != nil {
						return fmt.Errorf("second name cut by %d: %v", cut, err)
					}
				}
			}
		}
		return nil
	})
	// What is in a name: every byte alone, first, in between and last; empty, equal to standard names, and repeated ones.
	var odd []string
	for v := 0; v < 256; v++ {
		if v != 10 && v != 13 {
			b := string([]byte{byte(v)})
			odd = append(odd, b, b+"a", "a"+b, "a"+b+"b", b+b)
		}
	}
	odd = append(odd, "", "A", ".notdef", "space", "dcroat", ".null", "nonmarkingreturn", "uni0041", "u1F600", "a.alt", "a_b", "\u00e9", "NULL", "n", std[100])
	for part := 0; part < 16; part++ {
		part := part
		c.Emit(fmt.Sprintf("v2 contents/%d", part), func(r *Rec) error {
			for i := part; i < len(odd); i += 16 {
				for _, custom := range [][]string{{odd[i]}, {odd[i], "last"}, {"first", odd[i]}, {odd[i], odd[i]}, {"first", odd[i], "last"}, {odd[i], odd[(i+1)%len(odd)]}} {
					idx, names := []int{5}, []string{std[5]}
					var bs [][]byte
					for k, n := range custom {
						idx = append(idx, 258+k)
						names = append(names, n)
						bs = append(bs, []byte(n))
					}
					idx, names = append(idx, 257), append(names, std[257])
					empty := false
					for _, n := range custom {
						empty = empty || n == ""
					}
					if empty { // no glyph has the empty name: refusing is as good
						data, _ := postSpec(len(idx), 0x00020000, encodePost2(idx, bs)).Encode()
						if _, err := parse(data); err != nil {
							continue
						}
					}
					if err := accept(r, postSpec(len(idx), 0x00020000, encodePost2(idx, bs)), names, nil); err != nil {
						return fmt.Errorf("stored names %q: %v", custom, err)
					}
				}
			}
			return nil
		})
	}
	c.Emit("v2 many", func(r *Rec) error {
		for _, n := range []int{20, 256, 1000, 32510} {
			var custom [][]byte
			idx := make([]int, n)
			names := make([]string, n)
			for i := 0; i < n; i++ {
				custom = append(custom, []byte(fmt.Sprintf("g%d", i)))
			}
			for i := 0; i < n; i++ {
				idx[i] = 258 + (i*7+n-1)%n
				names[i] = string(custom[idx[i]-258])
			}
			if err := accept(r, postSpec(n, 0x00020000, encodePost2(idx, custom)), names, nil); err != nil {
				return fmt.Errorf("%d names: %v", n, err)
			}
		}
		return nil
	})
	c.Emit("counts", func(r *Rec) error { // glyph counts disagreeing with maxp
		for n := 1; n <= 6; n++ {
			for k := 0; k <= 8; k++ {
				if k == n {
					continue
				}
				idx := make([]int, k)
				if err := reject(r, postSpec(n, 0x00020000, append(encodePost2(idx, nil), pattern(40, 1)...))); err != nil {
					return fmt.Errorf("version 2.0, %d glyphs, post count %d: %v", n, k, err)
				}
				if err := reject(r, postSpec(n, 0x00025000, append(app16(nil, k), pattern(40, 1)...))); err != nil {
					return fmt.Errorf("version 2.5, %d glyphs, post count %d: %v", n, k, err)
				}
			}
		}
		return nil
	})
	// Version 2.5: every offset at every one of the first glyphs.
	for _, n := range []int{1, 2, 11, 12, 130, 258, 300} {
		n := n
		c.Emit(fmt.Sprintf("v25/%d", n), func(r *Rec) error {
			for off := -128; off < 128; off++ {
				for variant := 0; variant < 2; variant++ {
					b := app16(nil, n)
					names := make([]string, n)
					dont := map[int]bool{}
					outside := false
					for i := 0; i < n; i++ {
						o := off
						if variant == 1 && i%2 == 1 {
							o = 0
						}
						b = append(b, byte(int8(o)))
						if x := i + o; x >= 0 && x < 258 {
							names[i] = std[x]
						} else {
							outside = true
							dont[i] = true
						}
					}
					s := postSpec(n, 0x00025000, b)
					if outside { // not well formed: refusing is as good as leaving the name empty
						data, _ := s.Encode()
						if _, err := parse(data); err != nil {
							continue
						}
					}
					if err := accept(r, s, names, dont); err != nil {
						return fmt.Errorf("offset %d variant %d: %v", off, variant, err)
					}
				}
			}
			return nil
		})
	}
	// Header fields for every version.
	for _, v := range []uint32{0x00010000, 0x00020000, 0x00025000, 0x00030000} {
		v := v
		c.Emit(fmt.Sprintf("header/%x", v), func(r *Rec) error {
			mk := func() *Spec {
				switch v {
				case 0x00010000:
					return postSpec(258, v, nil)
				case 0x00020000:
					return postSpec(3, v, encodePost2([]int{258, 3, 258}, [][]byte{[]byte("abc")}))
				case 0x00025000:
					return postSpec(3, v, []byte{0, 3, 1, 0, 0xFF})
				}
				return postSpec(3, v, nil)
			}
			for o := 4; o < 32; o++ {
				for _, x := range []byte{0, 1, 0x7F, 0x80, 0xFF} {
					s := mk()
					s.Post.Header[o] = x
					if err := accept(r, s, nil, nil); err != nil {
						return fmt.Errorf("byte %d = %#x: %v", o, x, err)
					}
				}
			}
			return nil
		})
	}
	// Layouts: post table last in the file, followed by others, unaligned.
	c.Emit("layout", func(r *Rec) error {
		for _, phys := range []int{0, 1, 2} {
			for _, al := range []int{1, 2, 4} {
				for _, tail := range []int{0, 1, 3} {
					s := postSpec(3, 0x00020000, encodePost2([]int{258, 3, 259}, [][]byte{[]byte("abc"), []byte("de")}))
					s.PhysOrder, s.Align, s.TailPad = phys, al, tail
					if err := accept(r, s, []string{"abc", std[3], "de"}, nil); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil || m.Post == nil || be32(m.Post.Header, 0) != 0x00020000 {
				return nil
			}
			f, err := parse(rd[n])
			if err != nil {
				return err
			}
			b := m.Post.Rest
			var idx []int
			k := int(be16(b, 0))
			for i := 0; i < k; i++ {
				idx = append(idx, int(be16(b, 2+2*i)))
			}
			var custom []string
			for o := 2 + 2*k; o < len(b); {
				l := int(b[o])
				custom = append(custom, string(b[o+1:o+1+l]))
				o += 1 + l
			}
			var want []string
			for _, x := range idx {
				if x < 258 {
					want = append(want, std[x])
				} else {
					want = append(want, custom[x-258])
				}
			}
			r.State(m.hash())
			r.Trans(1)
			r.Trace(1)
			return agreePostNames(f, want, nil)
		})
	}
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking",
		Rule:   "every code with a defined meaning in each platform/encoding through formats 0, 4, 6 and 12; every combination of two format 4 segments over ranges, deltas, range offsets and glyph arrays; group and range shapes of formats 12 and 6 at the edges of the planes; every order of supported and unsupported subtables up to the bound; GetCmap compared with the model's independent decoding",
		Assume: []string{"the code tables of golang.org/x/text (Mac Roman, Shift-JIS, GBK, Big5) are right", "U+FFFF cannot be mapped by format 4 (its terminator)"},
		Gen:    genC12})
	register(&Check{ID: "C13", Level: "model_checking",
		Rule: "every configuration of the four consulted subtables (absent, empty, mapping to glyph 0, mapping fully, mapping in part) in two file orders with decoys x every rune sequence up to length 3; long inputs; SubsetKeepRunes compared byte for byte with SubsetKeepIndices of the looked up glyphs and with the model",
		Gen:  genC13})
	register(&Check{ID: "C15", Level: "model_checking",
		Rule:   "every sequence of name records up to the bound over platforms, languages and ids x storage layouts x table formats, before and after a write and read back; every Mac byte pair, every UTF-16 unit, unit sequences around the surrogate range, surrogate pairs, for every Unicode platform/encoding; every name and language id",
		Assume: []string{"strings of other platform encodings and of odd UTF-16 length have no stated meaning and are not compared"},
		Gen:    genC15})
	register(&Check{ID: "C16", Level: "model_checking",
		Rule:   "version 1.0 at 258 and other glyph counts, every standard index and every index vector up to the bound with 0 to 4 stored names for 2.0, every name length, truncated names, wrong counts, every offset for 2.5, header byte sweeps for every version; names as reported by TableInfo, written post table decoded independently",
		Assume: []string{"names are 1 to 255 bytes of printable ASCII; indices above 32767 are reserved", "a 2.5 offset selecting no standard name may be refused or leave the name empty"},
		Gen:    genC16})
}
