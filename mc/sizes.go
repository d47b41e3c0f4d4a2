//go:build go1.22

// Fonts in which one thing has an unusual size: every table that can grow, every count, around the powers of two and
// the limits of the format.

package main

import (
	"fmt"
	"strings"
)

func sizeFonts(thorough bool) []Base {
	var out []Base
	add := func(name string, do func(s *Spec)) {
		out = append(out, Base{name, func() *Spec { s := baseSpec(); do(s); return s }})
	}
	around := func(max int, ks ...int) []int {
		var l []int
		for _, k := range ks {
			for d := -1; d <= 1; d++ {
				if n := k + d; n > 0 && n <= max && (len(l) == 0 || n > l[len(l)-1]) {
					l = append(l, n)
				}
			}
		}
		return l
	}
	bytesAround := around(1<<30, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144)
	if thorough {
		bytesAround = append(bytesAround, around(1<<30, 1<<19, 1<<20, 1<<22)...)
	}
	for _, n := range bytesAround {
		n := n
		if n%2 == 0 {
			add(fmt.Sprintf("cvt/%d", n), func(s *Spec) { s.Cvt = pattern(n, 1) })
		}
		add(fmt.Sprintf("fpgm/%d", n), func(s *Spec) { s.Fpgm = pattern(n, 2) })
		add(fmt.Sprintf("prep/%d", n), func(s *Spec) { s.Prep = pattern(n, 3) })
		add(fmt.Sprintf("glyph/%d", n), func(s *Spec) {
			if n < 12 {
				return
			}
			s.LocFmt = 1
			s.Glyphs[2] = simpleGlyph(n, 2)
		})
		add(fmt.Sprintf("lastglyph/%d", n), func(s *Spec) {
			if n < 12 {
				return
			}
			s.LocFmt = 1
			s.Glyphs = append(s.Glyphs, simpleGlyph(n, 2))
			s.Metrics = append(s.Metrics, HM{s.Metrics[s.NHM-1].Adv, 7})
		})
		add(fmt.Sprintf("unknown/%d", n), func(s *Spec) { s.Extra = []RawTable{{"aaaa", pattern(n, 5)}, {"zzzz", pattern(n, 6)}} })
	}
	if !thorough {
		for _, n := range around(1<<30, 1<<20, 1<<22) {
			n := n
			add(fmt.Sprintf("fpgm/%d", n), func(s *Spec) { s.Fpgm = pattern(n, 2) })
			add(fmt.Sprintf("unknown/%d", n), func(s *Spec) { s.Extra = []RawTable{{"zzzz", pattern(n, 6)}} })
		}
		add("glyph/1048577", func(s *Spec) {
			s.LocFmt = 1
			s.Glyphs[2] = simpleGlyph(1<<20+1, 2)
		})
	}
	// All glyph data together around the limit of short offsets.
	for n := 131072 - 16; n <= 131070; n += 2 {
		n := n
		add(fmt.Sprintf("shortloca/%d", n), func(s *Spec) {
			setGlyphs(s, [][]byte{simpleGlyph(12, 0), simpleGlyph(n-12-14, 1), simpleGlyph(14, 2)}, 2)
		})
	}
	for _, n := range around(65535, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65535) {
		n := n
		add(fmt.Sprintf("name/%d", n), func(s *Spec) {
			s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, pattern(n, 3)}, {3, 1, 9, 2, utf16be("after")}}}
			if n > 65535-10 {
				s.Names.Recs = s.Names.Recs[:1]
			}
		})
		if n <= 32768 {
			add(fmt.Sprintf("nametag/%d", n), func(s *Spec) {
				s.Names = &NameTab{Format: 1, Tags: [][]byte{pattern(2*(n/2), 3), utf16be("en")}, Recs: []NameRec{{3, 1, 0x8001, 2, utf16be("x")}}}
			})
		}
	}
	for _, n := range append(around(5461, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096), 5300, 5459, 5460, 5461, 5462, 5463, 6000, 8000, 10000) {
		n := n
		for f := uint16(0); f < 2; f++ {
			f := f
			add(fmt.Sprintf("names/%d/%d", f, n), func(s *Spec) {
				t := &NameTab{Format: f}
				if f == 1 {
					for i := 0; i < 3; i++ {
						t.Tags = append(t.Tags, utf16be(fmt.Sprint("t", i)))
					}
				}
				for i := 0; i < n; i++ {
					t.Recs = append(t.Recs, NameRec{3, 1, uint16(i % 7), uint16(i), utf16be(fmt.Sprint(i))})
					if n > 5460 && i < n-3 {
						t.Recs[i].Data = t.Recs[i].Data[:2] // what fits, stored once
						t.Storage = 1
					}
				}
				s.Names = t
			})
		}
	}
	for _, n := range append(around(16000, 8, 16, 32, 64, 128, 256, 512, 1024, 4096), 16375, 16376, 16377, 16378, 20000) {
		n := n
		add(fmt.Sprintf("tags/%d", n), func(s *Spec) {
			t := &NameTab{Format: 1, Recs: []NameRec{{3, 1, 0x8000 + uint16(n-1), 2, utf16be("x")}, {3, 1, 0x8000, 2, utf16be("y")}}}
			for i := 0; i < n; i++ {
				t.Tags = append(t.Tags, utf16be(fmt.Sprint(i%10)))
			}
			if n > 16000 {
				t.Storage = 1
			}
			s.Names = t
		})
	}
	for _, n := range around(5000, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024) {
		n := n
		add(fmt.Sprintf("subtables/%d", n), func(s *Spec) {
			s.Cmap = &CmapTab{}
			for i := 0; i < n; i++ {
				s.Cmap.Subs = append(s.Cmap.Subs, mkFmt6(i/50, i%50, 0, 0x41+i%9, []int{1 + i%5, 2, 3}))
			}
		})
		add(fmt.Sprintf("languages/%d", n), func(s *Spec) {
			s.Cmap = &CmapTab{}
			for i := 0; i < n; i++ {
				s.Cmap.Subs = append(s.Cmap.Subs, mkFmt6(1, 0, i, 0x41+i%9, []int{1 + i%5, 2, 3}))
			}
		})
	}
	for _, n := range around(32762, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32762) {
		n := n
		add(fmt.Sprintf("fmt6/%d", n), func(s *Spec) {
			arr := make([]int, n)
			for i := range arr {
				arr[i] = i % 6
			}
			s.Cmap = &CmapTab{Subs: []Sub{mkFmt6(3, 1, 0, 0x41, arr), mkFmt6(1, 0, 0, 0x41, []int{1, 2})}}
		})
		add(fmt.Sprintf("fmt12/%d", n), func(s *Spec) {
			var gr []Group
			for i := 0; i < n; i++ {
				gr = append(gr, Group{uint32(0x41 + 2*i), uint32(0x41 + 2*i), uint32(1 + i%5)})
			}
			s.Cmap = &CmapTab{Subs: []Sub{mkFmt12(3, 10, 0, gr), mkFmt6(1, 0, 0, 0x41, []int{1, 2}), mkFmt12(0, 4, 0, gr[:1])}}
		})
		if n <= 8189 {
			add(fmt.Sprintf("fmt4/%d", n), func(s *Spec) {
				var pairs [][2]int
				for i := 0; i < n && 16+8*(i+2)+2*((i+2)/2) <= 65535; i++ {
					pairs = append(pairs, [2]int{0x41 + 2*i, 1 + i%5})
				}
				s.Cmap = &CmapTab{Subs: []Sub{fmt4Of(3, 1, 0, pairs), fmt4Of(0, 3, 0, pairs[:1])}}
			})
		}
	}
	for _, n := range around(4095, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048) {
		n := n
		add(fmt.Sprintf("tables/%d", n), func(s *Spec) {
			for i := 0; i < n; i++ {
				s.Extra = append(s.Extra, RawTable{fmt.Sprintf("%04x", i), pattern(i%5, i)})
			}
		})
	}
	for _, n := range []int{32768, 40000, 65535, 65536, 65537, 70000} {
		n := n
		add(fmt.Sprintf("groups/%d", n), func(s *Spec) {
			var gr []Group
			for i := 0; i < n; i++ {
				gr = append(gr, Group{uint32(0x10000 + 2*i), uint32(0x10000 + 2*i), uint32(1 + i%5)})
			}
			s.Cmap = &CmapTab{Subs: []Sub{mkFmt6(1, 0, 0, 0x41, []int{1, 2}), mkFmt12(3, 10, 0, gr)}}
		})
	}
	for _, n := range around(65535, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768) {
		n := n
		add(fmt.Sprintf("glyphs/%d", n), func(s *Spec) {
			*s = *countSpec(n, (n+1)/2, n%2)
		})
		if n <= 33000 {
			add(fmt.Sprintf("post2/%d", n), func(s *Spec) {
				*s = *countSpec(n, 1, 1)
				s.Post = post2(n)
			})
		}
	}
	return out
}

// huge tells that a font is too large for fault injection at many places.
func huge(b Base) bool {
	var n int
	fmt.Sscanf(b.Name[strings.LastIndex(b.Name, "/")+1:], "%d", &n)
	return n > 1<<19
}

// emitSizes runs do on every such font, several to a case.
func emitSizes(c *Ctx, prefix string, do func(r *Rec, b Base) error) {
	list := sizeFonts(c.Thorough())
	c.Bound("unusual sizes", fmt.Sprintf("%d fonts with one table, string, count or array around a power of two or a limit of the format", len(list)))
	for _, b := range list {
		b := b
		c.Emit(prefix+"size/"+b.Name, func(r *Rec) error { return do(r, b) })
	}
}

// emitKinds runs ops on the fonts of the given kinds.
func emitKinds(c *Ctx, parts Parts, ops func(m *Model) [][]Op, kinds ...string) {
	for _, b := range sizeFonts(c.Thorough()) {
		kind, _, _ := strings.Cut(b.Name, "/")
		ok := false
		for _, k := range kinds {
			ok = ok || k == kind
		}
		if !ok {
			continue
		}
		b := b
		c.Emit("size/"+b.Name, func(r *Rec) error {
			s := b.Mk()
			data, _ := s.Encode()
			m := modelOf(s)
			for _, o := range ops(m) {
				if err := runPath(r, data, m, parts, o...); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func noOps(*Model) [][]Op { return [][]Op{{}} }

func prefixes(m *Model) [][]Op {
	var out [][]Op
	last := -1
	for _, k := range []int{1, 2, 3, 4, 5, m.N / 2, m.N - 1, m.N} {
		if k > last {
			out = append(out, []Op{opFirst(k)})
			last = k
		}
	}
	return out
}
