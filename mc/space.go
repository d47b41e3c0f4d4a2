//go:build go1.22

// The bounded space of fonts: deviations from a base font along independent dimensions.

package main

import "fmt"

// Alt is one deviation.
type Alt struct {
	Name string
	Do   func(s *Spec)
}

// Dim is a dimension with mutually exclusive deviations.
type Dim struct {
	Name string
	Alts []Alt
}

func setGlyphs(s *Spec, g [][]byte, nhm int) {
	s.Glyphs = g
	s.NHM = nhm
	s.Metrics = mkMetrics(len(g), nhm)
	n := len(g)
	s.Cmap = &CmapTab{Subs: []Sub{
		fmt4Of(0, 3, 0, [][2]int{{0x41, 1 % n}, {0x43, n - 1}}),
		mkFmt6(1, 0, 0, 0x40, []int{0, 1 % n, n - 1}),
		fmt4Of(3, 1, 0, [][2]int{{0x41, n - 1}, {0x42, 1 % n}}),
		mkFmt12(3, 10, 0, []Group{{0x41, 0x41, uint32(n - 1)}, {0x1F600, 0x1F600, uint32(1 % n)}}),
	}}
}

// fmt4Of makes a format 4 subtable with one segment per code, alternating between deltas and the glyph array.
func fmt4Of(p, e, lang int, pairs [][2]int) Sub {
	var segs []Seg
	var arr []int
	for i, cg := range pairs {
		if i%2 == 0 {
			segs = append(segs, Seg{cg[0], cg[0], (cg[1] - cg[0]) & 0xFFFF, -1})
		} else {
			segs = append(segs, Seg{cg[0], cg[0], 0, len(arr)})
			arr = append(arr, cg[1])
		}
	}
	return mkFmt4(p, e, lang, segs, arr)
}

func nameTabs() []Alt {
	std := func() *NameTab {
		return &NameTab{Recs: []NameRec{
			{1, 0, 0, 1, []byte("Family")},
			{1, 0, 0, 2, []byte("Family")},
			{3, 1, 0x409, 1, utf16be("Family")},
			{3, 1, 0x409, 4, utf16be("Family X\U0001F600")},
			{3, 1, 0x411, 4, utf16be("\u5b8b\u4f53 X\U0001F600")},
			{0, 3, 0, 6, utf16be("X\U0001F600")},
		}}
	}
	tagged := func(st int) *NameTab {
		t := std()
		t.Format = 1
		t.Storage = st
		t.Tags = [][]byte{utf16be("en"), utf16be("de-AT"), utf16be("en"), {}}
		return t
	}
	var out []Alt
	for st := 1; st <= 4; st++ {
		st := st
		out = append(out, Alt{fmt.Sprintf("storage%d", st), func(s *Spec) { t := std(); t.Storage = st; s.Names = t }})
	}
	for st := 0; st <= 4; st++ {
		st := st
		out = append(out, Alt{fmt.Sprintf("tags%d", st), func(s *Spec) { s.Names = tagged(st) }})
	}
	out = append(out,
		Alt{"absent", func(s *Spec) { s.Names = nil }},
		Alt{"norecords", func(s *Spec) { s.Names = &NameTab{} }},
		Alt{"norecords1", func(s *Spec) { s.Names = &NameTab{Format: 1} }},
		Alt{"emptystrings", func(s *Spec) {
			s.Names = &NameTab{Recs: []NameRec{{3, 1, 0x409, 1, []byte{}}, {1, 0, 0, 2, []byte("x")}, {3, 1, 0x409, 3, []byte{}}}}
		}},
		Alt{"duplicates", func(s *Spec) {
			s.Names = &NameTab{Recs: []NameRec{{3, 1, 9, 1, utf16be("one")}, {3, 1, 9, 1, utf16be("two")}, {1, 0, 9, 1, []byte("three")}}}
		}},
		Alt{"long", func(s *Spec) {
			s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, pattern(40000, 3)}, {3, 1, 1, 2, pattern(20000, 4)}, {1, 0, 0, 65535, []byte("z")}}}
		}},
	)
	return out
}

func cmapTabs() []Alt {
	one := func(name string, mk func(n int) []Sub) Alt {
		return Alt{name, func(s *Spec) { s.Cmap = &CmapTab{Subs: mk(len(s.Glyphs))} }}
	}
	f4 := func(n int) Sub {
		return fmt4Of(3, 1, 7, [][2]int{{0x41, 1 % n}, {0x42, 2 % n}, {0x61, 1 % n}, {0xFFFE, n - 1}})
	}
	f12 := func(n int) Sub {
		return mkFmt12(3, 10, 0x01020304, []Group{{0x41, 0x41, uint32(1 % n)}, {0x1F600, 0x1F600, uint32(n - 1)}})
	}
	f6 := func(n int) Sub { return mkFmt6(1, 0, 5, 0x41, []int{1 % n, 0, n - 1}) }
	f0 := func(n int) Sub { return mkFmt0(1, 0, 3, map[int]int{0x41: 1 % n, 200: (n - 1) % 256}) }
	return []Alt{
		{"absent", func(s *Spec) { s.Cmap = nil }},
		one("none", func(n int) []Sub { return nil }),
		one("f0", func(n int) []Sub { return []Sub{f0(n)} }),
		one("f4", func(n int) []Sub { return []Sub{f4(n)} }),
		one("f6", func(n int) []Sub { return []Sub{f6(n)} }),
		one("f12", func(n int) []Sub { return []Sub{f12(n)} }),
		one("f0full", func(n int) []Sub {
			m := map[int]int{}
			for i := 0; i < 256; i++ {
				m[i] = i % min(n, 256)
			}
			return []Sub{mkFmt0(1, 0, 0, m)}
		}),
		one("empty4", func(n int) []Sub { return []Sub{mkFmt4(3, 1, 0, nil, nil)} }),
		one("empty6", func(n int) []Sub { return []Sub{mkFmt6(1, 0, 0, 0, nil)} }),
		one("empty12", func(n int) []Sub { return []Sub{mkFmt12(3, 10, 0, nil)} }),
		one("uns14mid", func(n int) []Sub { return []Sub{f4(n), mkUnsup(0, 5, 14, 0), f12(n)} }),
		one("uns14first", func(n int) []Sub { return []Sub{mkUnsup(0, 5, 14, 0), f4(n)} }),
		one("uns2last", func(n int) []Sub { return []Sub{f6(n), f4(n), mkUnsup(3, 2, 2, 4)} }),
		one("uns13only", func(n int) []Sub { return []Sub{mkUnsup(3, 10, 13, 0)} }),
		one("samepair", func(n int) []Sub { return []Sub{f4(n), mkFmt12(3, 1, 0, []Group{{0x43, 0x43, uint32(n - 1)}})} }),
		{"shared", func(s *Spec) {
			a := f4(len(s.Glyphs))
			b := a
			b.P, b.E = 3, 1
			a.P, a.E = 0, 3
			s.Cmap = &CmapTab{Subs: []Sub{a, b}, Share: true}
		}},
		{"gap", func(s *Spec) { s.Cmap = &CmapTab{Subs: []Sub{f4(len(s.Glyphs)), f12(len(s.Glyphs))}, Gap: 6} }},
		{"version", func(s *Spec) { s.Cmap.Version = 3 }},
	}
}

// fontDims are the dimensions of the font space. Every font made from them is well formed.
func fontDims() []Dim {
	same := func(w uint16) Alt {
		return Alt{fmt.Sprintf("same%d", w), func(s *Spec) {
			for i := range s.Metrics {
				s.Metrics[i].Adv = w
			}
		}}
	}
	raw := func(set func(s *Spec, b []byte), nils bool) []Alt {
		var out []Alt
		if nils {
			out = append(out, Alt{"absent", func(s *Spec) { set(s, nil) }})
		}
		for _, n := range []int{0, 1, 2, 3, 4, 130} {
			n := n
			out = append(out, Alt{fmt.Sprintf("len%d", n), func(s *Spec) { set(s, pattern(n, n)) }})
		}
		return out
	}
	var os2 []Alt
	os2 = append(os2, Alt{"absent", func(s *Spec) { s.OS2 = nil }})
	for v := 0; v <= 10; v++ {
		v := v
		if v != 3 {
			os2 = append(os2, Alt{fmt.Sprintf("v%d", v), func(s *Spec) { s.OS2 = mkOS2(v) }})
		}
	}
	os2 = append(os2, Alt{"early", func(s *Spec) { s.OS2 = mkOS2(0)[:68] }}, // before the typographic and Windows metrics were added
		Alt{"later", func(s *Spec) { s.OS2 = append(mkOS2(9), pattern(7, 6)...) }}) // versions to come may be longer
	nameless := func(v uint32) Alt {
		return Alt{fmt.Sprintf("v%x", v), func(s *Spec) { s.Post = &PostTab{Header: mkPostHeader(v)} }}
	}
	post := []Alt{
		{"absent", func(s *Spec) { s.Post = nil }},
		nameless(0x00040000),
		{"v2", func(s *Spec) { s.Post = post2(len(s.Glyphs)) }},
		{"v25", func(s *Spec) { s.Post = post25(len(s.Glyphs)) }},
		{"v1", func(s *Spec) {
			for len(s.Glyphs) < 258 {
				s.Glyphs = append(s.Glyphs, simpleGlyph(12, len(s.Glyphs)))
				s.Metrics = append(s.Metrics, HM{s.Metrics[s.NHM-1].Adv, int16(len(s.Glyphs))})
			}
			s.Post = &PostTab{Header: mkPostHeader(0x00010000)}
		}},
	}
	dims := []Dim{
		{"glyphs", []Alt{
			{"one", func(s *Spec) { setGlyphs(s, [][]byte{simpleGlyph(12, 0)}, 1) }},
			{"oneempty", func(s *Spec) { setGlyphs(s, [][]byte{{}}, 1) }},
			{"two", func(s *Spec) { setGlyphs(s, [][]byte{simpleGlyph(12, 0), simpleGlyph(14, 1)}, 2) }},
			{"allempty", func(s *Spec) { setGlyphs(s, [][]byte{{}, {}, {}}, 2) }},
			{"ends empty", func(s *Spec) { setGlyphs(s, [][]byte{{}, simpleGlyph(16, 1), {}}, 1) }},
			{"odd", func(s *Spec) {
				s.LocFmt = 1
				setGlyphs(s, [][]byte{simpleGlyph(13, 0), simpleGlyph(12, 1), simpleGlyph(15, 2)}, 2)
			}},
			{"huge", func(s *Spec) {
				s.LocFmt = 1
				setGlyphs(s, [][]byte{simpleGlyph(12, 0), simpleGlyph(66000, 1), simpleGlyph(12, 2)}, 2)
			}},
			{"hugeshort", func(s *Spec) {
				setGlyphs(s, [][]byte{simpleGlyph(12, 0), simpleGlyph(66000, 1), simpleGlyph(12, 2)}, 2)
			}},
		}},
		{"loc", []Alt{{"long", func(s *Spec) { s.LocFmt = 1 }}}},
		{"base", []Alt{{"2", func(s *Spec) { s.LocaBase = 2 }}, {"8", func(s *Spec) { s.LocaBase = 8 }}}},
		{"tail", []Alt{{"1", func(s *Spec) { s.GlyfTail = 1 }}, {"4", func(s *Spec) { s.GlyfTail = 4 }}}},
		{"nhm", []Alt{
			{"1", func(s *Spec) { s.NHM = 1; s.Metrics = mkMetrics(len(s.Glyphs), 1) }},
			{"all", func(s *Spec) { s.NHM = len(s.Glyphs); s.Metrics = mkMetrics(len(s.Glyphs), s.NHM) }},
			{"allbut1", func(s *Spec) {
				if len(s.Glyphs) > 1 {
					s.NHM = len(s.Glyphs) - 1
					s.Metrics = mkMetrics(len(s.Glyphs), s.NHM)
				}
			}},
		}},
		{"widths", []Alt{same(0), same(65535), {"extreme", func(s *Spec) {
			for i := range s.Metrics {
				s.Metrics[i].LSB = []int16{-32768, 32767, -1}[i%3]
			}
		}}}},
		{"os2", os2},
		{"cvt", raw(func(s *Spec, b []byte) { s.Cvt = b }, true)},
		{"fpgm", raw(func(s *Spec, b []byte) { s.Fpgm = b }, true)},
		{"prep", raw(func(s *Spec, b []byte) { s.Prep = b }, true)},
		{"name", nameTabs()},
		{"cmap", cmapTabs()},
		{"absent", []Alt{
			{"glyf", func(s *Spec) { s.NoGlyf = true }},
			{"hmtx", func(s *Spec) { s.NoHmtx = true }},
			{"both", func(s *Spec) { s.NoGlyf = true; s.NoHmtx = true }},
		}},
		{"extra", []Alt{
			{"one", func(s *Spec) { s.Extra = []RawTable{{"GSUB", pattern(9, 1)}} }},
			{"many", func(s *Spec) {
				s.Extra = []RawTable{{"DSIG", pattern(8, 2)}, {"zzzz", pattern(3, 2)}, {"    ", pattern(2, 1)}, {"AAAA", nil}, {"kern", pattern(17, 3)}}
			}},
		}},
		{"sfnt", []Alt{{"true", func(s *Spec) { s.Sfnt = 0x74727565 }}, {"odd", func(s *Spec) { s.Sfnt = 0xFFFEFDFC }}}},
		{"dir", []Alt{{"reverse", func(s *Spec) { s.DirOrder = 1 }}, {"unsorted", func(s *Spec) { s.DirOrder = 2 }}}},
		{"phys", []Alt{{"reverse", func(s *Spec) { s.PhysOrder = 1 }}, {"sorted", func(s *Spec) { s.PhysOrder = 2 }}}},
		{"align", []Alt{{"1", func(s *Spec) { s.Align = 1 }}, {"2", func(s *Spec) { s.Align = 2 }}, {"16", func(s *Spec) { s.Align = 16 }}}},
		{"pad", []Alt{{"ff", func(s *Spec) { s.PadByte = 0xFF }}}},
		{"lead", []Alt{{"7", func(s *Spec) { s.LeadGap = 7 }}, {"64", func(s *Spec) { s.LeadGap = 64 }}}},
		{"end", []Alt{{"1", func(s *Spec) { s.TailPad = 1 }}, {"3", func(s *Spec) { s.TailPad = 3 }}}},
		{"header", []Alt{{"zero", headerFill(0)}, {"one", headerFill(1)}, {"max", headerFill(0x7FFF)}, {"ff", headerFill(0xFFFF)}}},
		{"search", []Alt{{"bad", func(s *Spec) { s.BadSearch = true }}}},
		{"post", post},
		{"excess", []Alt{{"4", func(s *Spec) { s.Excess = 1 }}, {"zeros", func(s *Spec) { s.Excess = 2 }}}},
	}
	return dims
}

// headerFill sets every free 16-bit field of head, hhea, maxp, OS/2 and post to v.
func headerFill(v uint16) func(s *Spec) {
	return func(s *Spec) {
		for o := 4; o < 54; o += 2 {
			if o < 8 || o >= 16 && o < 50 {
				put16(s.Head, o, v)
			}
		}
		for o := 4; o < 32; o += 2 {
			if o < 24 {
				put16(s.Hhea, o, v)
			}
		}
		for o := 6; o+2 <= len(s.Maxp); o += 2 {
			put16(s.Maxp, o, v)
		}
		for o := 2; o+2 <= len(s.OS2); o += 2 {
			put16(s.OS2, o, v)
		}
		if s.Post != nil {
			for o := 4; o+2 <= len(s.Post.Header); o += 2 {
				put16(s.Post.Header, o, v)
			}
		}
	}
}

// post2 is a version 2.0 table with custom, shared and standard names.
func post2(n int) *PostTab {
	p := &PostTab{Header: mkPostHeader(0x00020000)}
	var idx []int
	custom := [][]byte{}
	for i := 0; i < n; i++ {
		switch {
		case i%3 == 1:
			idx = append(idx, 258+len(custom))
			nm := fmt.Sprintf("custom%d", i)
			custom = append(custom, []byte(nm))
			p.Names = append(p.Names, nm)
		default:
			idx = append(idx, (i*7)%258)
			p.Names = append(p.Names, macNames[(i*7)%258])
		}
	}
	p.Rest = encodePost2(idx, custom)
	return p
}

func encodePost2(idx []int, custom [][]byte) []byte {
	b := app16(nil, len(idx))
	b = app16(b, idx...)
	for _, c := range custom {
		b = append(b, byte(len(c)))
		b = append(b, c...)
	}
	return b
}

// post25 is a version 2.5 table; names are selected relative to the glyph id the way the library documents it
// (glyph index plus one plus offset is not assumed here: see C16).
func post25(n int) *PostTab {
	p := &PostTab{Header: mkPostHeader(0x00025000)}
	p.Rest = app16(nil, n)
	for i := 0; i < n; i++ {
		p.Rest = append(p.Rest, 0)
	}
	return p
}

// eachFont enumerates every font with at most k deviations.
func eachFont(k int, emit func(name string, mk func() *Spec)) {
	dims := fontDims()
	var rec func(from int, name string, alts []Alt)
	rec = func(from int, name string, alts []Alt) {
		cp := append([]Alt{}, alts...)
		emit("base"+name, func() *Spec {
			s := baseSpec()
			for _, a := range cp {
				a.Do(s)
			}
			return s
		})
		if len(alts) == k {
			return
		}
		for d := from; d < len(dims); d++ {
			for _, a := range dims[d].Alts {
				rec(d+1, name+","+dims[d].Name+"="+a.Name, append(cp[:len(cp):len(cp)], a))
			}
		}
	}
	rec(0, "", nil)
}
