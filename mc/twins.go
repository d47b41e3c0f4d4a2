//go:build go1.22

// Fonts that look alike from the outside: same directory, checksums and all, but other contents. What a process
// remembers of one of them must not be taken for the other.

package main

import "fmt"

var twinKinds = []struct {
	name string
	set  func(s *Spec)
}{
	{"base", func(s *Spec) {}},
	{"head", func(s *Spec) { put16(s.Head, 16, be16(s.Head, 16)^3) }},
	{"hhea", func(s *Spec) { put16(s.Hhea, 4, be16(s.Hhea, 4)^0x11) }},
	{"maxp", func(s *Spec) { put16(s.Maxp, 6, be16(s.Maxp, 6)^5) }},
	{"OS/2", func(s *Spec) { put16(s.OS2, 2, be16(s.OS2, 2)^0x101) }},
	{"cvt", func(s *Spec) { s.Cvt[0], s.Cvt[4] = s.Cvt[4]^1, s.Cvt[0] }},
	{"fpgm", func(s *Spec) { s.Fpgm[0], s.Fpgm[4] = s.Fpgm[4]^1, s.Fpgm[0] }},
	{"prep", func(s *Spec) { s.Prep[0], s.Prep[4] = s.Prep[4]^1, s.Prep[0] }},
	{"glyph", func(s *Spec) { s.Glyphs[2][11] ^= 0x0F }},
	{"glyphs", func(s *Spec) { s.Glyphs[2], s.Glyphs[4] = s.Glyphs[4], s.Glyphs[2] }},
	{"component", func(s *Spec) {
		s.Glyphs[3] = compositeGlyph([]Comp{{GID: 4, Words: true}, {GID: 2, Xform: 1}}, -1, 3)
	}},
	{"advance", func(s *Spec) { s.Metrics[1].Adv++ }},
	{"equal", func(s *Spec) {
		for i := range s.Metrics {
			s.Metrics[i].Adv = s.Metrics[0].Adv
		}
	}},
	{"bearing", func(s *Spec) { s.Metrics[5].LSB += 0x101 }},
	{"name", func(s *Spec) { s.Names.Recs[0].Data = []byte("maF") }},
	{"names", func(s *Spec) { s.Names.Recs[3].Data = utf16be("luRég") }},
	{"name id", func(s *Spec) { s.Names.Recs[2].ID, s.Names.Recs[3].ID = 2, 1 }},
	{"cmap 6", func(s *Spec) { s.Cmap.Subs[1] = mkFmt6(1, 0, 0, 0x40, []int{0, 4, 3, 2}) }},
	{"cmap 4", func(s *Spec) {
		s.Cmap.Subs[2] = mkFmt4(3, 1, 0, []Seg{{0x42, 0x45, 1 - 0x42, -1}, {0x3B0, 0x3B0, 5 - 0x3B0, -1}}, nil)
	}},
	{"cmap 12", func(s *Spec) {
		s.Cmap.Subs[3] = mkFmt12(3, 10, 0, []Group{{0x41, 0x44, 2}, {0x3B1, 0x3B1, 4}, {0x1F600, 0x1F601, 3}})
	}},
	{"post", func(s *Spec) { s.Post.Header[5] ^= 0x11 }},
}

func twin(i int) *Spec {
	s := baseSpec()
	s.SameSums = true
	twinKinds[i].set(s)
	return s
}

// emitTwins runs every ordered pair of such fonts one after the other, and the first one again.
func emitTwins(c *Ctx, run func(r *Rec, mk func() *Spec) error) {
	c.Bound("fonts that share all checksums", len(twinKinds))
	for i := range twinKinds {
		i := i
		c.Emit("twin/"+twinKinds[i].name, func(r *Rec) error {
			for j := range twinKinds {
				for n, k := range []int{i, j, i} {
					k := k
					if err := run(r, func() *Spec { return twin(k) }); err != nil {
						return fmt.Errorf("%s, %s, %s: step %d: %v", twinKinds[i].name, twinKinds[j].name, twinKinds[i].name, n+1, err)
					}
				}
			}
			return nil
		})
	}
}

// twinPaths is emitTwins with sequences of operations.
func twinPaths(c *Ctx, parts Parts, paths ...[]Op) {
	emitTwins(c, func(r *Rec, mk func() *Spec) error {
		s := mk()
		data, _ := s.Encode()
		m := modelOf(s)
		for _, p := range paths {
			if err := runPath(r, data, m, parts, p...); err != nil {
				return err
			}
		}
		return nil
	})
}
