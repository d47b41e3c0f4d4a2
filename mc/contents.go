//go:build go1.22

// Fonts that differ in the contents of tables the library carries without looking at them.

package main

import "fmt"

// contentKinds are the tables: how to set the bytes, and what their number must be a multiple of.
var contentKinds = []struct {
	name string
	unit int
	set  func(s *Spec, b []byte)
}{
	{"cvt", 2, func(s *Spec, b []byte) { s.Cvt = b }},
	{"fpgm", 1, func(s *Spec, b []byte) { s.Fpgm = b }},
	{"prep", 1, func(s *Spec, b []byte) { s.Prep = b }},
	{"glyph", 2, func(s *Spec, b []byte) { s.Glyphs[1] = append(clone(simpleGlyph(12, 1)[:10]), b...) }},
	{"last glyph", 2, func(s *Spec, b []byte) { s.Glyphs[5] = append(clone(simpleGlyph(12, 1)[:10]), b...) }},
	{"long glyph", 1, func(s *Spec, b []byte) {
		s.LocFmt = 1
		s.Glyphs[1] = append(clone(simpleGlyph(12, 1)[:10]), b...)
	}},
	{"instructions", 2, func(s *Spec, b []byte) {
		g := compositeGlyph([]Comp{{GID: 2}, {GID: 0}}, 0, 3)
		put16(g, len(g)-2, uint16(len(b)))
		s.Glyphs[3] = append(g, b...)
	}},
	{"metrics", 2, func(s *Spec, b []byte) {
		for i := range s.Metrics { // full metrics for the first four
			if i < 4 && len(b) >= 2 {
				s.Metrics[i].Adv = be16(b, 0)
				b = b[2:]
			}
			if i >= 4 {
				s.Metrics[i].Adv = s.Metrics[3].Adv
			}
			if len(b) >= 2 {
				s.Metrics[i].LSB = int16(be16(b, 0))
				b = b[2:]
			}
		}
		s.NHM = 4
	}},
	{"bearings", 2, func(s *Spec, b []byte) {
		s.NHM = 1
		for i := range s.Metrics {
			s.Metrics[i].Adv = s.Metrics[0].Adv
			if 2*i+1 < len(b) {
				s.Metrics[i].LSB = int16(be16(b, 2*i))
			}
		}
	}},
	{"name", 1, func(s *Spec, b []byte) {
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 4, b}, {3, 1, 0x409, 6, utf16be("W")}}}
	}},
	{"windows name", 2, func(s *Spec, b []byte) {
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 4, []byte("M")}, {3, 1, 0x409, 6, b}}}
	}},
	{"other name", 1, func(s *Spec, b []byte) {
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 4, []byte("M")}, {2, 1, 7, 6, b}, {3, 1, 0x409, 6, utf16be("W")}}}
	}},
	{"language tag", 2, func(s *Spec, b []byte) {
		s.Names = &NameTab{Format: 1, Tags: [][]byte{utf16be("en"), b}, Recs: []NameRec{{1, 0, 0, 4, []byte("M")}, {3, 1, 0x8001, 6, utf16be("W")}}}
	}},
}

// emitContents runs every table with all contents over a few bytes to a length, with one byte of every value at every
// position of sixteen bytes and around them all alike, and with tables of one value only.
func emitContents(c *Ctx, few bool, run func(r *Rec, mk func() *Spec) error, only ...string) {
	alphabet := []byte{0, 1, 0x40, 0x80, 0xFF}
	for _, k := range contentKinds {
		k := k
		skip := len(only) > 0
		for _, o := range only {
			skip = skip && o != k.name
		}
		if skip {
			continue
		}
		try := func(r *Rec, b []byte) error {
			err := run(r, func() *Spec {
				s := baseSpec()
				k.set(s, clone(b))
				return s
			})
			if err != nil {
				return fmt.Errorf("%s % x: %v", k.name, b, err)
			}
			return nil
		}
		n := 4
		if c.Thorough() {
			n = 6
		} else if few {
			n = 2
		}
		c.Bound("content_length", n)
		for first := -1; first < len(alphabet); first++ {
			first := first
			c.Emit(fmt.Sprintf("content/%s/all/%d", k.name, first), func(r *Rec) error {
				var err error
				sequences(len(alphabet), n, func(seq []int) {
					if err != nil || len(seq)%k.unit != 0 || first < 0 != (len(seq) == 0) || first >= 0 && seq[0] != first {
						return
					}
					b := make([]byte, len(seq))
					for i, x := range seq {
						b[i] = alphabet[x]
					}
					err = try(r, b)
				})
				return err
			})
		}
		for _, fill := range []byte{0, 0x20, 0x41, 0xFF} {
			fill := fill
			c.Emit(fmt.Sprintf("content/%s/byte/%x", k.name, fill), func(r *Rec) error {
				for _, n := range []int{2, 16, 64} {
					if few && n == 64 {
						break
					}
					b := make([]byte, n)
					for i := range b {
						b[i] = fill
					}
					for _, o := range []int{0, 1, n / 2, n - 2, n - 1} {
						for v := 0; v < 256; v++ {
							d := clone(b)
							d[o] = byte(v)
							if few && v%16 > 1 && v < 0xF0 {
								continue
							}
							if err := try(r, d); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
		c.Emit("content/"+k.name+"/same", func(r *Rec) error {
			for _, n := range []int{2, 4, 32, 256, 4096, 4098} {
				for v := 0; v < 256; v++ {
					if n > 256 && v%51 != 0 {
						continue
					}
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(v)
					}
					if few && v%17 > 0 {
						continue
					}
					if err := try(r, b); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
}
