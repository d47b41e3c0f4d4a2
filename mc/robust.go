//go:build go1.22

// C03, C04, C05, C06: validation, arbitrary bytes, read faults, write faults.

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/unidoc/unitype"
)

// fixAdj makes the whole file sum right again.
func fixAdj(d []byte, head int) {
	put32(d, head+8, 0)
	put32(d, head+8, 0xB1B0AFBA-tsum(d))
}

// corpus is a list of small fonts that together use every table, format and layout feature.
func corpus() []Base {
	var out []Base
	out = append(out, bases()...)
	add := func(name string, do func(s *Spec)) {
		out = append(out, Base{name, func() *Spec { s := baseSpec(); do(s); return s }})
	}
	tiny := func(s *Spec) {
		setGlyphs(s, [][]byte{simpleGlyph(12, 0), compositeGlyph([]Comp{{GID: 0}}, -1, 1)}, 1)
		s.OS2, s.Cvt, s.Fpgm, s.Prep, s.Names, s.Post, s.Cmap = nil, nil, nil, nil, nil, nil, nil
	}
	add("tiny", tiny)
	add("layout", func(s *Spec) {
		s.LeadGap, s.TailPad, s.Align, s.PadByte, s.DirOrder, s.PhysOrder = 7, 3, 1, 0xCC, 1, 1
		s.Extra = []RawTable{{"DSIG", pattern(9, 2)}, {"zzzz", pattern(3, 2)}, {"AAAA", nil}}
	})
	add("repeated", func(s *Spec) { // tags occurring several times
		tiny(s)
		s.Extra = []RawTable{{"DSIG", pattern(5, 1)}, {"kern", pattern(9, 4)}, {"DSIG", pattern(8, 2)}, {"DSIG", pattern(12, 3)}, {"kern", nil}}
	})
	add("post2", func(s *Spec) { tiny(s); s.Post = post2(2) })
	add("post25", func(s *Spec) { tiny(s); s.Post = post25(2) })
	add("names", func(s *Spec) {
		tiny(s)
		s.Names = &NameTab{Format: 1, Storage: 4, Tags: [][]byte{utf16be("en"), utf16be("x")},
			Recs: []NameRec{{1, 0, 0, 1, []byte("ab\x8a")}, {3, 1, 0x8000, 2, utf16be("x\U0001F600")}, {0, 3, 0, 6, utf16be("n")}}}
	})
	for i, sub := range []Sub{
		mkFmt4(3, 1, 0, []Seg{{0x41, 0x42, 0, 0}, {0x61, 0x61, (1 - 0x61) & 0xFFFF, -1}}, []int{1, 0}),
		mkFmt6(1, 0, 0, 0x41, []int{1, 0, 1}),
		mkFmt12(3, 10, 0, []Group{{0x41, 0x42, 0}, {0x1F600, 0x1F600, 1}}),
		mkFmt6(3, 2, 0, 0x41, []int{1, 0, 1}),
	} {
		sub := sub
		add(fmt.Sprintf("cmap%d", i), func(s *Spec) { tiny(s); s.Cmap = &CmapTab{Subs: []Sub{sub}} })
	}
	return out
}

// versions is a list of small fonts that together use every version of every table the library knows.
func versions() []Base {
	var out []Base
	add := func(name string, do func(s *Spec)) {
		out = append(out, Base{name, func() *Spec {
			s := baseSpec()
			setGlyphs(s, [][]byte{simpleGlyph(12, 0), compositeGlyph([]Comp{{GID: 0}}, -1, 1)}, 1)
			s.OS2, s.Cvt, s.Fpgm, s.Prep, s.Names, s.Post, s.Cmap = nil, nil, nil, nil, nil, nil, nil
			do(s)
			return s
		}})
	}
	for v := 0; v <= 5; v++ {
		v := v
		add(fmt.Sprintf("os2v%d", v), func(s *Spec) { s.OS2 = mkOS2(v) })
	}
	add("post4", func(s *Spec) { s.Post = &PostTab{Header: mkPostHeader(0x00040000)} })
	add("post3", func(s *Spec) { s.Post = &PostTab{Header: mkPostHeader(0x00030000)} })
	add("name1", func(s *Spec) {
		s.Names = &NameTab{Format: 1, Tags: [][]byte{utf16be("en")}, Recs: []NameRec{{3, 1, 0x8000, 1, utf16be("ab")}}}
	})
	add("name0", func(s *Spec) {
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, []byte("ab")}, {1, 0, 0, 2, []byte("c")}}}
	})
	for i, sub := range []Sub{
		mkFmt0(1, 0, 0, map[int]int{0x41: 1}),
		mkFmt4(3, 1, 0, []Seg{{0x41, 0x42, 0, 0}}, []int{1, 0}),
		mkFmt6(1, 0, 0, 0x41, []int{1, 0, 1}),
		mkFmt12(3, 10, 0, []Group{{0x41, 0x42, 0}}),
	} {
		sub := sub
		add(fmt.Sprintf("sub%d", i), func(s *Spec) { s.Cmap = &CmapTab{Subs: []Sub{sub, sub}} })
	}
	add("short", func(s *Spec) { s.LocFmt = 0 })
	add("longloca", func(s *Spec) { s.LocFmt = 1 })
	add("programs", func(s *Spec) { s.Cvt, s.Fpgm, s.Prep = pattern(6, 1), pattern(5, 2), pattern(7, 3) })
	return out
}

// FileRec is a table record as it stands in a file.
type FileRec struct {
	Tag string
	Sum uint32
	Loc
}

func fileRecords(d []byte) []FileRec {
	var out []FileRec
	for i := 0; i < int(be16(d, 4)); i++ {
		p := 12 + 16*i
		out = append(out, FileRec{string(d[p : p+4]), be32(d, p+4), Loc{int(be32(d, p+8)), int(be32(d, p+12))}})
	}
	return out
}

func scratchDir() string { return os.Getenv("VERIF_SCRATCH") }

func scratchFile(tag string) string {
	f, err := os.CreateTemp(scratchDir(), tag)
	if err != nil {
		fatalExit("scratch: %v", err)
	}
	n := f.Name()
	f.Close()
	return n
}

// ---- C03 ----

func validateBoth(d []byte) (error, error) {
	e1 := unitype.ValidateBytes(clone(d))
	p := scratchFile("val")
	defer os.Remove(p)
	if err := os.WriteFile(p, d, 0o600); err != nil {
		fatalExit("scratch: %v", err)
	}
	return e1, unitype.ValidateFile(p)
}

func genC03(c *Ctx) {
	k := 3
	c.Bound("accept_max_deviations", k)
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("accept/"+name, func(r *Rec) error {
			d, _ := mk().Encode()
			r.Input(d)
			r.State(hashBytes(d))
			r.Trans(1)
			r.Trace(1)
			if err := unitype.ValidateBytes(clone(d)); err != nil {
				return fmt.Errorf("ValidateBytes: %v", err)
			}
			if strings.Count(name, ",") < 2 {
				if _, err := validateBoth(d); err != nil {
					return fmt.Errorf("ValidateFile: %v", err)
				}
			}
			return nil
		})
	})
	accept := func(name string, mk func() []byte) {
		c.Emit("accept/"+name, func(r *Rec) error {
			d := mk()
			r.Input(d)
			r.State(hashBytes(d))
			r.Trans(1)
			r.Trace(1)
			e1, e2 := validateBoth(d)
			if e1 != nil || e2 != nil {
				return fmt.Errorf("ValidateBytes: %v; ValidateFile: %v", e1, e2)
			}
			return nil
		})
	}
	for _, n := range []int{258, 1000, 65535} {
		n := n
		accept(fmt.Sprintf("count/%d", n), func() []byte { d, _ := countSpec(n, 1, 1).Encode(); return d })
	}
	for _, size := range []int{4095, 4096, 4097, 65535, 65536, 65537, 200001} {
		size := size
		accept(fmt.Sprintf("big table/%d", size), func() []byte {
			s := baseSpec()
			s.Extra = []RawTable{{"BIGT", pattern(size, 3)}}
			d, _ := s.Encode()
			return d
		})
	}
	for _, b := range tagFonts() {
		b := b
		accept(b.Name, func() []byte { d, _ := b.Mk().Encode(); return d })
	}
	for _, b := range sizeFonts(c.Thorough()) {
		b := b
		accept("size/"+b.Name, func() []byte { d, _ := b.Mk().Encode(); return d })
	}
	// Records sharing their table's bytes.
	alias := func(target string) ([]byte, int) {
		s := baseSpec()
		s.Extra = []RawTable{{"zzzz", nil}}
		d, locs := s.Encode()
		nt := int(be16(d, 4))
		var from, to int
		for i := 0; i < nt; i++ {
			switch string(d[12+16*i : 16+16*i]) {
			case target:
				from = 12 + 16*i
			case "zzzz":
				to = 12 + 16*i
			}
		}
		copy(d[to+4:to+16], d[from+4:from+16])
		fixAdj(d, locs["head"].Off)
		return d, to
	}
	for _, t := range []string{"glyf", "name", "cmap", "maxp"} {
		t := t
		accept("alias/"+t, func() []byte { d, _ := alias(t); return d })
	}
	reject := func(r *Rec, d []byte, file bool) error {
		r.Trans(1)
		r.State(hashBytes(d))
		if file {
			e1, e2 := validateBoth(d)
			if e1 == nil || e2 == nil {
				r.Input(d)
				return fmt.Errorf("accepted (ValidateBytes: %v, ValidateFile: %v)", e1, e2)
			}
			return nil
		}
		if err := unitype.ValidateBytes(clone(d)); err == nil {
			r.Input(d)
			return errors.New("ValidateBytes accepts it")
		}
		return nil
	}
	// Fonts of unusual sizes and tags: every record, and bytes at the edges of tables and of usual blocks.
	for _, b := range append(sizeFonts(c.Thorough()), tagFonts()...) {
		b := b
		c.Emit("reject/size/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			d0, locs := b.Mk().Encode()
			head := locs["head"].Off
			recs := fileRecords(d0)
			step := 1
			if len(recs) > 20 && !c.Thorough() {
				step = len(recs) / 8
			}
			big := len(d0) > 1<<14 && !c.Thorough()
			some := func(i int) bool { return i%step == 0 || i == len(recs)-1 || i == 255 || i == 256 }
			at := map[int]bool{}
			edges := func(lo, n int) {
				for _, q := range []int{0, n / 2, n - 2, n - 1, 1, 2, 3, 4, n - 3, n - 4, n - 5} {
					if big && (n < 1<<12 || q > 0 && q < 5 || q == n-5) {
						continue
					}
					at[lo+q] = q >= 0 && q < n
				}
				for q := 512; q <= n; q *= 2 {
					if len(d0) > 1<<17 && q < 1<<15 {
						continue
					}
					for k := -1; k < 1; k++ {
						at[lo+q+k] = q+k < n
					}
				}
			}
			for i, rc := range recs {
				if !some(i) {
					continue
				}
				edges(rc.Off, rc.Len)
				for _, x := range []uint32{0x8001, 1, 0xFFFFFFFF} {
					if big && x != 0x8001 {
						continue
					}
					d := clone(d0)
					put32(d, 12+16*i+4, rc.Sum+x)
					fixAdj(d, head)
					if err := reject(r, d, false); err != nil {
						return fmt.Errorf("checksum of record %d %q wrong, file sum made right: %v", i, rc.Tag, err)
					}
				}
			}
			edges(0, len(d0))
			for o, ok := range at {
				if !ok || o >= head && o < head+54 || o < 12+16*len(recs) {
					continue
				}
				d := clone(d0)
				d[o] ^= 0x40
				if err := reject(r, d, false); err != nil {
					return fmt.Errorf("byte %d of %d changed: %v", o, len(d), err)
				}
				in := -1
				for i, rc := range recs {
					if o >= rc.Off && o < rc.Off+rc.Len {
						in = i
					}
				}
				if in < 0 {
					continue
				}
				fixAdj(d, head)
				if err := reject(r, d, false); err != nil {
					return fmt.Errorf("byte %d of %d (%q) changed, file sum made right: %v", o, len(d), recs[in].Tag, err)
				}
			}
			return nil
		})
	}
	full := map[string]bool{"tiny": true, "post2": true}
	for _, b := range corpus() {
		b := b
		d0, locs := b.Mk().Encode()
		head := locs["head"].Off
		for lo := 0; lo < len(d0); lo += 16 {
			lo := lo
			c.Emit(fmt.Sprintf("byte/%s/%d", b.Name, lo), func(r *Rec) error {
				r.Trace(1)
				for o := lo; o < lo+16 && o < len(d0); o++ {
					for x := 1; x < 256; x++ {
						if !c.Thorough() && !full[b.Name] && x&(x-1) != 0 && x != 0xFF {
							continue // quick: single bits and the complement
						}
						d := clone(d0)
						d[o] ^= byte(x)
						if err := reject(r, d, x == 1 && o%4 == 0); err != nil {
							return fmt.Errorf("byte %d changed from %#x to %#x: %v", o, d0[o], d[o], err)
						}
					}
				}
				return nil
			})
		}
		end := 0
		for _, l := range locs {
			if l.Len > 0 && l.Off+l.Len > end {
				end = l.Off + l.Len
			}
		}
		c.Emit("cut/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			for n := 0; n < end; n++ {
				if err := reject(r, d0[:n], n%8 == 0); err != nil {
					return fmt.Errorf("cut to %d of %d bytes: %v", n, len(d0), err)
				}
			}
			return nil
		})
		recs := fileRecords(d0)
		c.Emit("record/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			try := func(i int, sum uint32, file bool) error {
				d := clone(d0)
				put32(d, 12+16*i+4, sum)
				if sum == recs[i].Sum {
					return nil
				}
				fixAdj(d, head)
				if err := reject(r, d, file); err != nil {
					return fmt.Errorf("checksum of record %d %q changed from %#x to %#x, file sum made right: %v", i, recs[i].Tag, recs[i].Sum, sum, err)
				}
				return nil
			}
			for i, rc := range recs {
				sums := []uint32{0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xB1B0AFBA, 0xB1B0AFBA - rc.Sum, -rc.Sum, ^rc.Sum,
					rc.Sum + 1, rc.Sum - 1, rc.Sum<<16 | rc.Sum>>16, rc.Sum & 0xFFFF, rc.Sum &^ 0xFFFF, rc.Sum<<8 | rc.Sum>>24, uint32(rc.Off), uint32(rc.Len),
					rc.Sum>>24 | rc.Sum>>8&0xFF00 | rc.Sum<<8&0xFF0000 | rc.Sum<<24, be32(d0, head+8), rc.Sum + be32(d0, head+8), tsum(d0)}
				for _, o := range recs {
					sums = append(sums, o.Sum, rc.Sum+o.Sum)
				}
				for _, v := range sums {
					if err := try(i, v, true); err != nil {
						return err
					}
				}
				for k := 0; k < 4; k++ {
					for x := 1; x < 256; x++ {
						if err := try(i, rc.Sum^uint32(x)<<(8*k), x == 0x80); err != nil {
							return err
						}
					}
				}
				// Two records wrong at once, alike or cancelling each other out.
				for j := range recs {
					if j == i || recs[j].Sum == rc.Sum {
						continue
					}
					d := clone(d0)
					put32(d, 12+16*i+4, recs[j].Sum)
					put32(d, 12+16*j+4, rc.Sum)
					fixAdj(d, head)
					if err := reject(r, d, false); err != nil {
						return fmt.Errorf("checksums of %q and %q exchanged: %v", rc.Tag, recs[j].Tag, err)
					}
				}
			}
			for mask := 1; mask < 1<<len(recs); mask++ { // every set of records with checksum 0
				if len(recs) > 8 && mask&(mask-1) != 0 && mask != 1<<len(recs)-1 && !c.Thorough() {
					continue
				}
				d, same := clone(d0), true
				for i := range recs {
					if mask>>i&1 == 1 {
						same = same && recs[i].Sum == 0
						put32(d, 12+16*i+4, 0)
					}
				}
				if same {
					continue
				}
				fixAdj(d, head)
				if err := reject(r, d, false); err != nil {
					return fmt.Errorf("checksums %b all 0: %v", mask, err)
				}
			}
			return nil
		})
		for ti, l := range recs {
			t, l := l.Tag, l
			other := recs[(ti+1)%len(recs)]
			c.Emit(fmt.Sprintf("table/%s/%d/%s", b.Name, ti, t), func(r *Rec) error {
				r.Trace(1)
				for o := l.Off; o < l.Off+l.Len; o++ {
					if t == "head" && o >= l.Off+8 && o < l.Off+12 {
						continue
					}
					for x := 1; x < 256; x++ {
						if !c.Thorough() && x&(x-1) != 0 {
							continue
						}
						d := clone(d0)
						d[o] ^= byte(x)
						fixAdj(d, head)
						if err := reject(r, d, x == 0x80); err != nil {
							return fmt.Errorf("byte %d of table %q changed, file sum made right: %v", o-l.Off, t, err)
						}
						// the same with the difference compensated inside another table
						if other.Len >= 4 && other.Tag != "head" && x&(x-1) == 0 {
							d := clone(d0)
							old := tsum(d)
							d[o] ^= byte(x)
							diff := tsum(d) - old
							at := (other.Off + 3) &^ 3
							if at+4 <= other.Off+other.Len {
								put32(d, at, be32(d, at)-diff)
								if tsum(d) == old {
									if err := reject(r, d, false); err != nil {
										return fmt.Errorf("byte %d of table %q changed, compensated in another table: %v", o-l.Off, t, err)
									}
								}
							}
						}
					}
				}
				return nil
			})
		}
	}
	c.Emit("alias reject", func(r *Rec) error {
		r.Trace(1)
		for _, t := range []string{"glyf", "name", "cmap", "maxp"} {
			for k := 4; k < 8; k++ {
				d, to := alias(t)
				head := 0
				for i := 0; i < int(be16(d, 4)); i++ {
					if string(d[12+16*i:16+16*i]) == "head" {
						head = int(be32(d, 12+16*i+8))
					}
				}
				d[to+k] ^= 4
				fixAdj(d, head)
				if err := reject(r, d, true); err != nil {
					return err
				}
			}
		}
		return nil
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			d0 := rd[n]
			if unitype.ValidateBytes(clone(d0)) != nil {
				return nil
			}
			r.Trace(1)
			step := len(d0)/c.Pick(40, 600) + 1
			for o := 0; o < len(d0); o += step {
				d := clone(d0)
				d[o] ^= 0x10
				if err := reject(r, d, false); err != nil {
					return fmt.Errorf("byte %d: %v", o, err)
				}
			}
			return nil
		})
	}
}

// ---- C04 ----

// sweepAPI runs every exported operation on an accepted font; it returns an error only when the results break the
// contract (panics are caught by the engine).
func sweepAPI(f *Font, depth int) error {
	if f == nil {
		return errors.New("nil font with nil error")
	}
	observeQueries(f, true)
	f.LookupRunes([]rune{-1, 0x110000, 'A', 0x7FFFFFFF, -0x80000000})
	f.GetCmap(-1, -1)
	f.GetCmap(1<<30, 1<<30)
	f.GetNameByID(-1 << 30)
	f.GetNameByID(1 << 30)
	for _, g := range []int{0, 255, 256, 32767, 32768, 65534, 65535} {
		f.GetGlyphDataOffset(GID(g))
	}
	write(f)
	var derived []*Font
	add := func(g *Font, err error) error {
		if err == nil && g == nil {
			return errors.New("subset returned nil font with nil error")
		}
		if err == nil && g != f {
			derived = append(derived, g)
		}
		return nil
	}
	ns := []int{0, 1, 2, 3, 5, 255, 65534, 65535, 65536, math.MaxInt}
	sets := [][]GID{nil, {0}, {1}, {3}, {5}, {65535}, {0, 1, 2, 3, 4, 5, 6, 7}, {65534, 2, 2}}
	if depth == 0 {
		ns = []int{1, 2}
		sets = [][]GID{{1}, {0, 2}}
	}
	for _, n := range ns {
		if err := add(f.SubsetFirst(n)); err != nil {
			return err
		}
	}
	f.SubsetFirst(-1)
	for _, s := range sets {
		if err := add(f.SubsetKeepIndices(s)); err != nil {
			return err
		}
	}
	for _, s := range []string{"", "A", "BCz\U0001F600"} {
		if err := add(f.SubsetKeepRunes([]rune(s))); err != nil {
			return err
		}
	}
	f.Subset([]GID{0, 1})
	if depth > 0 {
		for i, g := range derived {
			if i%3 == 0 || depth > 1 {
				if err := sweepAPI(g, depth-1); err != nil {
					return err
				}
			} else {
				write(g)
			}
		}
	}
	f.PruneTables("post", "nosuch")
	f.Optimize()
	write(f)
	f.PruneTables("cmap", "name")
	observeQueries(f, false)
	if g, err := f.SubsetFirst(2); err == nil {
		write(g)
	}
	if g, err := f.SubsetKeepIndices([]GID{1, 2}); err == nil {
		g.Optimize()
		write(g)
	}
	write(f)
	return nil
}

func tryBytes(r *Rec, d []byte, depth int) error {
	r.Input(d)
	r.Trans(1)
	f, err := parse(d)
	unitype.ValidateBytes(clone(d))
	if err != nil {
		if f != nil {
			return errors.New("Parse returns both a font and an error")
		}
		return nil
	}
	r.State(hashBytes(d))
	r.Count("accepted", 1)
	return sweepAPI(f, depth)
}

func genC04(c *Ctx) {
	cp := corpus()
	cp = append(cp, Base{"badcomposite", func() *Spec {
		s := baseSpec()
		s.Glyphs[3] = []byte{0xFF, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x20} // cut inside a component
		s.Glyphs[4] = []byte{0xFF, 0xFF, 0, 0}
		return s
	}})
	vals := func(v byte) []byte { return []byte{0, 1, 0x7F, 0x80, 0xFE, 0xFF, v + 1, v - 1} }
	c.Bound("byte_values", map[bool]string{true: "all 256", false: "0,1,0x7f,0x80,0xfe,0xff,v+1,v-1"}[c.Thorough()])
	for _, b := range cp {
		b := b
		d0, _ := b.Mk().Encode()
		for lo := 0; lo < len(d0); lo += 8 {
			lo := lo
			c.Emit(fmt.Sprintf("byte/%s/%d", b.Name, lo), func(r *Rec) error {
				r.Trace(1)
				for o := lo; o < lo+8 && o < len(d0); o++ {
					try := func(v byte, depth int) error {
						d := clone(d0)
						d[o] = v
						if err := tryBytes(r, d, depth); err != nil {
							return fmt.Errorf("byte %d = %#x: %v", o, v, err)
						}
						return nil
					}
					for _, v := range vals(d0[o]) {
						if err := try(v, 1); err != nil {
							return err
						}
					}
					for v := 0; v < 256 && c.Thorough(); v++ {
						if err := try(byte(v), 0); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
		c.Emit("cut/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			for n := 0; n <= len(d0); n++ {
				if err := tryBytes(r, d0[:n], 1); err != nil {
					return fmt.Errorf("cut to %d: %v", n, err)
				}
			}
			return nil
		})
		// 32-bit words: extreme offsets and lengths.
		c.Emit("long/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			for o := 0; o+4 <= len(d0); o += 2 {
				for _, v := range []uint32{0, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, uint32(len(d0)), uint32(len(d0)) - 1, 0x00010001, 0x0010FFFF, 0x00110000} {
					d := clone(d0)
					put32(d, o, v)
					if err := tryBytes(r, d, 0); err != nil {
						return fmt.Errorf("32 bit word at %d = %#x: %v", o, v, err)
					}
				}
			}
			return nil
		})
	}
	// 16-bit words at every boundary value (thorough: at every value in the smallest fonts).
	for _, b := range cp {
		b := b
		d0, _ := b.Mk().Encode()
		small := len(d0) < 700
		if !small && !c.Thorough() {
			continue
		}
		for lo := 0; lo < len(d0); lo += 16 {
			lo := lo
			c.Emit(fmt.Sprintf("word/%s/%d", b.Name, lo), func(r *Rec) error {
				r.Trace(1)
				for o := lo; o < lo+16 && o+2 <= len(d0); o++ {
					if o%2 == 1 && !c.Thorough() {
						continue
					}
					for _, v := range boundaryWords(be16(d0, o)) {
						d := clone(d0)
						put16(d, o, v)
						if err := tryBytes(r, d, 0); err != nil {
							return fmt.Errorf("16 bit word at %d = %#x: %v", o, v, err)
						}
					}
				}
				return nil
			})
		}
		if c.Thorough() && (b.Name == "tiny" || b.Name == "post2" || strings.HasPrefix(b.Name, "cmap")) {
			for o := 0; o+2 <= len(d0); o += 2 {
				o := o
				c.Emit(fmt.Sprintf("word all/%s/%d", b.Name, o), func(r *Rec) error {
					r.Trace(1)
					for v := 0; v < 65536; v++ {
						d := clone(d0)
						put16(d, o, uint16(v))
						if err := tryBytes(r, d, 0); err != nil {
							return fmt.Errorf("16 bit word at %d = %#x: %v", o, v, err)
						}
					}
					return nil
				})
			}
		}
	}
	// Glyph name tables of fonts with more glyphs than there are standard names.
	for _, n := range []int{1, 2, 127, 128, 129, 130, 255, 256, 257, 258, 259, 260, 300} {
		for v := 0; v < 3; v++ {
			n, v := n, v
			c.Emit(fmt.Sprintf("post wide/%d/%d", n, v), func(r *Rec) error {
				r.Trace(1)
				mk := func(p *PostTab) ([]byte, int) {
					s := countSpec(n, 1, 1)
					s.NoGlyf, s.Cmap, s.Names, s.OS2, s.Cvt, s.Fpgm, s.Prep = true, nil, nil, nil, nil, nil, nil
					s.Post = p
					d, l := s.Encode()
					return d, l["post"].Off
				}
				switch v {
				case 0:
					d0, at := mk(post25(n))
					for i := 0; i < n; i++ {
						if n > 2 && n < 127 && i%16 != 0 {
							continue
						}
						for _, x := range []int{-128, -127, -i - 2, -i - 1, -i, -1, 0, 1, 126, 127, 255 - i, 256 - i, 257 - i, 258 - i, 259 - i} {
							if x < -128 || x > 127 {
								continue
							}
							d := clone(d0)
							d[at+34+i] = byte(x)
							if err := tryBytes(r, d, 0); err != nil {
								return fmt.Errorf("offset %d of glyph %d: %v", x, i, err)
							}
						}
					}
					for x := -128; x < 128; x++ {
						d := clone(d0)
						for i := 0; i < n; i++ {
							d[at+34+i] = byte(x)
						}
						if err := tryBytes(r, d, 1); err != nil {
							return fmt.Errorf("all offsets %d: %v", x, err)
						}
					}
				case 1:
					d0, at := mk(post2(n))
					for i := 0; i < n; i++ {
						if i > 3 && i < n-3 && i%32 != 1 && !c.Thorough() {
							continue
						}
						for _, x := range boundaryWords(be16(d0, at+34+2*i)) {
							d := clone(d0)
							put16(d, at+34+2*i, x)
							if err := tryBytes(r, d, 0); err != nil {
								return fmt.Errorf("name index %d of glyph %d: %v", x, i, err)
							}
						}
					}
				case 2:
					for ver := uint32(0); ver < 6; ver++ {
						for _, w := range []uint32{ver << 16, ver<<16 | 0x5000, ver<<16 | 0x8000, 0x20000 | ver, 0x25000 | ver, 0xFFFF0000 | ver} {
							d, at := mk(post2(n))
							put32(d, at, w)
							if err := tryBytes(r, d, 1); err != nil {
								return fmt.Errorf("version %#x: %v", w, err)
							}
							d, at = mk(post25(n))
							put32(d, at, w)
							if err := tryBytes(r, d, 1); err != nil {
								return fmt.Errorf("version %#x: %v", w, err)
							}
						}
					}
				}
				return nil
			})
		}
	}
	// Pairs of 16-bit words.
	for _, name := range []string{"tiny", "post2", "post25", "names", "cmap0", "cmap1", "cmap2", "std", "formats"} {
		for _, b := range cp {
			if b.Name != name || (name == "std" || name == "formats") && !c.Thorough() {
				continue
			}
			b := b
			d0, _ := b.Mk().Encode()
			pv := []uint16{0, 0xFFFF}
			if c.Thorough() {
				pv = []uint16{0, 1, 0x7FFF, 0xFFFF}
				if name == "std" || name == "formats" {
					pv = []uint16{0, 0xFFFF}
				}
			}
			for o1 := 0; o1+2 <= len(d0); o1 += 2 {
				o1 := o1
				c.Emit(fmt.Sprintf("pair/%s/%d", b.Name, o1), func(r *Rec) error {
					r.Trace(1)
					for o2 := o1 + 2; o2+2 <= len(d0); o2 += 2 {
						for _, v1 := range pv {
							for _, v2 := range pv {
								d := clone(d0)
								put16(d, o1, v1)
								put16(d, o2, v2)
								if err := tryBytes(r, d, 0); err != nil {
									return fmt.Errorf("words %d = %#x, %d = %#x: %v", o1, v1, o2, v2, err)
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
	// Directory games: every record pointed at every other table's place, swapped tags, missing tables.
	for _, b := range cp[:6] {
		b := b
		c.Emit("directory/"+b.Name, func(r *Rec) error {
			r.Trace(1)
			d0, _ := b.Mk().Encode()
			nt := int(be16(d0, 4))
			for i := 0; i < nt; i++ {
				for j := 0; j < nt; j++ {
					for part := 0; part < 4; part++ {
						d := clone(d0)
						a, z := [4]int{0, 8, 12, 4}[part], [4]int{4, 12, 16, 16}[part]
						copy(d[12+16*i+a:12+16*i+z], d0[12+16*j+a:12+16*j+z])
						if err := tryBytes(r, d, 1); err != nil {
							return fmt.Errorf("record %d takes part %d of record %d: %v", i, part, j, err)
						}
					}
				}
			}
			for n := 0; n <= nt+3; n++ {
				d := clone(d0)
				put16(d, 4, uint16(n))
				if err := tryBytes(r, d, 1); err != nil {
					return fmt.Errorf("%d records: %v", n, err)
				}
			}
			for mask := 0; mask < 1<<nt; mask++ { // every set of tables renamed away
				d := clone(d0)
				for i := 0; i < nt; i++ {
					if mask>>i&1 == 1 {
						d[12+16*i] ^= 0x80
					}
				}
				if mask&(mask-1) != 0 && !c.Thorough() && mask%7 != 0 {
					continue
				}
				if err := tryBytes(r, d, 0); err != nil {
					return fmt.Errorf("tables %b missing: %v", mask, err)
				}
			}
			return nil
		})
	}
	c.Emit("short files", func(r *Rec) error {
		r.Trace(1)
		for n := 0; n < 64; n++ {
			for _, v := range []byte{0, 1, 0xFF, 0x7F} {
				if err := tryBytes(r, bytes.Repeat([]byte{v}, n), 1); err != nil {
					return err
				}
			}
		}
		for v := 0; v < 65536; v++ {
			if err := tryBytes(r, []byte{0, 1, 0, 0, byte(v >> 8), byte(v), 0, 0, 0, 0, 0, 0}, 0); err != nil {
				return err
			}
		}
		return nil
	})
	k := c.Pick(1, 2)
	c.Bound("well_formed_max_deviations", k)
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("well formed/"+name, func(r *Rec) error {
			r.Trace(1)
			d, _ := mk().Encode()
			return tryBytes(r, d, c.Pick(2, 1))
		})
	})
	// Counts that disagree: glyph count, metric count and loca length against the tables.
	c.Emit("counts", func(r *Rec) error {
		r.Trace(1)
		for _, b := range []string{"std", "long", "sparse", "nohmtx", "noglyf"} {
			for _, x := range cp {
				if x.Name != b {
					continue
				}
				d0, locs := x.Mk().Encode()
				cs := []uint16{0, 1, 2, 4, 5, 6, 7, 8, 100, 32768, 65535}
				for _, n := range cs {
					for _, h := range cs {
						for _, lf := range []uint16{0, 1, 2, 0xFFFF} {
							d := clone(d0)
							put16(d, locs["maxp"].Off+4, n)
							put16(d, locs["hhea"].Off+34, h)
							put16(d, locs["head"].Off+50, lf)
							if err := tryBytes(r, d, 1); err != nil {
								return fmt.Errorf("%s: %d glyphs, %d metrics, loca format %d: %v", b, n, h, lf, err)
							}
						}
					}
				}
			}
		}
		return nil
	})
	c.Emit("files", func(r *Rec) error {
		r.Trace(1)
		dir := scratchDir()
		for _, p := range []string{filepath.Join(dir, "no such file"), dir, "", "/dev/null", filepath.Join(dir, "a", "b"), "x\x00y"} {
			f, err := unitype.ParseFile(p)
			if err == nil || f != nil {
				return fmt.Errorf("ParseFile(%q) = %v, %v", p, f, err)
			}
			if unitype.ValidateFile(p) == nil {
				return fmt.Errorf("ValidateFile(%q) = nil", p)
			}
			r.Trans(1)
		}
		return nil
	})
}

// boundaryWords are the 16-bit values where arithmetic and table limits change, and the neighbours of v.
func boundaryWords(v uint16) []uint16 {
	seen := map[uint16]bool{v: true}
	var out []uint16
	add := func(x int) {
		if w := uint16(x); !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	for k := 0; k <= 16; k++ {
		for d := -1; d <= 1; d++ {
			add(1<<k + d)
			add(-(1 << k) + d)
		}
	}
	for x := 253; x <= 262; x++ {
		add(x)
	}
	for _, d := range []int{1, 2, 3, 4, 6, 8, 12, 16, 256} {
		add(int(v) + d)
		add(int(v) - d)
	}
	add(int(v) * 2)
	add(int(v) / 2)
	add(int(v ^ 0xFFFF))
	return out
}

// ---- C05 ----

// faultRS is a ReadSeeker whose every answer is decided by plan.
type faultRS struct {
	data   []byte
	pos    int64
	calls  int
	plan   func(call int, seek bool) int
	trace  []bool // true: seek
	broken bool
}

var errInjected = errors.New("injected I/O error")

const (
	rFull = iota
	rOne
	rHalf
	rAllButOne
	rEmpty   // 0, nil
	rDataEOF // n, EOF where n reaches the end of the data; else full
	rErr     // 0, error, once
	rErrStay // 0, error from now on
	rDataErr // half the data together with an error, once
	rSeekErr
	rSeekErrStay
)

func (f *faultRS) Read(p []byte) (int, error) {
	a := f.plan(f.calls, false)
	f.calls++
	f.trace = append(f.trace, false)
	if f.broken {
		return 0, errInjected
	}
	left := int64(len(f.data)) - f.pos
	if left < 0 {
		left = 0
	}
	n := len(p)
	if int64(n) > left {
		n = int(left)
	}
	var err error
	switch a {
	case rOne:
		if n > 1 {
			n = 1
		}
	case rHalf:
		if n > 1 {
			n = (n + 1) / 2
		}
	case rAllButOne:
		if n > 1 {
			n--
		}
	case rEmpty:
		if len(p) > 0 {
			return 0, nil
		}
	case rDataEOF:
		if int64(n) == left {
			err = io.EOF
		}
	case rErr:
		return 0, errInjected
	case rErrStay:
		f.broken = true
		return 0, errInjected
	case rDataErr:
		n = n / 2
		err = errInjected
	}
	if n == 0 && len(p) > 0 && err == nil {
		return 0, io.EOF
	}
	if n > 0 {
		copy(p[:n], f.data[f.pos:])
		f.pos += int64(n)
	}
	return n, err
}

func (f *faultRS) Seek(off int64, whence int) (int64, error) {
	a := f.plan(f.calls, true)
	f.calls++
	f.trace = append(f.trace, true)
	if f.broken || a == rSeekErr || a == rSeekErrStay {
		if a == rSeekErrStay {
			f.broken = true
		}
		return 0, errInjected
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func genC05(c *Ctx) {
	emitSysFaults(c, []string{"parse", "validate", "corrupt"}, []string{"std", "formats", "long"})
	var cp []Base
	for _, b := range corpus() {
		switch b.Name {
		case "std", "long", "formats", "sparse", "nohmtx", "layout", "post2", "post25", "names", "cmap2":
			cp = append(cp, b)
		}
	}
	cp = append(cp, Base{"large", func() *Spec { // tables and glyphs longer than the read buffer
		s := baseSpec()
		s.LocFmt = 1
		s.Glyphs[2] = simpleGlyph(9001, 2)
		s.Glyphs[4] = simpleGlyph(70003, 4)
		s.Prep = pattern(5000, 1)
		s.Cvt = pattern(8200, 2)
		s.Fpgm = pattern(4097, 3)
		s.Names.Recs = append(s.Names.Recs, NameRec{1, 0, 0, 9, pattern(6000, 5)})
		return s
	}}, Base{"many", func() *Spec {
		s := countSpec(300, 200, 1)
		s.NoGlyf = true
		s.Post = post2(300)
		s.Names.Storage = 3
		return s
	}})
	legal := []int{rOne, rHalf, rAllButOne, rEmpty, rDataEOF}
	faults := []int{rErr, rErrStay, rDataErr}
	maxDev := 2
	c.Bound("deviations", maxDev)
	for _, b := range cp {
		b := b
		data, _ := b.Mk().Encode()
		ref := func() ([]string, []bool, error) {
			rs := &faultRS{data: data, plan: func(int, bool) int { return rFull }}
			f, err := unitype.Parse(rs)
			if err != nil {
				return nil, nil, err
			}
			return observeAll(f), rs.trace, nil
		}
		_, trace, err := ref()
		if err != nil {
			c.Emit("reference/"+b.Name, func(r *Rec) error { return err })
			continue
		}
		run := func(r *Rec, d []byte, plan func(int, bool) int, want []string, mustParse bool) error {
			rs := &faultRS{data: d, plan: plan}
			r.Trans(1)
			f, err := unitype.Parse(rs)
			if err != nil {
				if f != nil {
					return errors.New("both a font and an error")
				}
				if mustParse {
					return fmt.Errorf("Parse fails for a legal reader: %v", err)
				}
				return nil
			}
			r.Count("parsed", 1)
			if err := diffObs(want, observeAll(f)); err != nil {
				return fmt.Errorf("parsed font differs: %v", err)
			}
			return nil
		}
		// Uniform styles and periodic mixtures.
		c.Emit("style/"+b.Name, func(r *Rec) error {
			want, _, _ := ref()
			r.Trace(1)
			r.Input(data)
			for _, a := range legal {
				for _, z := range append([]int{rFull}, legal...) {
					for period := 1; period <= 3; period++ {
						plan := func(i int, seek bool) int {
							if seek {
								return rFull
							}
							if i%(period+1) == 0 && z != rEmpty {
								return z
							}
							if a == rEmpty && i%2 == 0 {
								return rFull
							}
							return a
						}
						r.State(uint64(a*100+z*10+period) + hashBytes(data))
						if err := run(r, data, plan, want, true); err != nil {
							return fmt.Errorf("styles %d,%d period %d: %v", a, z, period, err)
						}
					}
				}
			}
			return nil
		})
		// Chunks of every fixed size, reads that stop at every multiple of a block size, reads cut at every position of the file.
		chunk := func(name string, sizes []int, mk func(n int) io.ReadSeeker) {
			for lo := 0; lo < len(sizes); lo += 64 {
				part := sizes[lo:min(lo+64, len(sizes))]
				c.Emit(fmt.Sprintf("%s/%s/%d", name, b.Name, lo), func(r *Rec) error {
					want, _, _ := ref()
					r.Trace(1)
					r.Input(data)
					for _, n := range part {
						r.Trans(1)
						r.State(uint64(n) + hashBytes(data)<<20 + uint64(len(name))<<60)
						f, err := unitype.Parse(mk(n))
						if err != nil {
							return fmt.Errorf("size/position %d: Parse fails for a legal reader: %v", n, err)
						}
						if err := diffObs(want, observeAll(f)); err != nil {
							return fmt.Errorf("size/position %d: parsed font differs: %v", n, err)
						}
					}
					return nil
				})
			}
		}
		var sizes, cuts []int
		lim := len(data)
		if lim > 8000 && !c.Thorough() {
			lim = 64
		}
		for n := 2; n <= min(lim, 5000); n++ {
			sizes = append(sizes, n)
		}
		for _, n := range []int{127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65535, 65536} {
			if n > lim {
				sizes = append(sizes, n)
			}
		}
		for p := 1; p < len(data); p++ {
			if lim == len(data) || p%97 == 0 || p%4096 < 2 || p%4096 == 4095 {
				cuts = append(cuts, p)
			}
		}
		if len(data) > 8000 && c.Thorough() {
			kept := cuts[:0]
			for _, p := range cuts {
				if p < 2000 || p%7 == 0 || p%4096 < 3 || p%4096 > 4093 {
					kept = append(kept, p)
				}
			}
			cuts = kept
		}
		chunk("chunk", sizes, func(n int) io.ReadSeeker { return &chunkRS{r: bytes.NewReader(data), max: n} })
		chunk("block", sizes, func(n int) io.ReadSeeker { return &chunkRS{r: bytes.NewReader(data), block: int64(n)} })
		chunk("split", cuts, func(n int) io.ReadSeeker { return &chunkRS{r: bytes.NewReader(data), at: int64(n)} })
		// One deviation at every call (and pairs of deviations).
		for i := range trace {
			i := i
			seek := trace[i]
			c.Emit(fmt.Sprintf("deviation/%s/%d", b.Name, i), func(r *Rec) error {
				want, _, _ := ref()
				r.Input(data)
				r.Trace(1)
				alts := append(append([]int{}, legal...), faults...)
				if seek {
					alts = []int{rSeekErr, rSeekErrStay}
				}
				for _, a := range alts {
					isLegal := !seek && a <= rDataEOF
					r.State(uint64(i)<<8 + uint64(a) + hashBytes(data)<<20)
					var calls int
					plan := func(k int, s bool) int {
						calls = k
						if k == i {
							return a
						}
						return rFull
					}
					if err := run(r, data, plan, want, isLegal); err != nil {
						return fmt.Errorf("answer %d to call %d: %v", a, i, err)
					}
					if maxDev < 2 || !isLegal || len(trace) > 700 {
						continue
					}
					n := calls
					for j := i + 1; j <= n; j++ {
						for _, a2 := range []int{rOne, rHalf, rEmpty, rErr, rDataErr, rSeekErr} {
							j, a2 := j, a2
							plan := func(k int, s bool) int {
								if k == i {
									return a
								}
								if k == j && s == (a2 == rSeekErr) {
									return a2
								}
								return rFull
							}
							if err := run(r, data, plan, want, a2 <= rDataEOF); err != nil {
								return fmt.Errorf("answer %d to call %d, %d to call %d: %v", a, i, a2, j, err)
							}
						}
					}
				}
				return nil
			})
		}
		// Truncation at every length, delivered in several styles.
		for lo := 0; lo < len(data); lo += 64 {
			lo := lo
			if len(data) > 8000 && !c.Thorough() && lo%1024 != 0 {
				continue
			}
			c.Emit(fmt.Sprintf("cut/%s/%d", b.Name, lo), func(r *Rec) error {
				want, _, _ := ref()
				r.Trace(1)
				for n := lo; n < lo+64 && n < len(data); n++ {
					for _, a := range []int{rFull, rOne, rHalf, rDataEOF} {
						if a == rOne && len(data) > 8000 {
							continue
						}
						a := a
						r.State(uint64(n)<<8 + uint64(a) + hashBytes(data)<<24)
						if err := run(r, data[:n], func(int, bool) int { return a }, want, false); err != nil {
							r.Input(data[:n])
							return fmt.Errorf("cut to %d of %d bytes, style %d: %v", n, len(data), a, err)
						}
					}
					// an error instead of the end
					m := n
					rs := &errAt{bytes.NewReader(data), int64(m)}
					r.Trans(1)
					f, err := unitype.Parse(rs)
					if err == nil {
						if err := diffObs(want, observeAll(f)); err != nil {
							return fmt.Errorf("bytes from %d on unreadable: %v", m, err)
						}
					}
				}
				return nil
			})
		}
	}
	// One read error at every position of the file; what comes after can be read again.
	for _, b := range append(corpus(), versions()...) {
		b := b
		data, _ := b.Mk().Encode()
		for lo := 0; lo < len(data); lo += 256 {
			lo := lo
			c.Emit(fmt.Sprintf("glitch/%s/%d", b.Name, lo), func(r *Rec) error {
				f, err := parse(data)
				if err != nil {
					return err
				}
				want := observeAll(f)
				r.Trace(1)
				r.Input(data)
				for p := lo; p < lo+256 && p < len(data); p++ {
					for k := 0; k < 4; k++ {
						g := &glitchRS{r: bytes.NewReader(data), at: int64(p), err: errInjected}
						if k&1 == 1 {
							g.err = io.EOF
						}
						if k&2 == 2 {
							g.skip = 1 // the second time the position is reached
						}
						r.Trans(1)
						r.State(uint64(p*4+k) + hashBytes(data)<<20)
						f, err := unitype.Parse(g)
						if err != nil {
							if f != nil {
								return errors.New("both a font and an error")
							}
							continue
						}
						r.Count("parsed", 1)
						if err := diffObs(want, observeAll(f)); err != nil {
							return fmt.Errorf("one %v at position %d (time %d): %v", g.err, p, g.skip+1, err)
						}
					}
				}
				return nil
			})
		}
	}
	// What kind of error it is makes no difference: every call fails with every kind.
	for _, b := range append(corpus(), versions()...) {
		b := b
		data, _ := b.Mk().Encode()
		for _, max := range []int{0, 100} {
			max := max
			c.Emit(fmt.Sprintf("kinds/%s/%d", b.Name, max), func(r *Rec) error {
				f, err := parse(data)
				if err != nil {
					return err
				}
				want := observeAll(f)
				r.Trace(1)
				r.Input(data)
				for _, kind := range errKinds {
					for mode := 0; mode < 4; mode++ {
						for call := 0; ; call++ {
							k := &kindRS{chunkRS: chunkRS{r: bytes.NewReader(data), max: max}, at: call, err: kind, withData: mode&1 == 1, forever: mode&2 == 2}
							f, err := unitype.Parse(k)
							if k.calls <= call {
								break
							}
							r.Trans(1)
							r.State(hashStrings([]string{kind.Error(), fmt.Sprint(mode, call)}) ^ hashBytes(data))
							if err != nil {
								if f != nil {
									return errors.New("both a font and an error")
								}
								continue
							}
							if err := diffObs(want, observeAll(f)); err != nil {
								return fmt.Errorf("call %d fails with %q (mode %d): %v", call, kind, mode, err)
							}
						}
					}
				}
				return nil
			})
		}
	}
	// Each table last in the file, unaligned, cut at every length inside it.
	lasts := versions()
	for _, b := range corpus() {
		switch b.Name {
		case "std", "long", "formats", "layout", "post2", "post25", "names", "cmap0", "cmap1", "cmap2", "cmap3":
			lasts = append(lasts, b)
		}
	}
	for _, b := range lasts {
		mk := b.Mk
		d0, _ := mk().Encode()
		for _, rc := range fileRecords(d0) {
			tag, n := rc.Tag, rc.Len
			for al := 1; al <= 4; al += 3 {
				al := al
				c.Emit(fmt.Sprintf("last/%s/%s/%d", b.Name, tag, al), func(r *Rec) error {
					s := mk()
					s.Last, s.Align, s.TailPad = tag, al, 0
					d, locs := s.Encode()
					if locs[tag].Off+n != len(d) {
						return nil
					}
					f, err := parse(d)
					if err != nil {
						return err
					}
					want := observeAll(f)
					r.Trace(1)
					for m := len(d) - 1; m >= len(d)-n && m >= 0; m-- {
						for _, rs := range []io.ReadSeeker{
							bytes.NewReader(d[:m]), &errAt{bytes.NewReader(d), int64(m)}, &chunkRS{r: bytes.NewReader(d[:m]), max: 1}, &chunkRS{r: bytes.NewReader(d[:m]), block: 4096, eof: true, size: int64(m)},
						} {
							r.Trans(1)
							r.State(uint64(m) + hashBytes(d)<<20)
							f, err := unitype.Parse(rs)
							if err != nil {
								if f != nil {
									return errors.New("both a font and an error")
								}
								continue
							}
							r.Count("parsed", 1)
							if err := diffObs(want, observeAll(f)); err != nil {
								r.Input(d[:m])
								return fmt.Errorf("cut to %d of %d bytes: %v", m, len(d), err)
							}
						}
					}
					return nil
				})
			}
		}
	}
	// Fonts of unusual sizes: chunked reading, errors and ends around the sizes of usual buffers.
	for _, b := range sizeFonts(false) {
		b := b
		if huge(b) {
			continue
		}
		kind, num, _ := strings.Cut(b.Name, "/")
		var n int
		fmt.Sscanf(num[strings.LastIndex(num, "/")+1:], "%d", &n)
		switch kind {
		case "names", "tags", "subtables", "languages", "fmt4", "fmt6", "fmt12", "glyphs", "post2", "tables":
			if n > 600 && n != 4097 && !c.Thorough() {
				continue
			}
		}
		c.Emit("size/"+b.Name, func(r *Rec) error {
			d, _ := b.Mk().Encode()
			f, err := parse(d)
			if err != nil {
				return err
			}
			look := observeAll
			if len(d) > 10000 { // the written file says it all
				look = func(f *Font) []string {
					b, err := write(f)
					return []string{fmt.Sprintf("file %x %v", hashBytes(b), err)}
				}
			}
			want := look(f)
			r.Trace(1)
			r.Input(d)
			check := func(what string, rs io.ReadSeeker, legal bool) error {
				r.Trans(1)
				r.State(hashBytes(d) + hashBytes([]byte(what)))
				f, err := unitype.Parse(rs)
				if err != nil {
					if f != nil {
						return fmt.Errorf("%s: both a font and an error", what)
					}
					if legal {
						return fmt.Errorf("%s: Parse fails for a legal reader: %v", what, err)
					}
					return nil
				}
				if err := diffObs(want, look(f)); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				return nil
			}
			for _, n := range []int{1000, 4095, 4096, 4097} {
				if err := check(fmt.Sprintf("chunks of %d", n), &chunkRS{r: bytes.NewReader(d), max: n, eof: true, size: int64(len(d))}, true); err != nil {
					return err
				}
			}
			var at []int
			for _, q := range []int{512, 4096, 8192, 16384, 32768, 65536, 131072, 262144} {
				at = append(at, q-1, q, q+1)
			}
			for _, rc := range fileRecords(d) {
				switch rc.Tag {
				case "head", "maxp", "hhea", "zzzz", "aaaa":
					continue
				}
				at = append(at, rc.Off+1, rc.Off+rc.Len/2, rc.Off+rc.Len-1, rc.Off+rc.Len)
				for _, q := range []int{4096, 65536} {
					if rc.Len > q {
						at = append(at, rc.Off+q-1, rc.Off+q, rc.Off+q+1)
					}
				}
			}
			for _, n := range at {
				if n <= 0 || n >= len(d) {
					continue
				}
				for k := 0; k < 3; k++ {
					var rs io.ReadSeeker
					switch k {
					case 0:
						rs = bytes.NewReader(d[:n])
					case 1:
						rs = &errAt{bytes.NewReader(d), int64(n)}
					case 2:
						rs = &glitchRS{r: bytes.NewReader(d), at: int64(n), err: errInjected}
					}
					if err := check(fmt.Sprintf("fault %d at %d of %d", k, n, len(d)), rs, false); err != nil {
						return err
					}
				}
				if err := check(fmt.Sprintf("read boundary at %d", n), &chunkRS{r: bytes.NewReader(d), at: int64(n)}, true); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// Real fonts: the same faults at a selection of calls.
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			data := rd[n]
			rs := &faultRS{data: data, plan: func(int, bool) int { return rFull }}
			f, err := unitype.Parse(rs)
			if err != nil {
				return nil
			}
			want := observeAll(f)
			r.Trace(1)
			for _, a := range []int{rHalf, rDataEOF} {
				a := a
				g, err := unitype.Parse(&faultRS{data: data, plan: func(int, bool) int { return a }})
				if err != nil {
					return fmt.Errorf("style %d: %v", a, err)
				}
				if err := diffObs(want, observeAll(g)); err != nil {
					return fmt.Errorf("style %d: %v", a, err)
				}
				r.Trans(1)
			}
			cuts := c.Pick(8, 200)
			for k := 0; k < cuts; k++ {
				m := len(data) * k / cuts
				g, err := parse(data[:m])
				r.Trans(1)
				r.State(uint64(m))
				if err == nil {
					if err := diffObs(want, observeAll(g)); err != nil {
						return fmt.Errorf("cut to %d: %v", m, err)
					}
				}
			}
			return nil
		})
	}
}

// glitchRS stops at position at and fails once there; from then on it reads on.
type glitchRS struct {
	r    *bytes.Reader
	at   int64
	skip int // times the position is passed without failing
	done bool
	err  error
}

func (g *glitchRS) Seek(o int64, w int) (int64, error) { return g.r.Seek(o, w) }
func (g *glitchRS) Read(p []byte) (int, error) {
	pos, _ := g.r.Seek(0, io.SeekCurrent)
	if pos == g.at && !g.done && len(p) > 0 {
		if g.skip > 0 {
			g.skip--
		} else {
			g.done = true
			return 0, g.err
		}
	}
	if pos < g.at && int64(len(p)) > g.at-pos {
		p = p[:g.at-pos]
	}
	return g.r.Read(p)
}

// chunkRS delivers at most max bytes per call, never crosses a multiple of block, and stops once at position at.
type chunkRS struct {
	r     *bytes.Reader
	max   int
	block int64
	at    int64
	eof   bool // the last bytes come together with io.EOF
	size  int64
}

func (c *chunkRS) Seek(o int64, w int) (int64, error) { return c.r.Seek(o, w) }
func (c *chunkRS) Read(p []byte) (int, error) {
	pos, _ := c.r.Seek(0, io.SeekCurrent)
	if c.max > 0 && len(p) > c.max {
		p = p[:c.max]
	}
	if c.block > 0 && int64(len(p)) > c.block-pos%c.block {
		p = p[:c.block-pos%c.block]
	}
	if pos < c.at && int64(len(p)) > c.at-pos {
		p = p[:c.at-pos]
	}
	n, err := c.r.Read(p)
	if err == nil && c.eof && pos+int64(n) == c.size {
		err = io.EOF
	}
	return n, err
}

// kindRS fails one call, or all calls from it, with a given error.
type kindRS struct {
	chunkRS
	at       int
	err      error
	withData bool
	forever  bool
	calls    int
}

func (k *kindRS) fails() bool {
	k.calls++
	return k.calls-1 == k.at || k.forever && k.calls-1 > k.at
}

func (k *kindRS) Seek(o int64, w int) (int64, error) {
	if k.fails() {
		if k.withData { // moved all the same
			n, _ := k.chunkRS.Seek(o, w)
			return n, k.err
		}
		return 0, k.err
	}
	return k.chunkRS.Seek(o, w)
}

func (k *kindRS) Read(p []byte) (int, error) {
	if k.fails() {
		n := 0
		if k.withData {
			n, _ = k.chunkRS.Read(p)
		}
		return n, k.err
	}
	return k.chunkRS.Read(p)
}

type passing struct{ error }

func (passing) Temporary() bool { return true }
func (passing) Timeout() bool   { return true }

// errKinds are the errors that code could treat in a special way.
var errKinds = []error{errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, bufio.ErrBufferFull, bytes.ErrTooLarge,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.EIO, syscall.EINVAL, syscall.ESPIPE, os.ErrClosed, os.ErrNotExist, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	passing{errInjected}, fmt.Errorf("wrapped: %w", io.EOF), &os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}, errors.New("EOF"), errors.New("")}

// errAt reads normally up to a position and fails beyond it.
type errAt struct {
	r   *bytes.Reader
	pos int64
}

func (e *errAt) Seek(o int64, w int) (int64, error) { return e.r.Seek(o, w) }
func (e *errAt) Read(p []byte) (int, error) {
	at, _ := e.r.Seek(0, io.SeekCurrent)
	if at >= e.pos {
		return 0, errInjected
	}
	if int64(len(p)) > e.pos-at {
		p = p[:e.pos-at]
	}
	return e.r.Read(p)
}

// ---- C06 ----

// faultW accepts limit bytes and then fails in the given way.
type faultW struct {
	got   []byte
	limit int
	mode  int
	once  bool
	done  bool
	err   error // nil: errInjected
}

func (w *faultW) Write(p []byte) (int, error) {
	if w.done && w.once {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.done = true
	fault := w.err
	if fault == nil {
		fault = errInjected
	}
	k := w.limit - len(w.got)
	if k < 0 {
		k = 0
	}
	switch w.mode {
	case 0: // short write with error
		w.got = append(w.got, p[:k]...)
		return k, fault
	case 1: // nothing written
		return 0, fault
	case 2: // short write without error
		w.got = append(w.got, p[:k]...)
		return k, nil
	case 3: // everything counted, yet an error
		w.got = append(w.got, p...)
		return len(p), fault
	}
	return 0, nil // nothing written, no error
}

func writeTargets() []struct {
	name string
	mk   func() (*Font, error)
} {
	type target = struct {
		name string
		mk   func() (*Font, error)
	}
	var out []target
	for _, b := range corpus() {
		b := b
		data, _ := b.Mk().Encode()
		out = append(out, target{b.Name, func() (*Font, error) { return parse(data) }})
		if b.Name == "std" || b.Name == "formats" || b.Name == "long" {
			out = append(out, target{b.Name + ".first", func() (*Font, error) {
				f, err := parse(data)
				if err != nil {
					return nil, err
				}
				return f.SubsetFirst(4)
			}}, target{b.Name + ".keep", func() (*Font, error) {
				f, err := parse(data)
				if err != nil {
					return nil, err
				}
				g, err := f.SubsetKeepIndices([]GID{3})
				if err == nil {
					g.Optimize()
				}
				return g, err
			}})
		}
	}
	return out
}

func genC06(c *Ctx) {
	// Files of unusual sizes: the sink fails at the edges of tables and of usual buffers.
	for _, b := range sizeFonts(false) {
		b := b
		if huge(b) {
			continue
		}
		c.Emit("size/"+b.Name, func(r *Rec) error {
			d, _ := b.Mk().Encode()
			f, err := parse(d)
			if err != nil {
				return err
			}
			ref, err := write(f)
			if err != nil {
				return err
			}
			r.Trace(1)
			at := []int{0, 1, 12, len(ref) - 1, len(ref) - 2, len(ref) - 4, len(ref) / 2}
			for _, q := range []int{512, 4096, 8192, 16384, 32768, 65536, 131072, 262144} {
				at = append(at, q-1, q, q+1)
			}
			for _, rc := range fileRecords(ref) {
				at = append(at, rc.Off-1, rc.Off, rc.Off+1, rc.Off+rc.Len)
			}
			for _, k := range at {
				if k < 0 || k >= len(ref) {
					continue
				}
				for mode := 0; mode < 5; mode++ {
					w := &faultW{limit: k, mode: mode, once: mode%2 == 1}
					if err := f.Write(w); err == nil {
						return fmt.Errorf("sink failing at byte %d of %d (mode %d): Write returns nil after delivering %d bytes", k, len(ref), mode, len(w.got))
					}
					r.Trans(1)
					r.State(uint64(k)<<8 + uint64(mode) + hashBytes(ref)<<24)
				}
			}
			b2, err := write(f)
			if err != nil {
				return fmt.Errorf("after failed Writes: %v", err)
			}
			return diffBytes("file written after failed Writes", b2, ref)
		})
	}
	for _, t := range writeTargets() {
		t := t
		c.Emit("sink/"+t.name, func(r *Rec) error {
			f, err := t.mk()
			if err != nil {
				return err
			}
			ref, err := write(f)
			if err != nil {
				return err
			}
			want := observeAll(f)
			for _, kind := range errKinds {
				for _, mode := range []int{0, 1, 3} {
					for k := 0; k < len(ref); k++ {
						for rep := 0; rep < 2; rep++ {
							w := &faultW{limit: k, mode: mode, once: rep == 1, err: kind}
							if f.Write(w) == nil {
								return fmt.Errorf("sink failing at byte %d with %q (mode %d): Write returns nil", k, kind, mode)
							}
							r.Trans(1)
						}
					}
				}
				r.State(hashBytes([]byte(kind.Error())))
			}
			for mode := 0; mode < 5; mode++ {
				for k := 0; k < len(ref); k++ {
					for rep := 0; rep < 2; rep++ {
						w := &faultW{limit: k, mode: mode, once: rep == 1}
						if err := f.Write(w); err == nil {
							if !bytes.Equal(w.got, ref) {
								return fmt.Errorf("sink failing at byte %d (mode %d): Write returns nil after delivering %d of %d bytes", k, mode, len(w.got), len(ref))
							}
							return fmt.Errorf("sink failing at byte %d (mode %d): Write returns nil", k, mode)
						}
						r.Trans(1)
						r.State(uint64(k)<<8 + uint64(mode) + hashBytes(ref)<<24)
						if k%4 == 0 || c.Thorough() {
							b, err := write(f)
							if err != nil {
								return fmt.Errorf("after a failed Write (byte %d): %v", k, err)
							}
							if err := diffBytes(fmt.Sprintf("file written after a failed Write (byte %d, mode %d)", k, mode), b, ref); err != nil {
								return err
							}
						}
					}
				}
				if err := diffObs(want, observeAll(f)); err != nil {
					return fmt.Errorf("after failed Writes: %v", err)
				}
			}
			r.Trace(1)
			// A sink that is exactly large enough.
			w := &faultW{limit: len(ref)}
			if err := f.Write(w); err != nil || !bytes.Equal(w.got, ref) {
				return fmt.Errorf("sink with room for exactly the file: %v, %d of %d bytes", err, len(w.got), len(ref))
			}
			bw := bufio.NewWriterSize(&w2{}, 16)
			return f.Write(bw)
		})
		c.Emit("file/"+t.name, func(r *Rec) error {
			f, err := t.mk()
			if err != nil {
				return err
			}
			ref, err := write(f)
			if err != nil {
				return err
			}
			dir, err := os.MkdirTemp(scratchDir(), "wf")
			if err != nil {
				return nil
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "out.ttf")
			states := [][]byte{nil, {}, pattern(1, 1), pattern(len(ref)-1, 2), pattern(len(ref), 3), pattern(len(ref)+1, 4), pattern(3*len(ref)+100000, 5), ref}
			for i, st := range states {
				os.Remove(p)
				if i > 0 {
					if err := os.WriteFile(p, st, 0o644); err != nil {
						return nil
					}
				}
				if err := f.WriteFile(p); err != nil {
					return fmt.Errorf("WriteFile over %d bytes: %v", len(st), err)
				}
				got, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				if err := diffBytes(fmt.Sprintf("file content (previously %d bytes)", len(st)), got, ref); err != nil {
					return err
				}
				if err := fileAgrees(p, ref); err != nil {
					return err
				}
				r.Trans(1)
				r.State(uint64(i) + hashBytes(ref)<<8)
			}
			// over files that are nearly the one to be written
			step := 1 + len(ref)/4000
			if c.Thorough() {
				step = 1 + len(ref)/20000
			}
			for k := 0; k <= len(ref); k += step {
				near := [][]byte{clone(ref[:k])}
				if k < len(ref) {
					d := clone(ref)
					d[k] ^= 1 << (k % 8)
					near = append(near, d, append(clone(ref[:k]), make([]byte, len(ref)-k)...))
				}
				if k%16 == 0 {
					near = append(near, append(clone(ref), pattern(1+k/16, k)...), append(clone(ref[:k]), ref...))
				}
				for _, st := range near {
					if os.WriteFile(p, st, 0o644) != nil {
						return nil
					}
					if k%2 == 1 {
						late := time.Now().Add(24 * time.Hour)
						os.Chtimes(p, late, late)
					}
					if err := f.WriteFile(p); err != nil {
						return fmt.Errorf("WriteFile over the same file changed at %d: %v", k, err)
					}
					got, err := os.ReadFile(p)
					if err != nil {
						return err
					}
					if err := diffBytes(fmt.Sprintf("file content (previously the same file changed at %d, %d bytes)", k, len(st)), got, ref); err != nil {
						return err
					}
					r.Trans(1)
				}
			}
			r.Trace(1)
			// through a symbolic link
			l := filepath.Join(dir, "link")
			if os.Symlink(p, l) == nil {
				if err := f.WriteFile(l); err != nil {
					return err
				}
				if got, _ := os.ReadFile(p); !bytes.Equal(got, ref) {
					return errors.New("WriteFile through a symbolic link")
				}
			}
			for _, bad := range []string{dir, filepath.Join(dir, "no", "such"), "", filepath.Join(p, "x"), filepath.Join(dir, strings.Repeat("n", 300))} {
				if f.WriteFile(bad) == nil {
					return fmt.Errorf("WriteFile(%.60q) reports no error", bad)
				}
				r.Trans(1)
			}
			if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&os.ModeDevice != 0 {
				full := filepath.Join(dir, "full")
				os.Symlink("/dev/full", full)
				if f.WriteFile(full) == nil {
					return errors.New("WriteFile to a full device reports no error")
				}
			}
			b, err := write(f)
			if err != nil {
				return err
			}
			return diffBytes("file after failed WriteFile calls", b, ref)
		})
	}
	// ParseFile and ValidateFile agree with Parse and ValidateBytes on good, cut and corrupted files.
	for _, b := range corpus() {
		b := b
		c.Emit("agree/"+b.Name, func(r *Rec) error {
			data, _ := b.Mk().Encode()
			dir, err := os.MkdirTemp(scratchDir(), "pf")
			if err != nil {
				return nil
			}
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "in.ttf")
			try := func(d []byte) error {
				if err := os.WriteFile(p, d, 0o600); err != nil {
					return nil
				}
				r.Trans(1)
				r.State(hashBytes(d))
				r.Input(d)
				return fileAgrees(p, d)
			}
			r.Trace(1)
			if err := try(data); err != nil {
				return err
			}
			step := 1
			for o := 0; o < len(data); o += step {
				d := clone(data)
				d[o] ^= 0x41
				if err := try(d); err != nil {
					return fmt.Errorf("byte %d changed: %v", o, err)
				}
				if err := try(data[:o]); err != nil {
					return fmt.Errorf("cut to %d: %v", o, err)
				}
			}
			return nil
		})
	}
	// A file size limit makes the write fail at every byte.
	emitLimits(c, "fsize")
	// Every system call on the file fails.
	emitSysFaults(c, []string{"write"}, []string{"tiny", "std", "std.first", "formats", "long.keep"})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			f, err := parse(rd[n])
			if err != nil {
				return nil
			}
			ref, err := write(f)
			if err != nil {
				return err
			}
			r.Trace(1)
			ks := []int{0, 1, 11, 12, 4095, 4096, 4097, len(ref) / 2, len(ref) - 1}
			for _, k := range ks {
				for mode := 0; mode < 5; mode++ {
					if f.Write(&faultW{limit: k, mode: mode}) == nil {
						return fmt.Errorf("sink failing at byte %d (mode %d): Write returns nil", k, mode)
					}
					r.Trans(1)
					r.State(uint64(k))
				}
			}
			b, err := write(f)
			if err != nil {
				return err
			}
			return diffBytes("file after failed Writes", b, ref)
		})
	}
}

func emitLimits(c *Ctx, helper string) {
	for _, n := range []string{"tiny", "std", "std.first"} {
		n := n
		c.Emit("limit/"+n, func(r *Rec) error {
			self, err := os.Executable()
			if err != nil {
				return nil
			}
			dir, err := os.MkdirTemp(scratchDir(), "lim")
			if err != nil {
				return nil
			}
			defer os.RemoveAll(dir)
			out, err := exec.Command(self, "helper", helper, n, dir).CombinedOutput()
			last := strings.TrimSpace(string(out))
			if err != nil {
				return fmt.Errorf("%v: %s", err, last)
			}
			var k int
			if _, e := fmt.Sscanf(last, "tried %d", &k); e == nil {
				r.Trans(k)
				r.Trace(1)
				r.Count("file size limits", k)
				r.State(uint64(k))
			}
			return nil
		})
	}
}

type w2 struct{}

func (*w2) Write(p []byte) (int, error) { return len(p), nil }

// fileAgrees: ParseFile and ValidateFile on path behave as Parse and ValidateBytes on the content.
func fileAgrees(path string, d []byte) error {
	f1, e1 := parse(d)
	f2, e2 := unitype.ParseFile(path)
	if (e1 != nil) != (e2 != nil) {
		return fmt.Errorf("Parse: %v; ParseFile: %v", e1, e2)
	}
	if e1 == nil {
		if err := diffObs(observeAll(f1), observeAll(f2)); err != nil {
			return fmt.Errorf("ParseFile: %v", err)
		}
	} else if f2 != nil {
		return errors.New("ParseFile returns a font and an error")
	}
	v1, v2 := unitype.ValidateBytes(clone(d)), unitype.ValidateFile(path)
	if (v1 != nil) != (v2 != nil) {
		return fmt.Errorf("ValidateBytes: %v; ValidateFile: %v", v1, v2)
	}
	return nil
}

// fsizeHelper runs in a process of its own because the limit applies to the whole process.
func fsizeHelper(name, dir string, tidy bool) int {
	signal.Ignore(syscall.SIGXFSZ)
	for _, t := range writeTargets() {
		if t.name != name {
			continue
		}
		f, err := t.mk()
		if err != nil {
			fmt.Println(err)
			return 1
		}
		ref, err := write(f)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		var old syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
			fmt.Println("tried 0")
			return 0
		}
		p := filepath.Join(dir, "o.ttf")
		debug.SetGCPercent(-1) // forgotten files stay open
		fds := openFiles()
		for k := 0; k <= len(ref); k++ {
			lim := old
			lim.Cur = uint64(k)
			if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
				fmt.Println("tried 0")
				return 0
			}
			os.Remove(p)
			err := f.WriteFile(p)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
			if l := listDir(dir); tidy && (len(l) > 1 || len(l) == 1 && l[0] != "o.ttf") {
				fmt.Printf("file size limited to %d bytes: leaves files %q\n", k, l)
				return 1
			}
			if now := openFiles(); tidy && now != fds {
				fmt.Printf("file size limited to %d bytes: open files were %q, are %q\n", k, fds, now)
				return 1
			}
			if k < len(ref) && err == nil {
				fmt.Printf("file size limited to %d of %d bytes: WriteFile reports no error\n", k, len(ref))
				return 1
			}
			if k == len(ref) {
				got, _ := os.ReadFile(p)
				if err != nil || !bytes.Equal(got, ref) {
					fmt.Printf("file size limited to exactly the file: %v, %d of %d bytes\n", err, len(got), len(ref))
					return 1
				}
			}
		}
		fmt.Printf("tried %d\n", len(ref)+1)
		return 0
	}
	return 3
}

func helperMain(args []string) int {
	if len(args) == 3 && args[0] == "fsize" {
		return fsizeHelper(args[1], args[2], false)
	}
	if len(args) == 3 && args[0] == "tidy" {
		return fsizeHelper(args[1], args[2], true)
	}
	if len(args) == 8 && args[0] == "syscall" {
		return sysHelper(args[1:])
	}
	if len(args) > 6 && args[0] == "exec" {
		return execHelper(args[1:])
	}
	if len(args) == 1 && args[0] == "alive" {
		fmt.Println("alive")
		return 0
	}
	if len(args) == 2 && args[0] == "words" {
		return wordsHelper(args[1])
	}
	if len(args) == 1 && args[0] == "hash" {
		return hashHelper()
	}
	if len(args) > 1 && args[0] == "sched" {
		return schedHelper(args[1:])
	}
	return 3
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking",
		Rule: "accept: every font with at most k deviations, large tables, records sharing bytes. reject: for each font of a corpus, every byte changed (thorough: to all 255 other values), every truncation inside a table, every record checksum changed and every table byte changed with the file sum made consistent again or compensated in another table; through ValidateBytes and ValidateFile",
		Gen:  genC03})
	register(&Check{ID: "C04", Level: "model_checking",
		Rule: "for each font of a corpus: every byte at boundary values (thorough: all 256), every 32-bit word at extreme values, every pair of 16-bit words at extreme values, every truncation, every directory record pointed at every other table, every set of tables missing, every combination of disagreeing counts; on every accepted input the whole exported API, on derived, pruned and optimized fonts too. A panic, crash, runaway memory or non-termination is a violation",
		Gen:  genC04})
	register(&Check{ID: "C05", Level: "model_checking",
		Rule: "the ReadSeeker is the environment: every call of Read and Seek made by Parse is a choice point with answers full, 1 byte, half, all but one, empty, data with EOF, error once, error for good, data with error, seek error; all executions with at most d deviations from full answers, uniform and periodic styles, chunks and blocks of every size, a read boundary at every file position, each table last in the file and cut at every length inside it, and truncation or an unreadable tail at every length in several styles. Legal answers must give the identical observation, faults an error or the identical observation",
		Gen:  genC05})
	register(&Check{ID: "C06", Level: "model_checking",
		Rule: "the sink fails at every byte of every file in 5 ways, once or for good, followed by a good write; WriteFile over every kind of previous content, bad paths, a full device and a file size limit at every byte (own process); ParseFile and ValidateFile against Parse and ValidateBytes on intact, cut and changed files",
		Gen:  genC06})
}
