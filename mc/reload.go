//go:build go1.22

// C23: a font in memory and the font parsed from the file it writes are interchangeable, at every point of a history.

package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/unidoc/unitype"
)

// reload writes f and parses what it wrote (through a file if viaFile).
func reload(f *Font, viaFile bool) (*Font, []byte, error) {
	b, err := write(f)
	if err != nil {
		return nil, nil, fmt.Errorf("Write: %v", err)
	}
	if viaFile {
		p := scratchFile("reload")
		defer os.Remove(p)
		if err := f.WriteFile(p); err != nil {
			return nil, nil, fmt.Errorf("WriteFile: %v", err)
		}
		g, err := unitype.ParseFile(p)
		if err != nil {
			return nil, nil, fmt.Errorf("ParseFile of the written file: %v", err)
		}
		return g, b, nil
	}
	g, err := parse(b)
	if err != nil {
		return nil, nil, fmt.Errorf("Parse of the written file: %v", err)
	}
	return g, b, nil
}

// answers are the answers that do not depend on where the font came from: locations relative to the first glyph's,
// and no table records. Names of languages the font has none for, subtables of unsupported formats and dumps of whole
// structures are not part of it.
func answers(f *Font) []string {
	var out []string
	for _, l := range observeQueries(f, false) {
		if !strings.HasPrefix(l, "GetGlyphDataOffset") {
			out = append(out, l)
		}
	}
	o0, _, err0 := f.GetGlyphDataOffset(0)
	for _, g := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 127, 128, 255, 256, 257, 258, 1000, 32767, 32768, 65534, 65535} {
		o, n, err := f.GetGlyphDataOffset(GID(g))
		if err != nil || err0 != nil {
			o, n = 0, 0
		} else {
			o -= o0
		}
		out = append(out, fmt.Sprintf("GetGlyphDataOffset(%d) first+%d %d %v", g, o, n, err != nil))
	}
	for _, t := range []string{"hmtx", "glyf", "loca"} {
		out = append(out, "TableInfo "+tableInfo(f, t))
	}
	return out
}

// runReload runs a history on a font directly and, for every set of points in it, with the font replaced at these
// points by the one parsed from the file it writes; all runs must end alike.
func runReload(r *Rec, data []byte, path ...Op) error {
	var masks []int
	for mask := 1; mask < 1<<uint(len(path)+1); mask++ {
		masks = append(masks, mask)
	}
	return runReloadAt(r, data, masks, path...)
}

// runReloadAt does so for some sets of points (bits).
func runReloadAt(r *Rec, data []byte, masks []int, path ...Op) error {
	r.Input(data)
	run := func(mask int, viaFile bool) (*Font, string, error) {
		f, err := parse(data)
		if err != nil {
			return nil, "", fmt.Errorf("Parse: %v", err)
		}
		errs := ""
		for i := 0; i <= len(path); i++ {
			if mask>>uint(i)&1 == 1 {
				if f, _, err = reload(f, viaFile); err != nil {
					return nil, "", err
				}
			}
			if i == len(path) {
				break
			}
			f2, err := path[i].Impl(f)
			if err != nil {
				errs += fmt.Sprintf("%s: %v; ", path[i].Name, err)
			} else {
				f = f2
			}
			r.Trans(1)
		}
		return f, errs, nil
	}
	name := ""
	for _, o := range path {
		name += o.Name + "; "
	}
	ref, refErrs, err := run(0, false)
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	want, err := write(ref)
	if err != nil {
		return fmt.Errorf("%s: Write: %v", name, err)
	}
	r.State(hashBytes(want))
	say := answers(ref)
	for _, mask := range masks {
		for _, viaFile := range []bool{false, true} {
			if viaFile && mask != 1<<uint(len(path)) {
				continue
			}
			f, errs, err := run(mask, viaFile)
			if err != nil {
				return fmt.Errorf("%s (reloads %b): %v", name, mask, err)
			}
			if errs != refErrs {
				return fmt.Errorf("%s: errors %q, with reloads %b %q", name, refErrs, mask, errs)
			}
			if err := diffObs(say, answers(f)); err != nil {
				return fmt.Errorf("%s, with reloads %b: %v", name, mask, err)
			}
			b, err := write(f)
			if err != nil {
				return fmt.Errorf("%s, with reloads %b: Write: %v", name, mask, err)
			}
			if err := diffBytes("written file", b, want); err != nil {
				return fmt.Errorf("%s, with reloads %b: %v", name, mask, err)
			}
			r.Trace(1)
		}
	}
	r.Sample("%s", name)
	return nil
}

// opLook does the operation on the side: the font stays.
func opLook(o Op) Op {
	return Op{"(" + o.Name + " on the side)", true,
		func(f *Font) (*Font, error) { o.Impl(f); return f, nil },
		func(m *Model) (*Model, error) { return m, nil }}
}

func genC23(c *Ctx) {
	all := stdOps()
	one := func(key string, ops []Op, first int, depth int, full bool, mk func() []byte) {
		c.Emit(key+"/"+ops[first].Name, func(r *Rec) error {
			data := mk()
			var rec func(path []Op) error
			rec = func(path []Op) error {
				var err error
				if full {
					err = runReload(r, data, path...)
				} else {
					var masks []int
					for i := range path {
						masks = append(masks, 2<<uint(i))
					}
					err = runReloadAt(r, data, masks, path...)
				}
				if err != nil {
					return err
				}
				if len(path) == depth {
					return nil
				}
				for _, o := range ops {
					if err := rec(append(path[:len(path):len(path)], o)); err != nil {
						return err
					}
				}
				return nil
			}
			return rec([]Op{ops[first]})
		})
	}
	enc := func(mk func() *Spec) func() []byte { return func() []byte { d, _ := mk().Encode(); return d } }
	c.Bound("operations per history, all", c.Pick(2, 3))
	for _, b := range bases() {
		for i := range all {
			one("ops/"+b.Name, all, i, 2, true, enc(b.Mk))
		}
	}
	few := []Op{opFirst(5), opFirst(2), opKeep(2), opKeep(1, 4), opRunes("BC\U0001F600"), opPrune("cmap"), opPrune("name", "post"), opOptimize(),
		opLook(opKeep(5)), opLook(opFirst(3)), opKeep(3, 5)}
	c.Bound("operations per history, few", 3)
	for _, b := range vbases() {
		for i := range few {
			one("deep/"+b.Name, few, i, 3, c.Thorough(), enc(b.Mk))
		}
	}
	c.Bound("max_deviations, all single operations", c.Pick(1, 2))
	c.Bound("max_deviations, some single operations", c.Pick(2, 3))
	short := []Op{opFirst(2), opFirst(5), opKeep(2), opKeep(0, 4), opRunes("AB\u03b1"), opPrune("cmap"), opPrune("post", "name"), opOptimize()}
	eachFont(c.Pick(2, 3), func(name string, mk func() *Spec) {
		c.Emit("font/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			if err := runReload(r, data); err != nil {
				return err
			}
			for i, o := range short {
				if strings.Count(name, ",") > c.Pick(1, 2) && i != 1 && i != 2 {
					continue
				}
				if err := runReload(r, data, o); err != nil {
					return err
				}
			}
			return nil
		})
	})
	for _, b := range sizeFonts(c.Thorough()) {
		b := b
		if huge(b) {
			continue
		}
		c.Emit("size/"+b.Name, func(r *Rec) error {
			s := b.Mk()
			n := modelOf(s).N
			data, _ := s.Encode()
			if err := runReload(r, data); err != nil {
				return err
			}
			for i, o := range []Op{opFirst((n + 1) / 2), opFirst(n - 1), opKeep(n-1, n/2), opRunes("AB"), opOptimize(), opPrune("cmap")} {
				if n > 5000 && i > 0 && !c.Thorough() {
					break
				}
				if err := runReload(r, data, o); err != nil {
					return err
				}
			}
			return nil
		})
	}
	emitContents(c, true, func(r *Rec, mk func() *Spec) error {
		data, _ := mk().Encode()
		for _, o := range []Op{opFirst(4), opKeep(3)} {
			if err := runReload(r, data, o); err != nil {
				return err
			}
		}
		return nil
	})
	// Every sequence of widths, split into full metrics and trailing bearings everywhere.
	maxN := c.Pick(5, 6)
	c.Bound("glyphs of width sequences", maxN)
	for n := 2; n <= maxN; n++ {
		for nhm := 1; nhm <= n; nhm++ {
			n, nhm := n, nhm
			c.Emit(fmt.Sprintf("widths/%d/%d", n, nhm), func(r *Rec) error {
				for v := 0; v < pow(3, nhm); v++ {
					s := smallSpec(graphGlyphs(n, 0))
					s.NHM, s.Metrics = nhm, mkMetrics(n, nhm)
					for i, x := 0, v; i < n; i++ {
						if i < nhm {
							s.Metrics[i].Adv = uint16(500 + x%3)
							x /= 3
						} else {
							s.Metrics[i].Adv = s.Metrics[nhm-1].Adv
						}
					}
					data, _ := s.Encode()
					ops := []Op{opOptimize()}
					for k := 1; k < n; k++ {
						ops = append(ops, opFirst(k), opKeep(k))
					}
					for _, a := range ops {
						for _, b := range ops {
							if err := runReloadAt(r, data, []int{1, 2}, a, b); err != nil {
								return fmt.Errorf("widths %v, %d full: %v", s.Metrics, nhm, err)
							}
						}
					}
				}
				return nil
			})
		}
	}
	// Every component relation on three glyphs: two sets kept one after another, before and after looking at all.
	for part := 0; part < 64; part++ {
		part := part
		c.Emit(fmt.Sprintf("graph/%d", part), func(r *Rec) error {
			for rel := part; rel < 512; rel += 64 {
				data, _ := smallSpec(graphGlyphs(3, rel)).Encode()
				for a := 0; a < 8; a++ {
					for b := 0; b < 8; b++ {
						x, y := opKeep(subsetOf(3, a|4)...), opKeep(subsetOf(3, b)...)
						if err := runReloadAt(r, data, []int{2, 4}, opLook(opKeep(0, 1, 2)), x, y); err != nil {
							return fmt.Errorf("relation %#x: %v", rel, err)
						}
						if err := runReloadAt(r, data, []int{2}, opFirst(a%3+1), y); err != nil {
							return fmt.Errorf("relation %#x: %v", rel, err)
						}
					}
				}
			}
			return nil
		})
	}
	// Every map of three codes to four glyphs in every format.
	for pi, codes := range [][]int{{0x41, 0x42, 0x43}, {0x20, 0x41, 0xFF}, {0x41, 0x42, 0x151}} {
		for v := 0; v < 64; v++ {
			codes, v := codes, v
			c.Emit(fmt.Sprintf("map/%d/%d", pi, v), func(r *Rec) error {
				for _, sub := range mapSubs(codes, []int{v % 4, v / 4 % 4, v / 16}) {
					data, _ := plainSpec(4, sub).Encode()
					for k := 1; k < 4; k++ {
						for j := 1; j <= k; j++ {
							if err := runReload(r, data, opFirst(k), opFirst(j)); err != nil {
								return err
							}
							if err := runReloadAt(r, data, []int{2}, opKeep(k), opRunes("AB")); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
	}
	names, rd := realFonts()
	for _, n := range names {
		n := n
		ops := []Op{opFirst(100), opKeep(40, 300, 7), opRunes("Hello \u00e9"), opPrune("cmap"), opPrune("post"), opOptimize()}
		for i := range ops {
			one("real/"+n, ops, i, c.Pick(1, 2), true, func() []byte { return rd[n] })
		}
	}
	// Three operations each, reloading once, last: there are many.
	if c.Thorough() {
		for _, b := range bases() {
			for i := range all {
				one("three/"+b.Name, all, i, 3, false, enc(b.Mk))
			}
		}
	}
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}

func init() {
	register(&Check{ID: "C23", Level: "model_checking",
		Rule:   "every operation sequence up to the depth bound on the base fonts, with the font replaced by the one parsed from the file it writes at every subset of the points between the operations (the last point also through WriteFile and ParseFile); every font with at most k deviations, every font of unusual size and the sample fonts with every single operation; width sequences, component relations and small maps with two or three operations: same errors, same answers, same written bytes as without reloading",
		Assume: []string{"table records, dumps of whole structures and the position of the first glyph's data belong to the file a font was parsed from and are not compared"},
		Gen:    genC23})
}
