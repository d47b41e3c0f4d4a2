//go:build go1.22

// C22: what TableInfo, String and "truecli info --cmappings" say about a font is true of it.

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	infoRecCount = regexp.MustCompile(`(?m)^trec: present with (\d+) table records$`)
	infoRec      = regexp.MustCompile(`(?m)^(.{0,4}): (\d+(?:\.\d+)?) (B|kB|MB)$`)
	infoHhea     = regexp.MustCompile(`numHMetrics: (\d+)`)
	infoHmtx     = regexp.MustCompile(`hmetrics: (\d+), leftSideBearings: (\d+)`)
	infoCmapN    = regexp.MustCompile(`(?m)^cmap: encoding records: \d+ subtables: (\d+)$`)
	infoCmapVer  = regexp.MustCompile(`(?m)^cmap version: (\d+)$`)
	infoSub      = regexp.MustCompile(`^cmap subtable: (\d+),(\d+),(\d+)[^:]*: runes: \d+$`)
	infoCode     = regexp.MustCompile(`^\t(\d+) - Charcode (\d+) \(0x([0-9A-F]+)\) - rune +(-?[0-9A-F]+)$`)
	infoLoca     = regexp.MustCompile(`(?m)^- (Short|Long) offsets: (\d+)$`)
	infoGlyf     = regexp.MustCompile(`present: (\d+) descriptions \(([\d.]+) kB\)`)
	infoPost     = regexp.MustCompile(`(?m)^post table present: (\d+) numGlyphs$`)
)

func intsOf(re *regexp.Regexp, s string) ([]int, error) {
	m := re.FindStringSubmatch(s)
	if m == nil {
		return nil, fmt.Errorf("%.80q states no count", s)
	}
	var out []int
	for _, t := range m[1:] {
		n, err := strconv.Atoi(t)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}

// agreeInfo checks the texts for a font that means m. src is the file it was parsed from (whose table records are
// reported), x what the file it writes holds.
func agreeInfo(f *Font, src []byte, m *Model, x *Decoded) error {
	t := f.TableInfo("trec")
	if s := f.String(); s != t {
		return fmt.Errorf("String() is %.80q, TableInfo(trec) %.80q", s, t)
	}
	recs := fileRecords(src)
	n, err := intsOf(infoRecCount, t)
	if err != nil {
		return err
	}
	lines := infoRec.FindAllStringSubmatch(t, -1)
	if n[0] != len(recs) || len(lines) != len(recs) {
		return fmt.Errorf("trec states %d records and lists %d, the file has %d", n[0], len(lines), len(recs))
	}
	for i, r := range recs {
		v, _ := strconv.ParseFloat(lines[i][2], 64)
		unit := map[string]float64{"B": 1, "kB": 1024, "MB": 1024 * 1024}[lines[i][3]]
		if lines[i][1] != strings.TrimSpace(r.Tag) || math.Abs(v*unit-float64(r.Len)) > 0.00501*unit {
			return fmt.Errorf("trec says %q for table %q of %d bytes", lines[i][0], r.Tag, r.Len)
		}
	}
	present := map[string]bool{"head": true, "hhea": true, "os2": m.OS2 != nil, "hmtx": m.Metrics != nil, "cmap": m.HasCmap,
		"loca": m.Glyphs != nil, "glyf": m.Glyphs != nil, "post": m.Post != nil, "name": m.Names != nil}
	text := map[string]string{}
	for _, k := range []string{"head", "hhea", "os2", "hmtx", "cmap", "loca", "glyf", "post", "name"} {
		s := f.TableInfo(k)
		text[k] = s
		if k == "loca" && m.Glyphs == nil {
			continue // a font may have locations without glyph data
		}
		if miss := s == k+": missing\n"; miss == present[k] || s == "" {
			return fmt.Errorf("TableInfo(%s) is %.80q, the font has the table: %v", k, s, present[k])
		}
	}
	for _, k := range []string{"", "cvt", "CMAP", "trec ", "glyph", "OS/2", "all"} {
		if s := f.TableInfo(k); s != k+": unsupported table for info\n" {
			return fmt.Errorf("TableInfo(%q) is %.80q", k, s)
		}
	}
	if n, err = intsOf(infoHhea, text["hhea"]); err != nil {
		return err
	} else if n[0] != x.NHM {
		return fmt.Errorf("hhea states %d metrics, the font has %d", n[0], x.NHM)
	}
	if m.Metrics != nil {
		if n, err = intsOf(infoHmtx, text["hmtx"]); err != nil {
			return err
		} else if n[0] != x.NHM || n[1] != m.N-x.NHM {
			return fmt.Errorf("hmtx states %d metrics and %d side bearings, the font has %d and %d", n[0], n[1], x.NHM, m.N-x.NHM)
		}
	}
	if m.Glyphs != nil {
		total := 0
		for _, g := range m.Glyphs {
			total += len(g)
		}
		g := infoGlyf.FindStringSubmatch(text["glyf"])
		if g == nil {
			return fmt.Errorf("TableInfo(glyf) is %.80q", text["glyf"])
		}
		d, _ := strconv.Atoi(g[1])
		kb, _ := strconv.ParseFloat(g[2], 64)
		if d != m.N || math.Abs(kb*1024-float64(total)) > 5.2 {
			return fmt.Errorf("glyf states %d glyphs and %v kB, the font has %d and %d bytes", d, kb, m.N, total)
		}
		off := map[string]int{}
		for _, l := range infoLoca.FindAllStringSubmatch(text["loca"], -1) {
			off[l[1]], _ = strconv.Atoi(l[2])
		}
		want := map[string]int{"Short": m.N + 1, "Long": 0}
		if m.LocFmt == 1 {
			want = map[string]int{"Short": 0, "Long": m.N + 1}
		}
		if len(off) != 2 || off["Short"] != want["Short"] || off["Long"] != want["Long"] {
			return fmt.Errorf("loca states %v, want %v", off, want)
		}
	}
	if m.Post != nil {
		if n, err = intsOf(infoPost, text["post"]); err != nil {
			return err
		}
		want := 0
		if v := be32(m.Post.Header, 0); v == 0x10000 || v == 0x20000 || v == 0x25000 {
			want = m.N
		}
		if n[0] != want {
			return fmt.Errorf("post states names for %d glyphs, want %d", n[0], want)
		}
	}
	if m.HasCmap {
		return agreeCmapInfo(text["cmap"], m)
	}
	return nil
}

// agreeCmapInfo checks the subtables listed and, line by line, the codes shown for them.
func agreeCmapInfo(text string, m *Model) error {
	if n, err := intsOf(infoCmapVer, text); err != nil {
		return err
	} else if n[0] != int(m.CmapVer) {
		return fmt.Errorf("cmap states version %d, want %d", n[0], m.CmapVer)
	}
	if n, err := intsOf(infoCmapN, text); err != nil {
		return err
	} else if n[0] != len(m.Cmap) {
		return fmt.Errorf("cmap states %d subtables, want %d", n[0], len(m.Cmap))
	}
	k := -1
	shown := map[uint32]bool{} // glyphs, or codes
	done := func() error {
		if k < 0 {
			return nil
		}
		s := m.Cmap[k]
		for code, g := range s.Map {
			switch s.Format {
			case 4, 12:
				if g != 0 && code != 0 && !shown[uint32(g)] {
					return fmt.Errorf("cmap shows no code for glyph %d of subtable %d, which %#x maps to", g, k, code)
				}
			default:
				if code != 0 && !shown[code] {
					return fmt.Errorf("cmap does not show code %#x of subtable %d", code, k)
				}
			}
		}
		shown = map[uint32]bool{}
		return nil
	}
	for _, l := range strings.Split(text, "\n") {
		if h := infoSub.FindStringSubmatch(l); h != nil {
			if err := done(); err != nil {
				return err
			}
			k++
			if k >= len(m.Cmap) {
				return fmt.Errorf("cmap lists more than %d subtables", k)
			}
			s := m.Cmap[k]
			if h[1] != fmt.Sprint(s.Format) || h[2] != fmt.Sprint(s.P) || h[3] != fmt.Sprint(s.E) {
				return fmt.Errorf("cmap lists subtable %d as format %s, platform %s, encoding %s, want %d, %d, %d", k, h[1], h[2], h[3], s.Format, s.P, s.E)
			}
			continue
		}
		c := infoCode.FindStringSubmatch(l)
		if c == nil {
			continue
		}
		if k < 0 {
			return fmt.Errorf("cmap lists %q before any subtable", l)
		}
		s := m.Cmap[k]
		i, _ := strconv.Atoi(c[1])
		dec, _ := strconv.ParseUint(c[2], 10, 32)
		hex, _ := strconv.ParseUint(c[3], 16, 32)
		r, _ := strconv.ParseInt(c[4], 16, 32)
		if dec != hex {
			return fmt.Errorf("cmap line %q: two codes", l)
		}
		code := uint32(dec)
		if code == 0 {
			continue // not used
		}
		switch s.Format {
		case 4, 12:
			if g := s.Map[code]; int(g) != i {
				return fmt.Errorf("cmap shows code %#x for glyph %d of subtable %d (%d,%d); it maps to %d", code, i, k, s.P, s.E, g)
			}
			shown[uint32(i)] = true
		default:
			shown[code] = true
		}
		if w, ok := codeRune(int(s.P), int(s.E), code); ok && rune(r) != w {
			return fmt.Errorf("cmap shows code %#x of subtable %d (%d,%d) as %U, want %U", code, k, s.P, s.E, r, w)
		}
	}
	if err := done(); err != nil {
		return err
	}
	if k+1 != len(m.Cmap) {
		return fmt.Errorf("cmap lists %d subtables, want %d", k+1, len(m.Cmap))
	}
	return nil
}

func runInfo(r *Rec, s *Spec, ops ...Op) error {
	data, _ := s.Encode()
	return runInfoPath(r, data, modelOf(s), ops...)
}

func runInfoPath(r *Rec, data []byte, m *Model, ops ...Op) error {
	if err := runInfoAsking(r, data, m, false, ops...); err != nil || len(ops) == 0 {
		return err
	}
	if err := runInfoAsking(r, data, m, true, ops...); err != nil {
		return fmt.Errorf("with questions in between: %v", err)
	}
	return nil
}

func runInfoAsking(r *Rec, data []byte, m *Model, asking bool, ops ...Op) error {
	r.Input(data)
	f, err := parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	name := ""
	for _, op := range ops {
		name += op.Name + "; "
		if asking {
			ask(f, len(data))
		}
		m2, merr := op.Model(m)
		f2, ierr := op.Impl(f)
		if (merr != nil) != (ierr != nil) {
			return fmt.Errorf("%s error %v, model error %v", name, ierr, merr)
		}
		if ierr == nil {
			f, m = f2, m2
		}
		r.Trans(1)
	}
	r.Trace(1)
	r.State(m.hash())
	r.Sample("%d glyphs; %s", m.N, name)
	if err := infoOf(f, data, m); err != nil {
		return fmt.Errorf("%s%v", name, err)
	}
	return nil
}

func infoOf(f *Font, src []byte, m *Model) error {
	g := f.TableInfo("hmtx") // asked before and after writing
	b, err := write(f)
	if err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	x, err := decode(b, false)
	if err != nil {
		return fmt.Errorf("written file: %v", err)
	}
	if h := f.TableInfo("hmtx"); g != h {
		return fmt.Errorf("TableInfo(hmtx) is %q before and %q after writing", g, h)
	}
	return agreeInfo(f, src, m, x)
}

// cliMappings compares "truecli info --cmappings" with the model: every mapping of the three subtables, once.
func cliMappings(r *Rec, data []byte, m *Model) error {
	r.Input(data)
	dir, err := os.MkdirTemp(scratchDir(), "cli")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "in.ttf"), data, 0o600); err != nil {
		return nil
	}
	ok, out, err := cliRun(dir, "info", "--cmappings", "in.ttf")
	if err != nil {
		return err
	}
	r.Trans(1)
	r.Trace(1)
	r.State(m.hash())
	if !ok {
		return fmt.Errorf("truecli info --cmappings fails")
	}
	var want []string
	for i, pe := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
		rm, _ := m.runeMap(pe[0], pe[1])
		for c, g := range rm {
			if g != 0 {
				want = append(want, strings.Split(fmt.Sprintf("%d/%d,%d: %d - %c", i, pe[0], pe[1], g, c), "\n")...)
			}
		}
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if !zeroMapping.MatchString(l) {
			got = append(got, l)
		}
	}
	got, want = nonEmptySorted(got), nonEmptySorted(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got) || i < len(want) && want[i] < got[i]:
			return fmt.Errorf("truecli info --cmappings does not list %q", want[i])
		case i >= len(want) || got[i] < want[i]:
			return fmt.Errorf("truecli info --cmappings lists %q, which is not a mapping of the font or listed before", got[i])
		}
	}
	r.Sample("%d mappings listed", len(got))
	return nil
}

var zeroMapping = regexp.MustCompile(`^\d/\d,\d: 0 - `)

func nonEmptySorted(l []string) []string {
	var out []string
	for _, s := range l {
		if s != "" {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func genC22(c *Ctx) {
	if os.Getenv("VERIF_CLI_BIN") == "" {
		fatalExit("VERIF_CLI_BIN is not set")
	}
	k := c.Pick(2, 3)
	c.Bound("max_deviations", k)
	c.Bound("dimensions", len(fontDims()))
	emitTwins(c, func(r *Rec, mk func() *Spec) error { return runInfo(r, mk()) })
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit(name, func(r *Rec) error { return runInfo(r, mk()) })
	})
	eachFont(c.Pick(1, 2), func(name string, mk func() *Spec) {
		c.Emit("subset/"+name, func(r *Rec) error {
			for _, ops := range [][]Op{{opFirst(1)}, {opFirst(2)}, {opFirst(3)}, {opFirst(4)}, {opFirst(5)}, {opKeep(2)}, {opKeep(0, 4)}, {opOptimize()}, {opFirst(5), opFirst(2)}} {
				if err := runInfo(r, mk(), ops...); err != nil {
					return err
				}
			}
			return nil
		})
	})
	d := c.Pick(2, 3)
	c.Bound("operation_depth", d)
	ops := stdOps()
	for _, b := range bases() {
		b := b
		for i := range ops {
			i := i
			c.Emit(fmt.Sprintf("ops/%s/%s", b.Name, ops[i].Name), func(r *Rec) error {
				s := b.Mk()
				data, _ := s.Encode()
				var rec func(path []Op) error
				rec = func(path []Op) error {
					if err := runInfoPath(r, data, modelOf(s), path...); err != nil {
						return err
					}
					if len(path) == d {
						return nil
					}
					for _, o := range ops {
						if err := rec(append(path[:len(path):len(path)], o)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]Op{ops[i]})
			})
		}
	}
	emitSizes(c, "", func(r *Rec, b Base) error {
		n := modelOf(b.Mk()).N
		for _, ops := range [][]Op{{}, {opFirst(n - 1)}, {opFirst((n + 1) / 2)}} {
			if err := runInfo(r, b.Mk(), ops...); err != nil {
				return err
			}
		}
		return nil
	})
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 5242, 1<<20 + 5243, 3<<20 + 77, 16 << 20} {
		n := n
		c.Emit(fmt.Sprintf("megabytes/%d", n), func(r *Rec) error {
			s := baseSpec()
			s.Extra = []RawTable{{"zzzz", pattern(n, 6)}}
			return runInfo(r, s)
		})
	}
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil {
				return nil
			}
			return runInfoPath(r, rd[n], m)
		})
		c.Emit("cmappings/real/"+n, func(r *Rec) error {
			m, err := modelOfFile(rd[n])
			if err != nil {
				return nil
			}
			return cliMappings(r, rd[n], m)
		})
	}
	mappings := func(name string, mk func() *Spec) {
		c.Emit("cmappings/"+name, func(r *Rec) error {
			s := mk()
			data, _ := s.Encode()
			return cliMappings(r, data, modelOf(s))
		})
	}
	eachFont(1, func(name string, mk func() *Spec) { mappings(name, mk) })
	for _, b := range sizeFonts(c.Thorough()) {
		switch kind, _, _ := strings.Cut(b.Name, "/"); kind {
		case "fmt4", "fmt6", "fmt12", "languages":
			mappings("size/"+b.Name, b.Mk)
		}
	}
	// Every set of mappings of up to 3 codes to up to 3 glyphs in each of the three subtables.
	for _, pe := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
		codes := []int{0x41, 0x42, 0x7E}
		for v := 0; v < 64; v++ {
			var pairs [][2]int
			for i, w := 0, v; i < len(codes); i, w = i+1, w/4 {
				if w%4 != 0 {
					pairs = append(pairs, [2]int{codes[i], w % 4})
				}
			}
			for _, other := range []bool{false, true} {
				subs := []Sub{fmt4Of(pe[0], pe[1], 0, pairs)}
				if other {
					for _, q := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
						if q != pe {
							subs = append(subs, fmt4Of(q[0], q[1], 0, [][2]int{{0x42, 2}, {0x43, 2}}))
						}
					}
					sort.SliceStable(subs, func(i, j int) bool { return subs[i].P < subs[j].P })
				}
				mappings(fmt.Sprintf("small/%d,%d/%d/%v", pe[0], pe[1], v, other), func() *Spec { return plainSpec(4, subs...) })
			}
		}
	}
	// Every code of each encoding: all of the plane in blocks.
	step := c.Pick(8192, 1024)
	for lo := 0; lo < 65535; lo += step {
		lo := lo
		for _, pe := range [][2]int{{0, 3}, {3, 1}} {
			mappings(fmt.Sprintf("block/%d,%d/%#x", pe[0], pe[1], lo), func() *Spec {
				var arr []int
				for c := lo; c < lo+step && c < 65535; c++ {
					arr = append(arr, 1+c%3)
					if c >= 0xD800 && c <= 0xDFFF {
						arr[c-lo] = 0
					}
				}
				return plainSpec(4, mkFmt6(pe[0], pe[1], 0, lo, arr))
			})
		}
	}
	mappings("mac", func() *Spec {
		all := map[int]int{}
		for c := 0; c < 256; c++ {
			all[c] = 1 + c%3
		}
		return plainSpec(4, mkFmt0(1, 0, 0, all))
	})
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking",
		Rule:   "every font with at most k deviations, every operation sequence up to the depth bound on the base fonts, every font of unusual size and the sample fonts: the texts of TableInfo and String against the font's meaning and the file it writes (presence, counts, sizes, codes shown); truecli info --cmappings against the subtables' mappings for every font with one deviation, every small mapping of three codes to three glyphs, every code of the encodings",
		Assume: []string{"the dumps of whole structures in some texts are not interpreted"},
		Gen:    genC22})
}
