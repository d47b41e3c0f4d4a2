//go:build go1.22

// The implementation under test, driven through its exported API only, and the agreement relation with the model.

package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/unidoc/unitype"
)

// Font is the implementation's font value.
type Font = unitype.Font

// GID is the implementation's glyph index.
type GID = unitype.GlyphIndex

func parse(b []byte) (*Font, error) { return unitype.Parse(bytes.NewReader(b)) }

func write(f *Font) ([]byte, error) {
	var b bytes.Buffer
	if err := f.Write(&b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// cmapPairs are the platform/encoding pairs the checks ask for.
var cmapPairs = [][2]int{{0, 0}, {0, 3}, {0, 4}, {1, 0}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {3, 4}, {3, 10}, {0, 1}, {0, 2}, {0, 5}, {0, 6}, {2, 1}, {3, 5}, {3, 9}, {7, 7}}

var probeRunes = []rune{'A', 'B', 'C', 'D', 'a', 'b', 'z', 0, 0x3B1, 0x1F600, 0x1F601, 0x10FFFF, 0xC4, 'Z', '@', ' ', 0xFFFF, 0x4E00}

// Parts selects what agree compares.
type Parts int

const (
	pCmap Parts = 1 << iota
	pLookup
	pNames
	pOffsets
	pFile
	pReparse
	pValidate
	pAll Parts = 1<<iota - 1
)

// agree checks that font value f means what model m says.
func agree(f *Font, m *Model, parts Parts) error {
	if f == nil {
		return errors.New("nil font without error")
	}
	if parts&pCmap != 0 {
		for _, pe := range cmapPairs {
			if err := agreeCmap(f, m, pe[0], pe[1]); err != nil {
				return err
			}
		}
	}
	if parts&pLookup != 0 {
		got := f.LookupRunes(probeRunes)
		if len(got) != len(probeRunes) {
			return fmt.Errorf("LookupRunes gave %d indices for %d runes", len(got), len(probeRunes))
		}
		maps := m.lookupMaps()
		for i, r := range probeRunes {
			if w := lookupIn(maps, r); int(got[i]) != w {
				return fmt.Errorf("LookupRunes(%U) = %d, want %d", r, got[i], w)
			}
		}
	}
	if parts&pNames != 0 {
		if err := agreeNames(f, m); err != nil {
			return err
		}
	}
	var x *Decoded
	if parts&(pFile|pReparse|pValidate|pOffsets) != 0 {
		b, err := write(f)
		if err != nil {
			return fmt.Errorf("Write: %v", err)
		}
		if x, err = structural(b); err != nil {
			return fmt.Errorf("written file: %v", err)
		}
		if parts&pFile != 0 {
			if err := m.matches(x); err != nil {
				return fmt.Errorf("written file: %v", err)
			}
		}
		if parts&pValidate != 0 {
			if err := unitype.ValidateBytes(b); err != nil {
				return fmt.Errorf("ValidateBytes rejects written file: %v", err)
			}
		}
		if parts&pReparse != 0 {
			g, err := parse(b)
			if err != nil {
				return fmt.Errorf("Parse rejects written file: %v", err)
			}
			b2, err := write(g)
			if err != nil {
				return fmt.Errorf("second Write: %v", err)
			}
			if err := diffBytes("file after write, parse, write", b2, b); err != nil {
				return err
			}
		}
	}
	if parts&pOffsets != 0 && m.Glyphs != nil {
		if err := agreeOffsets(f, m, x); err != nil {
			return err
		}
	}
	return nil
}

// agreeOffsets: a parsed font reports locations in the source glyf table, a derived one in the table it writes.
func agreeOffsets(f *Font, m *Model, x *Decoded) error {
	at := 0
	if m.LocaBase > 0 {
		at = m.LocaBase
	}
	for i := 0; i < x.N; i++ {
		o, n, err := f.GetGlyphDataOffset(GID(i))
		if err != nil {
			return fmt.Errorf("GetGlyphDataOffset(%d): %v", i, err)
		}
		want, wn := x.Loca[i], x.Loca[i+1]-x.Loca[i]
		if m.LocaBase >= 0 {
			want, wn = at, len(m.Glyphs[i])
			at += wn
		}
		if int(o) != want || int(n) != wn {
			return fmt.Errorf("GetGlyphDataOffset(%d) = %d,+%d; the data is at %d,+%d", i, o, n, want, wn)
		}
	}
	for _, i := range []int{x.N, x.N + 1, 65535} {
		if i < x.N || i > 65535 {
			continue
		}
		if o, n, err := f.GetGlyphDataOffset(GID(i)); err == nil {
			return fmt.Errorf("GetGlyphDataOffset(%d) = %d,+%d without error for %d glyphs", i, o, n, x.N)
		}
	}
	return nil
}

// agreeCmap compares one GetCmap answer; entries for glyph 0 count as absent, undecodable codes are not compared.
func agreeCmap(f *Font, m *Model, p, e int) error {
	want, has := m.runeMap(p, e)
	got := f.GetCmap(p, e)
	if !has {
		if got != nil {
			return fmt.Errorf("GetCmap(%d,%d) not nil for a font without that subtable", p, e)
		}
		return nil
	}
	if got == nil {
		return fmt.Errorf("GetCmap(%d,%d) is nil", p, e)
	}
	if p == 2 || p > 3 || p == 3 && e > 4 && e != 10 || p == 1 && e != 0 {
		return nil // codes of no stated meaning
	}
	for r, g := range want {
		if r != 0xFFFD && uint16(got[r]) != g && !m.candidate(p, e, r, uint16(got[r])) {
			return fmt.Errorf("GetCmap(%d,%d)[%U] = %d, want %d", p, e, r, got[r], g)
		}
	}
	for r, g := range got {
		if _, ok := want[r]; !ok && g != 0 && r != 0xFFFD {
			return fmt.Errorf("GetCmap(%d,%d)[%U] = %d, want unmapped", p, e, r, g)
		}
	}
	return nil
}

// candidate tells whether some code of the subtable that means r maps to g (several codes may mean one character).
func (m *Model) candidate(p, e int, r rune, g uint16) bool {
	for _, s := range m.Cmap {
		if int(s.P) != p || int(s.E) != e {
			continue
		}
		n := 0
		for c, x := range s.Map {
			if rr, ok := codeRune(p, e, c); ok && rr == r {
				if n++; x == g {
					return true
				}
			}
		}
		return false
	}
	return false
}

func (m *Model) lookupMaps() []map[rune]uint16 {
	var out []map[rune]uint16
	for _, pe := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
		rm, _ := m.runeMap(pe[0], pe[1])
		out = append(out, rm)
	}
	return out
}

func lookupIn(maps []map[rune]uint16, r rune) int {
	for _, mp := range maps {
		if g, ok := mp[r]; ok {
			return int(g)
		}
	}
	return 0
}

func agreeNames(f *Font, m *Model) error {
	var recs []NameRec
	if m.Names != nil {
		recs = m.Names.Recs
	}
	firstOf := map[int]NameRec{}
	lang := map[uint16]map[uint16]NameRec{}
	for _, r := range recs {
		if _, ok := firstOf[int(r.ID)]; !ok {
			firstOf[int(r.ID)] = r
		}
		if lang[r.L] == nil {
			lang[r.L] = map[uint16]NameRec{}
		}
		lang[r.L][r.ID] = r
	}
	ids := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 25, 256, 65535, 65536, 65537}
	for id := range firstOf {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		got := f.GetNameByID(id)
		r, ok := firstOf[id]
		if !ok {
			if got != "" {
				return fmt.Errorf("GetNameByID(%d) = %q, want empty", id, got)
			}
			continue
		}
		if w, ok := nameString(r); ok && got != w {
			return fmt.Errorf("GetNameByID(%d) = %q, want %q", id, got, w)
		}
	}
	got := f.GetNameRecords()
	if len(got) != len(lang) {
		return fmt.Errorf("GetNameRecords has %d languages, want %d", len(got), len(lang))
	}
	for l, mm := range lang {
		if len(got[l]) != len(mm) {
			return fmt.Errorf("GetNameRecords[%#x] has %d names, want %d", l, len(got[l]), len(mm))
		}
		for id, r := range mm {
			s, ok := got[l][id]
			if !ok {
				return fmt.Errorf("GetNameRecords[%#x] lacks name %d", l, id)
			}
			if w, ok := nameString(r); ok && s != w {
				return fmt.Errorf("GetNameRecords[%#x][%d] = %q, want %q", l, id, s, w)
			}
		}
	}
	return nil
}

// ---- observation: everything the API tells about a font value, as comparable text ----

var infoTables = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post", "nosuch"}

// pointerText is how %#v shows a pointer inside a value: (*T)(0x…).
var pointerText = regexp.MustCompile(`\)\(0x[0-9a-fA-F]+\)`)

// tableInfo is TableInfo without the memory addresses a %#v dump contains.
func tableInfo(f *Font, t string) string {
	s := f.TableInfo(t)
	if strings.Contains(s, ")(0x") {
		s = pointerText.ReplaceAllString(s, ")(PTR)")
	}
	return s
}

// observeQueries answers every query; the result does not depend on map order.
func observeQueries(f *Font, info bool) []string {
	var out []string
	add := func(format string, a ...interface{}) { out = append(out, fmt.Sprintf(format, a...)) }
	for _, pe := range cmapPairs {
		mp := f.GetCmap(pe[0], pe[1])
		var h uint64
		n := 0
		for r, g := range mp {
			if g == 0 {
				continue
			}
			n++
			x := uint64(uint32(r))<<16 | uint64(g)
			x ^= x >> 31
			x *= 0x9E3779B97F4A7C15
			x ^= x >> 29
			h += x
		}
		add("GetCmap(%d,%d) nil=%v %d entries %x", pe[0], pe[1], mp == nil, n, h)
	}
	add("LookupRunes %v", f.LookupRunes(probeRunes))
	for id := -1; id < 8; id++ {
		add("GetNameByID(%d) %q", id, f.GetNameByID(id))
	}
	recs := f.GetNameRecords()
	var langs []int
	for l := range recs {
		langs = append(langs, int(l))
	}
	sort.Ints(langs)
	for _, l := range langs {
		var ids []int
		for id := range recs[uint16(l)] {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			add("GetNameRecords[%d][%d] %q", l, id, recs[uint16(l)][uint16(id)])
		}
	}
	for g := 0; g < 12; g++ {
		o, n, err := f.GetGlyphDataOffset(GID(g))
		add("GetGlyphDataOffset(%d) %d %d %v", g, o, n, err != nil)
	}
	if info {
		for _, t := range infoTables {
			add("TableInfo(%s) %s", t, tableInfo(f, t))
		}
		add("String %s", f.String())
	}
	return out
}

func observeAll(f *Font) []string {
	out := observeQueries(f, true)
	b, err := write(f)
	if err != nil {
		return append(out, "Write error "+err.Error())
	}
	return append(out, "Write "+string(b))
}

func diffObs(a, b []string) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			if strings.HasPrefix(x, "Write ") && strings.HasPrefix(y, "Write ") {
				return diffBytes("written bytes", []byte(y), []byte(x))
			}
			return fmt.Errorf("before %.200q, now %.200q", x, y)
		}
	}
	return nil
}

func hashStrings(ss []string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		fmt.Fprintf(h, "%d:%s", len(s), s)
	}
	return h.Sum64()
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// ---- real fonts ----

var realOnce sync.Once
var realData map[string][]byte
var realNames []string

// realFonts are the repository's own sample fonts (empty when absent).
func realFonts() ([]string, map[string][]byte) {
	realOnce.Do(func() {
		realData = map[string][]byte{}
		repo := os.Getenv("VERIF_REPO")
		for _, g := range []string{"testdata/*.ttf", "testdata/*/*.ttf"} {
			ps, _ := filepath.Glob(filepath.Join(repo, g))
			sort.Strings(ps)
			for _, p := range ps {
				b, err := os.ReadFile(p)
				if err != nil {
					continue
				}
				n := filepath.Base(p)
				realNames = append(realNames, n)
				realData[n] = b
			}
		}
	})
	return realNames, realData
}
