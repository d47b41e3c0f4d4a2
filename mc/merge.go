//go:build go1.22

// C18, second part: all merges of operation sequences on two or three fonts, each operation whole. What each font
// and each result must be comes from a process that has only ever seen that one font.

package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/unidoc/unitype"
)

// mop is an operation on the newest font of a lineage.
type mop struct {
	name string
	do   func(l *mline) string
}

// mline is the history of one input font: every font made so far, in order.
type mline struct {
	data  []byte
	fonts []*Font
}

func (l *mline) newest() *Font { return l.fonts[len(l.fonts)-1] }

func (l *mline) put(f *Font, err error) string {
	if err != nil {
		return "error"
	}
	if f != l.newest() {
		l.fonts = append(l.fonts, f)
	}
	return "font"
}

func mops() []mop {
	return []mop{
		{"Optimize", func(l *mline) string { return fmt.Sprint(l.newest().Optimize() != nil) }},
		{"SubsetFirst(5)", func(l *mline) string { return l.put(l.newest().SubsetFirst(5)) }},
		{"SubsetKeepIndices(1,4)", func(l *mline) string { return l.put(l.newest().SubsetKeepIndices([]GID{1, 4})) }},
		{"Write", func(l *mline) string { b, err := write(l.newest()); return fmt.Sprint(string(b), err != nil) }},
		{"queries", func(l *mline) string { return fmt.Sprint(observeQueries(l.newest(), true)) }},
		{"PruneTables(cmap)", func(l *mline) string { return fmt.Sprint(l.newest().PruneTables("cmap") != nil) }},
		{"SubsetKeepRunes(AC)", func(l *mline) string { return l.put(l.newest().SubsetKeepRunes([]rune("AC"))) }},
		{"Parse again, validate", func(l *mline) string {
			b, err := write(l.newest())
			if err != nil {
				return "error"
			}
			v := unitype.ValidateBytes(b) != nil
			f, err := parse(b)
			return fmt.Sprint(v, l.put(f, err))
		}},
		{"Write to a failing sink", func(l *mline) string { return fmt.Sprint(l.newest().Write(&faultW{limit: 50}) != nil) }},
		{"SubsetKeepIndices(99)", func(l *mline) string { return l.put(l.newest().SubsetKeepIndices([]GID{99})) }},
	}
}

// mfonts are fonts of one shape and different content, and fonts of other shapes.
func mfonts() []Base {
	shaped := func(v int) func() *Spec {
		return func() *Spec {
			s := baseSpec()
			s.NHM = 6
			s.Metrics = mkMetrics(6, 6)
			for i := range s.Metrics {
				s.Metrics[i].LSB += int16(v * 10)
				if i >= 2 {
					s.Metrics[i].Adv = uint16(700 + v)
				}
			}
			for i := range s.Glyphs {
				if b := s.Glyphs[i]; len(b) > 10 && i != 3 && i != 5 {
					b = clone(b)
					b[len(b)-1] ^= byte(v)
					s.Glyphs[i] = b
				}
			}
			s.Post = post2(6)
			if v > 0 {
				s.Names.Recs[0].Data = []byte("Gbn")
				s.Names.Recs[1].Data = []byte("Rfg\x8b")
				s.Cvt = pattern(6, 50)
				s.Cmap = &CmapTab{Subs: []Sub{
					mkFmt4(0, 3, 0, []Seg{{0x41, 0x43, 1 - 0x41, -1}, {0x61, 0x62, 0, 0}}, []int{5, 1}),
					mkFmt6(1, 0, 0, 0x40, []int{0, 3, 2, 1}),
					mkFmt4(3, 1, 0, []Seg{{0x41, 0x44, 2 - 0x41, -1}, {0x3B1, 0x3B1, (4 - 0x3B1) & 0xFFFF, -1}}, nil),
					mkFmt12(3, 10, 0, []Group{{0x41, 0x44, 2}, {0x3B1, 0x3B1, 4}, {0x1F600, 0x1F601, 1}}),
				}}
			}
			return s
		}
	}
	out := []Base{{"shape0", shaped(0)}, {"shape1", shaped(1)}}
	for _, b := range bases() {
		if b.Name == "formats" || b.Name == "long" || b.Name == "nohmtx" {
			out = append(out, b)
		}
	}
	return out
}

func mergeFont(name string) []byte {
	for i, k := range twinKinds {
		if name == "twin "+k.name {
			d, _ := twin(i).Encode()
			return d
		}
	}
	for _, b := range mfonts() {
		if b.Name == name {
			d, _ := b.Mk().Encode()
			return d
		}
	}
	fatalExit("no font %s", name)
	return nil
}

// step applies operation o (Parse first of all) and gives a digest of the result.
func (l *mline) step(ops []mop, o byte) string {
	if l.fonts == nil {
		f, err := parse(l.data)
		if err != nil {
			return "no font"
		}
		l.fonts = []*Font{f}
		return "parsed"
	}
	return ops[o].do(l)
}

func (l *mline) end() []string {
	var out []string
	for _, f := range l.fonts {
		out = append(out, observeAll(f)...)
	}
	return out
}

// opSequences are the sequences of exactly n operations.
func opSequences(n, ops int) []string {
	out := []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, s := range out {
			for o := 0; o < ops; o++ {
				next = append(next, s+string([]byte{byte(o)}))
			}
		}
		out = next
	}
	return out
}

// mergeRefHelper FONT N OPS prints for every sequence of N operations the digests of its results and of its fonts.
func mergeRefHelper(args []string) int {
	n, _ := strconv.Atoi(args[1])
	k, _ := strconv.Atoi(args[2])
	ops := mops()[:k]
	data := mergeFont(args[0])
	var w bytes.Buffer
	for _, h := range opSequences(n, k) {
		l := &mline{data: data}
		var res []string
		l.step(ops, 0)
		for _, o := range []byte(h) {
			res = append(res, l.step(ops, o))
		}
		fmt.Fprintf(&w, "%x %x %x\n", h, hashStrings(res), hashStrings(l.end()))
	}
	os.Stdout.Write(w.Bytes())
	return 0
}

type mergeRef struct {
	once sync.Once
	got  map[string][2]uint64
	err  error
}

var mergeRefs sync.Map

func mergeWant(font string, n, k int) (map[string][2]uint64, error) {
	v, _ := mergeRefs.LoadOrStore(fmt.Sprint(font, n, k), &mergeRef{})
	m := v.(*mergeRef)
	m.once.Do(func() {
		self, err := os.Executable()
		if err != nil {
			m.err = err
			return
		}
		out, e, err := helperOut(self, "mergeref", font, strconv.Itoa(n), strconv.Itoa(k))
		if err != nil {
			m.err = fmt.Errorf("%v: %.500s", err, e)
			return
		}
		m.got = map[string][2]uint64{}
		for _, line := range strings.Split(out, "\n") {
			p := strings.SplitN(line, " ", 3)
			if len(p) != 3 {
				continue
			}
			var h []byte
			var a, b uint64
			fmt.Sscanf(p[0], "%x", &h)
			fmt.Sscanf(p[1], "%x", &a)
			fmt.Sscanf(p[2], "%x", &b)
			m.got[string(h)] = [2]uint64{a, b}
		}
	})
	return m.got, m.err
}

// merges calls do with every merge of sequences of the given lengths, as a list of who goes next.
func merges(lens []int, do func(order []int) error) error {
	left := append([]int{}, lens...)
	var rec func(order []int) error
	rec = func(order []int) error {
		done := true
		for i := range left {
			if left[i] == 0 {
				continue
			}
			done = false
			left[i]--
			if err := rec(append(order, i)); err != nil {
				return err
			}
			left[i]++
		}
		if done {
			return do(order)
		}
		return nil
	}
	return rec(nil)
}

func mergeRun(r *Rec, fonts []string, ops []mop, hist []string, order []int, want []map[string][2]uint64) error {
	lines := make([]*mline, len(fonts))
	res := make([][]string, len(fonts))
	pos := make([]int, len(fonts))
	for i, f := range fonts {
		lines[i] = &mline{data: mergeData(f)}
	}
	text := func() string {
		s := ""
		p := make([]int, len(fonts))
		for _, i := range order {
			if p[i] == 0 {
				s += fmt.Sprintf("%s.Parse; ", fonts[i])
			} else {
				s += fmt.Sprintf("%s.%s; ", fonts[i], ops[hist[i][p[i]-1]].name)
			}
			p[i]++
		}
		if len(s) > 3000 {
			s = s[:3000] + "... "
		}
		return s
	}
	for _, i := range order {
		if pos[i] == 0 {
			lines[i].step(ops, 0)
		} else {
			res[i] = append(res[i], lines[i].step(ops, hist[i][pos[i]-1]))
		}
		pos[i]++
	}
	r.Trans(len(order))
	r.Trace(1)
	var key uint64
	for i := range fonts {
		w, ok := want[i][hist[i]]
		if !ok {
			return fmt.Errorf("no reference for %s %x", fonts[i], hist[i])
		}
		if hashStrings(res[i]) != w[0] {
			return fmt.Errorf("after %sthe results on %s differ from those alone", text(), fonts[i])
		}
		if hashStrings(lines[i].end()) != w[1] {
			return fmt.Errorf("after %sthe fonts of %s are not what they are alone", text(), fonts[i])
		}
		key = key*1000003 + w[0] ^ w[1]<<1
	}
	r.State(key)
	r.Sample("%s", text())
	return nil
}

var mergeDataOf sync.Map

func mergeData(font string) []byte {
	v, ok := mergeDataOf.Load(font)
	if !ok {
		v, _ = mergeDataOf.LoadOrStore(font, mergeFont(font))
	}
	return v.([]byte)
}

// mergeFamily emits every merge of n operations on each of the fonts, taken from the first k.
func mergeFamily(c *Ctx, fonts []string, n, k int) {
	ops := mops()[:k]
	for _, h0 := range opSequences(n, k) {
		h0 := h0
		c.Emit(fmt.Sprintf("merge/%s/%d of %d/%x", strings.Join(fonts, "+"), n, k, h0), func(r *Rec) error {
			var want []map[string][2]uint64
			for _, f := range fonts {
				w, err := mergeWant(f, n, k)
				if err != nil {
					return err
				}
				want = append(want, w)
			}
			for _, f := range fonts {
				r.Input(mergeData(f))
			}
			lens := make([]int, len(fonts))
			for i := range lens {
				lens[i] = n + 1
			}
			var rest func(hist []string) error
			rest = func(hist []string) error {
				if len(hist) == len(fonts) {
					lens2 := append([]int{}, lens...)
					lens2[0]-- // the first font is parsed first
					return merges(lens2, func(order []int) error {
						return mergeRun(r, fonts, ops, hist, append([]int{0}, order...), want)
					})
				}
				for _, h := range opSequences(n, k) {
					if err := rest(append(hist[:len(hist):len(hist)], h)); err != nil {
						return err
					}
				}
				return nil
			}
			return rest([]string{h0})
		})
	}
}

func genMerges(c *Ctx) {
	pairs := [][]string{{"shape0", "shape1"}, {"shape1", "shape0"}, {"shape0", "shape0"}, {"formats", "shape1"}, {"shape1", "formats"}}
	if c.Thorough() {
		pairs = append(pairs, []string{"long", "formats"}, []string{"nohmtx", "long"}, []string{"long", "shape0"}, []string{"formats", "nohmtx"})
	}
	k := c.Pick(7, len(mops()))
	c.Bound("merges: operations per font after Parse", 2)
	c.Bound("merges: operation alphabet", k)
	for _, p := range pairs {
		mergeFamily(c, p, 2, k)
	}
	mergeFamily(c, []string{"shape0", "shape1", "formats"}, 1, c.Pick(6, 10))
	// Fonts that differ only where no checksum shows it.
	for _, t := range twinKinds[1:] {
		mergeFamily(c, []string{"twin base", "twin " + t.name}, 1, c.Pick(6, 10))
		if c.Thorough() {
			mergeFamily(c, []string{"twin " + t.name, "twin base"}, 1, 10)
		}
	}
	// Many fonts at once.
	for _, n := range []int{20, 300} {
		n := n
		for turns := 0; turns < 2; turns++ {
			turns := turns
			c.Emit(fmt.Sprintf("crowd/%d/%d", n, turns), func(r *Rec) error { return crowd(r, n, turns == 1, k) })
		}
	}
	if c.Thorough() {
		c.Bound("merges: three operations per font, alphabet", 4)
		mergeFamily(c, pairs[0], 3, 4)
		mergeFamily(c, pairs[4], 3, 4)
	}
}

// crowd has n fonts at once, two operations on each: one font after the other, or all in turns.
func crowd(r *Rec, n int, turns bool, k int) error {
	kinds := []string{"shape0", "shape1", "formats"}
	for _, t := range twinKinds {
		kinds = append(kinds, "twin "+t.name)
	}
	seqs := opSequences(2, k)
	var fonts, hist []string
	var want []map[string][2]uint64
	for i := 0; i < n; i++ {
		f := kinds[i%len(kinds)]
		w, err := mergeWant(f, 2, k)
		if err != nil {
			return err
		}
		fonts, hist, want = append(fonts, f), append(hist, seqs[i*11%len(seqs)]), append(want, w)
	}
	var order []int
	for i := 0; i < 3*n; i++ {
		if turns {
			order = append(order, i%n)
		} else {
			order = append(order, i/3)
		}
	}
	return mergeRun(r, fonts, mops()[:k], hist, order, want)
}
