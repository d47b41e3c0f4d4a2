//go:build go1.22

// C10 (fonts are independent values) and C11 (writing is deterministic and has no effect).

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/unidoc/unitype"
)

// vop is an operation of the C10 alphabet: applied to one live font, it may add a live font.
type vop struct {
	name string
	// changes: a success changes the font it is called on (and then belongs to that font's history)
	changes bool
	do      func(f *Font) (*Font, error) // nil font: no new font
}

func vkeep(set ...GID) vop {
	return vop{fmt.Sprintf("SubsetKeepIndices%v", set), false, func(f *Font) (*Font, error) { return f.SubsetKeepIndices(set) }}
}

func vfirst(n int) vop {
	return vop{fmt.Sprintf("SubsetFirst(%d)", n), false, func(f *Font) (*Font, error) { return f.SubsetFirst(n) }}
}

func vrunes(s string) vop {
	return vop{fmt.Sprintf("SubsetKeepRunes(%q)", s), false, func(f *Font) (*Font, error) { return f.SubsetKeepRunes([]rune(s)) }}
}

func vprune(ts ...string) vop {
	return vop{fmt.Sprintf("PruneTables%q", ts), true, func(f *Font) (*Font, error) { return nil, f.PruneTables(ts...) }}
}

func vops() []vop {
	return []vop{
		vfirst(2), vfirst(4), vkeep(1, 4), vkeep(5), vrunes("AC"), vkeep(2),
		vprune("cmap"), vprune("name", "post"),
		{"Optimize()", true, func(f *Font) (*Font, error) { return nil, f.Optimize() }},
		{"Write", false, func(f *Font) (*Font, error) { _, err := write(f); return nil, err }},
		{"Write to a failing sink", false, func(f *Font) (*Font, error) { return nil, f.Write(&faultW{limit: 13}) }},
		{"queries", false, func(f *Font) (*Font, error) { observeQueries(f, true); return nil, nil }},
		vfirst(5), vfirst(0), vkeep(),
		{"SubsetFirst(-1)", false, func(f *Font) (*Font, error) { return f.SubsetFirst(-1) }},
		{"Subset(1)", false, func(f *Font) (*Font, error) { _, _, err := f.Subset([]GID{1}); return nil, err }},
	}
}

func vbases() []Base {
	out := append([]Base{}, bases()...)
	add := func(name string, do func(s *Spec)) {
		out = append(out, Base{name, func() *Spec { s := baseSpec(); do(s); return s }})
	}
	add("badglyph", func(s *Spec) { // glyph 2 is composite and cut short: keeping it fails
		g := compositeGlyph([]Comp{{GID: 1}, {GID: 4}}, -1, 2)
		s.Glyphs[2] = g[:14]
	})
	add("badafter", func(s *Spec) { // the fault is met after other glyphs have been processed
		s.Glyphs[4] = compositeGlyph([]Comp{{GID: 2}}, -1, 4)
		s.Glyphs[2] = compositeGlyph([]Comp{{GID: 1}, {GID: 0}}, -1, 2)[:16]
	})
	add("post2", func(s *Spec) {
		s.Post = post2(6)
		s.NHM = 6
		s.Metrics = mkMetrics(6, 6)
		s.Metrics[3].Adv, s.Metrics[4].Adv = s.Metrics[5].Adv, s.Metrics[5].Adv
	})
	return out
}

// lineage is one font's own history, replayed alone.
type lineage struct {
	obs  uint64
	fail uint64 // operations that fail on it
	same uint64 // operations that return the font they are called on
}

type lineages struct {
	mu   sync.Mutex
	data []byte
	ops  []vop
	got  map[string]*lineage
}

func (l *lineages) replay(h string) (*Font, error) {
	f, err := parse(l.data)
	if err != nil {
		return nil, err
	}
	for _, o := range []byte(h) {
		g, err := l.ops[o].do(f)
		if err != nil {
			return nil, err
		}
		if g != nil {
			f = g
		}
	}
	return f, nil
}

// get replays history h on a fresh parse, with nothing else alive.
func (l *lineages) get(h string) (*lineage, error) {
	l.mu.Lock()
	e := l.got[h]
	l.mu.Unlock()
	if e != nil {
		return e, nil
	}
	f, err := l.replay(h)
	if err != nil {
		return nil, fmt.Errorf("replay of %s: %v", l.name(h), err)
	}
	e = &lineage{obs: hashStrings(observeAll(f))}
	for i, o := range l.ops {
		f, err := l.replay(h)
		if err != nil {
			return nil, err
		}
		g, err := o.do(f)
		if err != nil {
			e.fail |= 1 << uint(i)
		} else if g == f {
			e.same |= 1 << uint(i)
		}
	}
	l.mu.Lock()
	l.got[h] = e
	l.mu.Unlock()
	return e, nil
}

func (l *lineages) name(h string) string {
	s := "Parse"
	for _, o := range []byte(h) {
		s += "; " + l.ops[o].name
	}
	return s
}

type vstep struct{ target, op int }

func (l *lineages) run(r *Rec, steps []vstep) error {
	f, err := parse(l.data)
	if err != nil {
		return err
	}
	r.Input(l.data)
	type live struct {
		f *Font
		h string
	}
	fonts := []live{{f, ""}}
	text := func(n int) string {
		s := ""
		for _, st := range steps[:n] {
			s += fmt.Sprintf("font%d.%s; ", st.target, l.ops[st.op].name)
		}
		return s
	}
	for n, st := range steps {
		t := &fonts[st.target]
		exp, err := l.get(t.h)
		if err != nil {
			return err
		}
		op := l.ops[st.op]
		g, err := op.do(t.f)
		r.Trans(1)
		if (err != nil) != (exp.fail>>uint(st.op)&1 == 1) {
			return fmt.Errorf("%sgives error %v, but not so on a font with the same history (%s) alone", text(n+1), err, l.name(t.h))
		}
		if err != nil {
			if g != nil {
				return fmt.Errorf("%sgives a font and an error", text(n+1))
			}
			continue
		}
		h := t.h + string([]byte{byte(st.op)})
		switch {
		case op.changes:
			t.h = h
		case g == nil || g == t.f: // nothing new; an aliased font must mean what it meant
		default:
			fonts = append(fonts, live{g, h})
		}
	}
	r.Trace(1)
	var key uint64
	for i, x := range fonts {
		exp, err := l.get(x.h)
		if err != nil {
			return err
		}
		key = key*1000003 + exp.obs
		obs := observeAll(x.f)
		if hashStrings(obs) == exp.obs {
			continue
		}
		alone, err := l.replay(x.h)
		if err != nil {
			return err
		}
		return fmt.Errorf("after %sfont %d differs from a font with the same history (%s) alone: %v", text(len(steps)), i, l.name(x.h), diffObs(observeAll(alone), obs))
	}
	r.State(key)
	r.Sample("%s", text(len(steps)))
	return nil
}

// nFonts is how many fonts are live after the steps, and which one is the target of each; found by the returned fonts.
func (l *lineages) grow(hs []string, st vstep) ([]string, error) {
	e, err := l.get(hs[st.target])
	if err != nil {
		return nil, err
	}
	op := l.ops[st.op]
	out := append([]string{}, hs...)
	h := hs[st.target] + string([]byte{byte(st.op)})
	bit := uint64(1) << uint(st.op)
	switch {
	case e.fail&bit != 0:
	case op.changes:
		out[st.target] = h
	case e.same&bit != 0:
	case strings.HasPrefix(op.name, "Subset"):
		out = append(out, h)
	}
	return out, nil
}

func genC10(c *Ctx) {
	ops := vops()
	if !c.Thorough() {
		ops = ops[:12]
	}
	c.Bound("operations per history", 3)
	c.Bound("operation alphabet", len(ops))
	few := ops[:12]
	if !c.Thorough() {
		few = []vop{ops[0], ops[2], ops[6], ops[8], ops[9], ops[11]}
	}
	c.Bound("operations per history, smaller alphabet", 4)
	c.Bound("smaller operation alphabet", len(few))
	tree := func(name string, data []byte, ops []vop, depth int) {
		l := &lineages{data: data, ops: ops, got: map[string]*lineage{}}
		var rec func(r *Rec, hs []string, steps []vstep, stop int) error
		rec = func(r *Rec, hs []string, steps []vstep, stop int) error {
			if err := l.run(r, steps); err != nil {
				return err
			}
			if len(steps) == stop {
				return nil
			}
			for t := range hs {
				for o := range ops {
					st := vstep{t, o}
					hs2, err := l.grow(hs, st)
					if err != nil {
						return err
					}
					if err := rec(r, hs2, append(steps[:len(steps):len(steps)], st), stop); err != nil {
						return err
					}
				}
			}
			return nil
		}
		for o := range ops {
			o := o
			for o2 := range ops {
				o2 := o2
				c.Emit(fmt.Sprintf("tree/%s/%s/%s", name, ops[o].name, ops[o2].name), func(r *Rec) error {
					st := vstep{0, o}
					hs, err := l.grow([]string{""}, st)
					if err != nil {
						return err
					}
					for t := range hs {
						st2 := vstep{t, o2}
						hs2, err := l.grow(hs, st2)
						if err != nil {
							return err
						}
						if err := rec(r, hs2, []vstep{st, st2}, depth); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	for _, b := range vbases() {
		s := b.Mk()
		data, _ := s.Encode()
		tree(b.Name, data, ops, 3)
		tree("deep-"+b.Name, data, few, 4)
	}
	// One operation after another on every font with at most one deviation.
	eachFont(1, func(name string, mk func() *Spec) {
		c.Emit("pair/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			if _, err := parse(data); err != nil {
				return nil
			}
			l := &lineages{data: data, ops: ops, got: map[string]*lineage{}}
			for o := range ops {
				hs, err := l.grow([]string{""}, vstep{0, o})
				if err != nil {
					return err
				}
				for t := range hs {
					for o2 := range ops {
						if err := l.run(r, []vstep{{0, o}, {t, o2}}); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	})
	emitBigPairs(c)
	names, rd := realFonts()
	for i, n := range names {
		if i > 0 && !c.Thorough() {
			break
		}
		// Big fonts: many operations in a row that must not touch one another.
		data := rd[n]
		big := []vop{vfirst(100), vkeep(40, 300), vrunes("Hello"), vprune("cmap"),
			{"Optimize()", true, func(f *Font) (*Font, error) { return nil, f.Optimize() }}, ops[9]}
		l := &lineages{data: data, ops: big, got: map[string]*lineage{}}
		for o := range big {
			o := o
			c.Emit(fmt.Sprintf("real/%s/%s", n, big[o].name), func(r *Rec) error {
				hs, err := l.grow([]string{""}, vstep{0, o})
				if err != nil {
					return err
				}
				for t := range hs {
					for o2 := range big {
						if err := l.run(r, []vstep{{0, o}, {t, o2}}); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

// emitBigPairs runs every pair of operations, on any live font, on fonts with many of something.
func emitBigPairs(c *Ctx) {
	opt := vop{"Optimize()", true, func(f *Font) (*Font, error) { return nil, f.Optimize() }}
	wr := vops()[9]
	type big struct {
		name string
		n    int
		mk   func() *Spec
	}
	var list []big
	counts := []int{100, 300, 1000, 3000, 5000, 9000, 20000}
	if c.Thorough() {
		counts = append(counts, 33000, 65535)
	}
	c.Bound("glyphs of large fonts with pairs of operations", counts)
	for _, n := range counts {
		n := n
		list = append(list, big{fmt.Sprintf("glyphs/%d", n), n, func() *Spec { return countSpec(n, n, 1) }})
		list = append(list, big{fmt.Sprintf("monospaced/%d", n), n, func() *Spec {
			s := countSpec(n, n, n%2)
			for i := range s.Metrics {
				s.Metrics[i].Adv = 600
			}
			s.Post = post2(min(n, 32000))
			if n > 32000 {
				s.Post = nil
			}
			return s
		}})
		list = append(list, big{fmt.Sprintf("composites/%d", n), n, func() *Spec {
			s := countSpec(n, n/2, 1)
			for i := n / 2; i < n; i++ {
				s.Glyphs[i] = compositeGlyph([]Comp{{GID: n - 1 - i}, {GID: i / 4}}, -1, i)
			}
			s.Glyphs[n/3] = simpleGlyph(40000, 5)
			return s
		}})
	}
	for _, b := range sizeFonts(false) {
		kind, _, _ := strings.Cut(b.Name, "/")
		var k int
		fmt.Sscanf(b.Name[strings.LastIndex(b.Name, "/")+1:], "%d", &k)
		switch kind {
		case "name", "names", "tags", "subtables", "languages", "fmt4", "fmt6", "fmt12", "cvt", "fpgm", "prep", "glyph":
			if k < 500 || k&(k-1) != 0 || k > 70000 {
				continue
			}
			list = append(list, big{b.Name, 6, b.Mk})
		}
	}
	for _, b := range list {
		b := b
		c.Emit("large/"+b.name, func(r *Rec) error {
			data, _ := b.mk().Encode()
			n := b.n
			var set []GID
			for i := 0; i < n; i += 3 {
				set = append(set, GID(n-1-i))
			}
			keep := vkeep(set...)
			keep.name = fmt.Sprintf("SubsetKeepIndices(%d of them)", len(set))
			ops := []vop{vfirst(n - 1), vfirst(n/2 + 1), keep, vrunes("AC"), vprune("cmap", "name"), opt, wr}
			l := &lineages{data: data, ops: ops, got: map[string]*lineage{}}
			for o := range ops {
				hs, err := l.grow([]string{""}, vstep{0, o})
				if err != nil {
					return err
				}
				for t := range hs {
					for o2 := range ops {
						if err := l.run(r, []vstep{{0, o}, {t, o2}}); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
}

// ---- C11 ----

// c11Ops lead to the font values whose writing is examined.
func c11Ops() []vop {
	return []vop{
		{"parsed", false, func(f *Font) (*Font, error) { return f, nil }},
		vfirst(3), vkeep(1, 4), vrunes("AB"),
		{"pruned", true, func(f *Font) (*Font, error) { return f, f.PruneTables("post", "cmap") }},
		{"optimized", true, func(f *Font) (*Font, error) { return f, f.Optimize() }},
	}
}

// writeTwice: writing and asking change nothing and always give the same.
func writeTwice(r *Rec, f *Font, again int) error {
	q := observeQueries(f, true)
	if err := diffObs(q, observeQueries(f, true)); err != nil {
		return fmt.Errorf("the same queries asked twice: %v", err)
	}
	b, err := write(f)
	if err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	r.State(hashBytes(b))
	if err := diffObs(q, observeQueries(f, true)); err != nil {
		return fmt.Errorf("queries before and after Write: %v", err)
	}
	for k := 0; k < again; k++ {
		b2, err := write(f)
		if err != nil {
			return fmt.Errorf("Write number %d: %v", k+2, err)
		}
		if err := diffBytes(fmt.Sprintf("file of Write number %d", k+2), b2, b); err != nil {
			return err
		}
		r.Trans(1)
	}
	if err := diffObs(q, observeQueries(f, true)); err != nil {
		return fmt.Errorf("queries before and after repeated Write: %v", err)
	}
	for k := 0; k < 2; k++ {
		g, err := parse(b)
		if err != nil {
			return fmt.Errorf("Parse of the written file: %v", err)
		}
		b2, err := write(g)
		if err != nil {
			return fmt.Errorf("Write of the written file: %v", err)
		}
		if err := diffBytes("file after write, parse, write", b2, b); err != nil {
			return err
		}
		r.Trans(1)
	}
	r.Trace(1)
	return nil
}

// repeatable: the same history gives the same file again.
func repeatable(data []byte, op vop, n int) error {
	var ref []byte
	for k := 0; k < n; k++ {
		f, err := parse(data)
		if err != nil {
			return nil
		}
		g, err := op.do(f)
		if err != nil {
			return nil
		}
		b, err := write(g)
		if err != nil {
			return err
		}
		if ref == nil {
			ref = b
		} else if err := diffBytes("file of the same operations repeated", b, ref); err != nil {
			return err
		}
	}
	return nil
}

func genC11(c *Ctx) {
	k := c.Pick(1, 2)
	again := c.Pick(4, 6)
	c.Bound("deviations", k)
	c.Bound("writes of one font", again+1)
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("font/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			r.Input(data)
			if _, err := parse(data); err != nil {
				return nil
			}
			for _, op := range c11Ops() {
				f, _ := parse(data)
				g, err := op.do(f)
				if err != nil {
					continue
				}
				if err := writeTwice(r, g, again); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
				if err := repeatable(data, op, 3); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
			}
			return nil
		})
	})
	// Fonts in which every unordered collection has many members.
	for _, b := range manyFonts() {
		b := b
		c.Emit("many/"+b.Name, func(r *Rec) error {
			data, _ := b.Mk().Encode()
			r.Input(data)
			for _, op := range c11Ops() {
				f, err := parse(data)
				if err != nil {
					return err
				}
				g, err := op.do(f)
				if err != nil {
					continue
				}
				if err := writeTwice(r, g, c.Pick(20, 100)); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
				if err := repeatable(data, op, c.Pick(10, 60)); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
			}
			return nil
		})
	}
	genOrders(c)
	depth := c.Pick(3, 4)
	opTree(c, "ops", depth, func(f *Font, m *Model) error { return writeTwice(newRec(), f, 1) })
	// Other processes: other hash seeds, time zone, memory limits, working directory.
	procs := c.Pick(12, 60)
	c.Bound("processes", procs)
	want := hashReport()
	for p := 0; p < procs; p++ {
		p := p
		c.Emit(fmt.Sprintf("process/%d", p), func(r *Rec) error {
			self, err := os.Executable()
			if err != nil {
				return nil
			}
			cmd := exec.Command(self, "helper", "hash")
			env := []string{"TZ=Asia/Tokyo", "GOGC=10", "LANG=de_DE.UTF-8", "GOMAXPROCS=1", "SOURCE_DATE_EPOCH=1", "HOME=/nonexistent", "GOMAXPROCS=2", "GOMAXPROCS=3", "GOMAXPROCS=4", "GOMAXPROCS=5", "TMPDIR=/nonexistent", "GOMEMLIMIT=64MiB"}
			cmd.Env = append(os.Environ(), env[p%len(env)])
			if d := scratchDir(); d != "" {
				cmd.Dir = d
			}
			out, err := cmd.Output()
			if err != nil {
				return fmt.Errorf("helper process: %v", err)
			}
			r.Trace(1)
			a, b := strings.Split(want, "\n"), strings.Split(string(out), "\n")
			for i := range a {
				r.Trans(1)
				if i >= len(b) || a[i] != b[i] {
					got := "nothing"
					if i < len(b) {
						got = b[i]
					}
					return fmt.Errorf("another process (%s) gives %q instead of %q", env[p%len(env)], got, a[i])
				}
			}
			return nil
		})
	}
	emit32(c)
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			for _, op := range []vop{c11Ops()[0], vfirst(200), vkeep(70, 300), vrunes("Pack my box")} {
				f, err := parse(rd[n])
				if err != nil {
					return nil
				}
				g, err := op.do(f)
				if err != nil {
					return err
				}
				if err := writeTwice(r, g, c.Pick(2, 8)); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
				if err := repeatable(rd[n], op, c.Pick(2, 6)); err != nil {
					return fmt.Errorf("%s: %v", op.name, err)
				}
			}
			return nil
		})
	}
}

// manyFonts have many cmap subtables, several codes per glyph and character, many names and languages, name
// records in disorder, several subtables for one platform and encoding.
func manyFonts() []Base {
	add := func(name string, do func(s *Spec)) Base {
		return Base{name, func() *Spec { s := baseSpec(); do(s); return s }}
	}
	return []Base{
		add("subtables", func(s *Spec) {
			s.Cmap = &CmapTab{}
			for e := 0; e < 7; e++ {
				s.Cmap.Subs = append(s.Cmap.Subs, mkFmt6(0, e, 0, 0x41+e, []int{1 + e%5, 2, 3}))
			}
			s.Cmap.Subs = append(s.Cmap.Subs, mkFmt0(1, 0, 0, map[int]int{0x41: 1, 0x42: 2, 0xCA: 3, 0x20: 4}),
				mkFmt0(1, 0, 1, map[int]int{0x41: 2, 0x42: 3}), mkFmt6(1, 0, 2, 0x41, []int{4, 5}),
				fmt4Of(3, 1, 0, [][2]int{{0x41, 1}, {0x43, 1}, {0x45, 3}, {0x47, 2}, {0x49, 5}}),
				fmt4Of(3, 1, 7, [][2]int{{0x41, 5}, {0x43, 4}}),
				mkFmt12(3, 10, 0, []Group{{0x41, 0x44, 1}, {0x50, 0x52, 2}, {0x1F600, 0x1F602, 1}}))
		}),
		add("codes", func(s *Spec) { // many segments and groups, all codes of one glyph
			var pairs [][2]int
			var gr []Group
			for i := 0; i < 60; i++ {
				pairs = append(pairs, [2]int{0x100 + 3*i, 1 + i%5})
				gr = append(gr, Group{0x10000 + uint32(5*i), 0x10000 + uint32(5*i), uint32(1 + i%5)})
			}
			s.Cmap = &CmapTab{Subs: []Sub{fmt4Of(3, 1, 0, pairs), mkFmt12(3, 10, 0, gr), fmt4Of(0, 3, 0, pairs[:30])}}
		}),
		add("names", func(s *Spec) {
			t := &NameTab{Format: 1, Tags: [][]byte{utf16be("aa"), utf16be("b"), utf16be("aa")}}
			for i := 0; i < 30; i++ {
				l := uint16(i * 7 % 5)
				t.Recs = append(t.Recs, NameRec{3, 1, l, uint16(i * 11 % 9), utf16be(fmt.Sprintf("name %d", i%13))})
				t.Recs = append(t.Recs, NameRec{1, 0, l, uint16(i % 4), []byte(fmt.Sprintf("mac %d", i%3))})
			}
			s.Names = t
		}),
		add("macduplicates", func(s *Spec) { // several codes that mean one character
			m := map[int]int{}
			for i := 0; i < 256; i++ {
				m[i] = i % 6
			}
			s.Cmap = &CmapTab{Subs: []Sub{mkFmt0(1, 0, 0, m), mkFmt6(3, 2, 0, 0x80, []int{1, 2, 3, 4, 5, 1, 2, 3, 4, 5}), mkFmt6(3, 3, 0, 0x80, []int{1, 2, 3, 4, 5, 1, 2, 3, 4, 5})}}
		}),
		add("post2", func(s *Spec) {
			s.Post = post2(6)
			s.NHM = 6
			s.Metrics = mkMetrics(6, 6)
		}),
		add("extra", func(s *Spec) {
			for i := 0; i < 12; i++ {
				s.Extra = append(s.Extra, RawTable{fmt.Sprintf("x%03d", i), pattern(5+i, i)})
			}
			s.DirOrder = 1
		}),
	}
}

// hashReport is one line per font value: everything observable and the written bytes.
func hashReport() string {
	var out bytes.Buffer
	list := append(append(corpus(), manyFonts()...), vbases()...)
	for _, b := range list {
		data, _ := b.Mk().Encode()
		for _, op := range c11Ops() {
			f, err := parse(data)
			if err != nil {
				fmt.Fprintf(&out, "%s: parse error\n", b.Name)
				break
			}
			g, err := op.do(f)
			if err != nil {
				fmt.Fprintf(&out, "%s %s: error\n", b.Name, op.name)
				continue
			}
			w, err := write(g)
			fmt.Fprintf(&out, "%s %s: queries %x file %x %v\n", b.Name, op.name, hashStrings(observeQueries(g, true)), hashBytes(w), err != nil)
		}
		fmt.Fprintf(&out, "%s: valid %v\n", b.Name, unitype.ValidateBytes(data) == nil)
	}
	return out.String()
}

func hashHelper() int {
	_, err := os.Stdout.WriteString(hashReport())
	if err != nil {
		return 3
	}
	return 0
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking",
		Rule: "the state is the set of live fonts. All histories up to the depth bound: at each step any operation (subsets, prunes, optimize, write, failing write, queries, failing subsets) on any live font, which may add a live font. After every history every live font must answer all queries and write exactly as a font with its own history alone, and every call must fail or succeed as it does alone",
		Gen:  genC10})
	register(&Check{ID: "C11", Level: "model_checking",
		Rule: "for every font with at most k deviations, fonts with many members in every unordered collection, every operation sequence to the depth bound and the repository's fonts: repeated writes give identical bytes, all queries before and after are identical, parse and write reproduces the file, the same operations again give the same file, and other processes (other hash seeds and environments) give the same queries and bytes; every loop over a map in the library is a choice point (overlay) and takes every order up to the bound",
		Gen:  genC11})
}
