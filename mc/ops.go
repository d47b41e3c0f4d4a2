//go:build go1.22

// Operation alphabet: each operation exists on the model and on the implementation.

package main

import (
	"fmt"
)

// Op is one operation of the alphabet. On the implementation it may return a new font or change f in place (then
// it returns f). A nil font with nil error never happens.
type Op struct {
	Name    string
	InPlace bool
	Impl    func(f *Font) (*Font, error)
	Model   func(m *Model) (*Model, error)
}

func opFirst(n int) Op {
	return Op{fmt.Sprintf("SubsetFirst(%d)", n), false,
		func(f *Font) (*Font, error) { return f.SubsetFirst(n) },
		func(m *Model) (*Model, error) { return m.first(n), nil }}
}

func opKeep(set ...int) Op {
	return Op{fmt.Sprintf("SubsetKeepIndices%v", set), false,
		func(f *Font) (*Font, error) {
			var g []GID
			for _, x := range set {
				g = append(g, GID(x))
			}
			return f.SubsetKeepIndices(g)
		},
		func(m *Model) (*Model, error) { return m.keep(set) }}
}

func opRunes(s string) Op {
	return Op{fmt.Sprintf("SubsetKeepRunes(%q)", s), false,
		func(f *Font) (*Font, error) { return f.SubsetKeepRunes([]rune(s)) },
		func(m *Model) (*Model, error) { return m.keepRunes([]rune(s)) }}
}

func opPrune(ts ...string) Op {
	return Op{fmt.Sprintf("PruneTables%q", ts), true,
		func(f *Font) (*Font, error) { return f, f.PruneTables(ts...) },
		func(m *Model) (*Model, error) { return m.prune(ts...), nil }}
}

func opOptimize() Op {
	return Op{"Optimize()", true,
		func(f *Font) (*Font, error) { return f, f.Optimize() },
		func(m *Model) (*Model, error) { return m.optimize(), nil }}
}

func opWrite() Op {
	return Op{"Write()", true,
		func(f *Font) (*Font, error) { _, err := write(f); return f, err },
		func(m *Model) (*Model, error) { return m, nil }}
}

func opQuery() Op {
	return Op{"queries", true,
		func(f *Font) (*Font, error) { observeQueries(f, true); return f, nil },
		func(m *Model) (*Model, error) { return m, nil }}
}

func stdOps() []Op {
	return []Op{
		opFirst(1), opFirst(2), opFirst(4), opFirst(5), opFirst(6),
		opKeep(), opKeep(0), opKeep(2), opKeep(3), opKeep(5), opKeep(1, 4), opKeep(9),
		opRunes("A"), opRunes("BC\U0001F600"), opRunes("\u03b1"),
		opPrune("cmap"), opPrune("post"), opPrune("name"), opPrune("cmap", "name", "post", "glyf"),
		opOptimize(), opWrite(), opQuery(),
	}
}

// Base is a named starting font.
type Base struct {
	Name string
	Mk   func() *Spec
}

// bases are starting points that force the code's shortcuts: both loca formats, shared cmap data, all cmap formats,
// equal widths, non-zero loca base, names in every storage layout, absent optional tables.
func bases() []Base {
	with := func(do func(s *Spec)) func() *Spec {
		return func() *Spec { s := baseSpec(); do(s); return s }
	}
	return []Base{
		{"std", baseSpec},
		{"long", with(func(s *Spec) {
			s.LocFmt = 1
			s.Glyphs[2] = simpleGlyph(13, 2)
			for i := range s.Metrics {
				s.Metrics[i].Adv = 500
			}
		})},
		{"formats", with(func(s *Spec) {
			s.LocaBase = 4
			s.Names.Storage = 1
			s.Post = post2(6)
			s.Cmap = &CmapTab{Subs: []Sub{
				mkUnsup(0, 5, 14, 0),
				mkFmt4(0, 3, 0, []Seg{{0x41, 0x45, 0, 0}}, []int{5, 4, 3, 0, 1}),
				mkFmt0(1, 0, 0, map[int]int{0x41: 3, 0x42: 4, 0x43: 5, 0xFF: 1}),
				mkFmt6(3, 0, 0, 0x41, []int{5, 0, 2}),
				mkFmt12(3, 10, 9, []Group{{0x41, 0x45, 1}, {0x1F600, 0x1F601, 2}}),
			}}
		})},
		{"sparse", with(func(s *Spec) {
			s.Names, s.Post, s.Cmap, s.OS2, s.Cvt = nil, nil, nil, nil, nil
			s.NHM = 6
			s.Metrics = mkMetrics(6, 6)
			s.Metrics[4].Adv = s.Metrics[5].Adv
		})},
		{"nohmtx", with(func(s *Spec) {
			s.NoHmtx = true
			s.Names.Storage = 3
			s.Names.Format = 1
			s.Names.Tags = [][]byte{utf16be("en")}
			s.Cmap.Share = true
		})},
		{"noglyf", with(func(s *Spec) { s.NoGlyf = true; s.Fpgm = nil })},
	}
}

// opTree enumerates all operation sequences of length 1..depth from every base and evaluates the invariant after
// each whole sequence (prefixes are sequences of their own).
func opTree(c *Ctx, prefix string, depth int, inv func(f *Font, m *Model) error) {
	ops := stdOps()
	for _, b := range bases() {
		b := b
		for first := range ops {
			first := first
			c.Emit(fmt.Sprintf("%s/%s/%s", prefix, b.Name, ops[first].Name), func(r *Rec) error {
				s := b.Mk()
				data, _ := s.Encode()
				m0 := modelOf(s)
				var rec func(path []int) error
				rec = func(path []int) error {
					if err := runOps(r, data, m0, ops, path, inv); err != nil {
						return err
					}
					if len(path) == depth {
						return nil
					}
					for i := range ops {
						if err := rec(append(path[:len(path):len(path)], i)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]int{first})
			})
		}
	}
}

func opNames(ops []Op, path []int) string {
	s := ""
	for i, p := range path {
		if i > 0 {
			s += " ; "
		}
		s += ops[p].Name
	}
	return s
}

func runOps(r *Rec, data []byte, m *Model, ops []Op, path []int, inv func(f *Font, m *Model) error) error {
	f, err := parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	r.Input(data)
	for i, p := range path {
		op := ops[p]
		m2, merr := op.Model(m)
		f2, ierr := op.Impl(f)
		if (merr != nil) != (ierr != nil) {
			return fmt.Errorf("%s: error %v, model error %v", opNames(ops, path[:i+1]), ierr, merr)
		}
		if ierr == nil {
			f, m = f2, m2
		}
		r.Trans(1)
		r.State(m.hash())
	}
	r.Trace(1)
	r.Sample("%s", opNames(ops, path))
	if err := inv(f, m); err != nil {
		return fmt.Errorf("%s: %v", opNames(ops, path), err)
	}
	return nil
}
