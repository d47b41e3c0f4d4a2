//go:build go1.22

// C18: what happens to another font while a font is in the middle of reading its source or writing to its sink. The
// calls of the io.ReadSeeker and io.Writer are the scheduling points: at each of them, a whole program runs on the other
// font, in a goroutine of its own.

package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/unidoc/unitype"
)

// pause runs do at its at-th call and remembers how often it was called.
type pause struct {
	n, at int
	do    func()
}

func (p *pause) point() {
	if p.n == p.at && p.do != nil {
		p.do()
	}
	p.n++
}

type pauseRS struct {
	r *bytes.Reader
	p *pause
}

func (s pauseRS) Read(b []byte) (int, error) {
	n, err := s.r.Read(b)
	s.p.point() // what was read is in the caller's buffer
	return n, err
}

func (s pauseRS) Seek(o int64, w int) (int64, error) {
	s.p.point()
	return s.r.Seek(o, w)
}

type pauseW struct {
	b bytes.Buffer
	p *pause
}

func (s *pauseW) Write(b []byte) (int, error) {
	s.p.point() // the data has been handed over and is not taken yet
	return s.b.Write(b)
}

// duringRun parses, derives and writes with pauses.
func duringRun(data []byte, how int, p *pause) (out []string) {
	defer func() {
		if x := recover(); x != nil {
			out = append(out, fmt.Sprint("panic: ", x))
		}
	}()
	f, err := unitype.Parse(pauseRS{bytes.NewReader(data), p})
	if err != nil {
		return []string{"error " + err.Error()}
	}
	g := f
	switch how {
	case 1:
		g, err = f.SubsetKeepRunes([]rune("AB"))
	case 2:
		g, err = f.SubsetFirst(3)
		f.Optimize()
	}
	if err != nil {
		return []string{"error " + err.Error()}
	}
	for i := 0; i < 2; i++ {
		var w pauseW
		w.p = p
		err = g.Write(&w)
		out = append(out, w.b.String(), fmt.Sprint(err))
	}
	if len(data) > 10000 {
		return append(out, f.GetNameByID(1), fmt.Sprint(f.LookupRunes([]rune("AZ\u0400"))))
	}
	return append(out, observeAll(f)...)
}

func emitDuring(c *Ctx) {
	fonts := []int{0, 1, 2, 3, 4}
	c.Bound("programs run at every call of a source or sink", "every program on the other fonts; the larger fonts run four of them")
	for _, fa := range fonts {
		for _, fb := range fonts {
			if fa == fb && fa != 0 && fa != 3 {
				continue
			}
			for how := 0; how < 3; how++ {
				fa, fb, how := fa, fb, how
				if (fa > 3 || fa > 2 && how == 2) && !c.Thorough() {
					continue
				}
				for _, prog := range programs() {
					prog := prog
					if fa > 2 || fb > 2 {
						switch prog.name {
						case "parse", "validate", "write", "all":
						default:
							continue
						}
					}
					c.Emit(fmt.Sprintf("during/fonts%d,%d/%d/%s", fa, fb, how, prog.name), func(r *Rec) error {
						da, db := schedFont(fa), schedFont(fb)
						r.Input(da)
						count := &pause{at: -1}
						want := duringRun(da, how, count)
						other := func() (out []string) {
							defer func() {
								if x := recover(); x != nil {
									out = append(out, fmt.Sprint("panic: ", x))
								}
							}()
							f, err := parse(db)
							if err != nil {
								return []string{"error " + err.Error()}
							}
							out, fs := prog.do(db, f)
							for _, g := range append([]*Font{f}, fs...) {
								b, err := write(g)
								out = append(out, string(b), fmt.Sprint(err))
							}
							return out
						}
						wantB := other()
						step := 1
						if fa > 2 && !c.Thorough() {
							step = 8
						}
						for at := 0; at < count.n; at++ {
							if at%step != 0 && at < count.n-4 {
								continue
							}
							done := make(chan []string, 1)
							p := &pause{at: at, do: func() {
								go func() { done <- other() }()
								select {
								case out := <-done:
									done <- out
								case <-time.After(10 * time.Second): // waits for the first one
								}
							}}
							got := duringRun(da, how, p)
							if err := diffObs(want, got); err != nil {
								return fmt.Errorf("%s on another font during call %d of the source or sink: %v", prog.name, at, err)
							}
							if err := diffObs(wantB, <-done); err != nil {
								return fmt.Errorf("%s during call %d of another font's source or sink: %v", prog.name, at, err)
							}
							r.Trans(1)
							r.Trace(1)
						}
						r.State(hashStrings(want) ^ hashStrings(wantB))
						return nil
					})
				}
			}
		}
	}
}
