//go:build go1.22

// C18: controlled exploration of the interleavings of two goroutines, on the instrumented library.

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/verifsched"
)

// program is what one goroutine does with its own font; it returns the results and the fonts alive afterwards.
type program struct {
	name string
	do   func(data []byte, f *Font) ([]string, []*Font)
}

func oneFont(f *Font, err error) ([]string, []*Font) {
	if err != nil {
		return []string{"error " + err.Error()}, nil
	}
	return []string{"font"}, []*Font{f}
}

func programs() []program {
	lookups := func(f *Font) []string {
		var out []string
		out = append(out, fmt.Sprint(f.LookupRunes([]rune("AZBA\U0001F600"))))
		return out
	}
	return []program{
		{"parse", func(d []byte, f *Font) ([]string, []*Font) { g, err := parse(d); return oneFont(g, err) }},
		{"validate", func(d []byte, f *Font) ([]string, []*Font) {
			return []string{fmt.Sprint(unitype.ValidateBytes(d) == nil)}, nil
		}},
		{"write", func(d []byte, f *Font) ([]string, []*Font) {
			b, err := write(f)
			return []string{string(b), fmt.Sprint(err)}, []*Font{f}
		}},
		{"first", func(d []byte, f *Font) ([]string, []*Font) { g, err := f.SubsetFirst(4); return oneFont(g, err) }},
		{"keep", func(d []byte, f *Font) ([]string, []*Font) {
			g, err := f.SubsetKeepIndices([]GID{1, 3})
			return oneFont(g, err)
		}},
		{"runes", func(d []byte, f *Font) ([]string, []*Font) {
			g, err := f.SubsetKeepRunes([]rune("AC"))
			return oneFont(g, err)
		}},
		{"prune", func(d []byte, f *Font) ([]string, []*Font) {
			return []string{fmt.Sprint(f.PruneTables("cmap", "name"))}, []*Font{f}
		}},
		{"optimize", func(d []byte, f *Font) ([]string, []*Font) {
			return []string{fmt.Sprint(f.Optimize())}, []*Font{f}
		}},
		{"lookup", func(d []byte, f *Font) ([]string, []*Font) { return lookups(f), []*Font{f} }},
		{"queries", func(d []byte, f *Font) ([]string, []*Font) { return observeQueries(f, false), []*Font{f} }},
		{"info", func(d []byte, f *Font) ([]string, []*Font) {
			var out []string
			for _, t := range infoTables {
				out = append(out, tableInfo(f, t))
			}
			return append(out, f.String()), []*Font{f}
		}},
		{"all", func(d []byte, f *Font) ([]string, []*Font) {
			g, err := parse(d)
			if err != nil {
				return []string{"error"}, nil
			}
			h, err := g.SubsetKeepRunes([]rune("AB"))
			if err != nil {
				return []string{"error"}, nil
			}
			h.PruneTables("name")
			h.Optimize()
			b, err := write(h)
			out := append(lookups(g), string(b), fmt.Sprint(err), fmt.Sprint(unitype.ValidateBytes(b) == nil), h.GetNameRecords()[0x409][1])
			return append(out, g.GetNameByID(1)), []*Font{g, h}
		}},
	}
}

// sharedPrograms are pure lookups on one font that several goroutines share.
func sharedPrograms() []program {
	q := func(name string, do func(f *Font) string) program {
		return program{name, func(d []byte, f *Font) ([]string, []*Font) { return []string{do(f)}, []*Font{f} }}
	}
	return []program{
		q("LookupRunes", func(f *Font) string { return fmt.Sprint(f.LookupRunes([]rune("AZB\U0001F600A"))) }),
		q("GetCmap", func(f *Font) string {
			s := ""
			for _, pe := range cmapPairs {
				s += fmt.Sprint(f.GetCmap(pe[0], pe[1]))
			}
			return s
		}),
		q("GetNameByID", func(f *Font) string {
			return f.GetNameByID(1) + "|" + f.GetNameByID(2) + "|" + f.GetNameByID(6) + "|" + f.GetNameByID(99)
		}),
		q("GetNameRecords", func(f *Font) string { return fmt.Sprint(f.GetNameRecords()) }),
		q("GetGlyphDataOffset", func(f *Font) string {
			s := ""
			for g := 0; g < 8; g++ {
				o, n, err := f.GetGlyphDataOffset(GID(g))
				s += fmt.Sprint(o, n, err != nil, ";")
			}
			return s
		}),
	}
}

// schedFont gives small fonts that differ in everything (0 and 1) or have the same shape and other content (0 and 2).
func schedFont(k int) []byte {
	s := baseSpec()
	v := 0
	if k == 2 {
		v = 40
	}
	setGlyphs(s, [][]byte{simpleGlyph(12, v), compositeGlyph([]Comp{{GID: 2}}, 2, v), simpleGlyph(14, v+2), nil}, 2)
	s.OS2, s.Fpgm, s.Prep = nil, nil, nil
	s.Cvt = pattern(6, k)
	s.Metrics[0].Adv += uint16(v)
	s.Post = post2(4)
	s.Cmap = &CmapTab{Subs: []Sub{mkFmt4(3, 1, 0, []Seg{{0x41, 0x42, 0, 0}, {0x5A, 0x5A, (1 - 0x5A) & 0xFFFF, -1}}, []int{1, 2})}}
	s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, []byte("Ab\x8a")}, {3, 1, 0x409, 1, utf16be("A\u00e9\U0001F600")}}}
	switch k {
	case 1:
		s.LocFmt = 1
		setGlyphs(s, [][]byte{simpleGlyph(16, 7), nil, simpleGlyph(12, 8), compositeGlyph([]Comp{{GID: 0}, {GID: 2}}, -1, 9), simpleGlyph(12, 11)}, 5)
		s.Metrics[4].Adv = s.Metrics[3].Adv
		s.Cmap = &CmapTab{Subs: []Sub{mkFmt6(1, 0, 0, 0x41, []int{4, 0, 3}), mkFmt12(3, 10, 0, []Group{{0x43, 0x44, 1}, {0x1F600, 0x1F600, 2}})}}
		s.Names = &NameTab{Recs: []NameRec{{0, 3, 0, 2, utf16be("\u4e00x")}, {1, 0, 0, 1, []byte("M\xca\xff")}}}
		s.Post = post25(5)
		s.Prep = pattern(5, 3)
	case 2:
		s.Cmap = &CmapTab{Subs: []Sub{mkFmt4(3, 1, 0, []Seg{{0x41, 0x42, 0, 0}, {0x43, 0x43, (3 - 0x43) & 0xFFFF, -1}}, []int{2, 3})}}
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, []byte("Xy\xd8")}, {3, 1, 0x409, 1, utf16be("B\u00e8\U0001F601")}}}
	}
	if k > 2 { // larger than any buffer
		s = countSpec(700, 300, 1)
		for i := range s.Glyphs {
			s.Glyphs[i] = simpleGlyph(120+2*(i%40), i+13*k)
		}
		s.Fpgm = pattern(70001, k)
		s.Prep = pattern(5000, k+1)
		s.Names = &NameTab{Recs: []NameRec{{1, 0, 0, 1, pattern(9000, k)}, {3, 1, 0x409, 1, utf16be(strings.Repeat(string(rune('a'+k)), 5000))}}}
	}
	d, _ := s.Encode()
	return d
}

var errDeadlock = errors.New("does not terminate")

// interleave runs two bodies under the schedule: the first runs plan[0] points, then the other plan[1] points, and
// so on; after the plan each runs to its end. It reports how many points each segment of the plan had available.
// Should the running body be blocked by the parked one (a lock), both are let run freely.
func interleave(bodies [2]func(), mask int, plan []int) (points []int, free bool, err error) {
	resume := [2]chan struct{}{make(chan struct{}, 1), make(chan struct{}, 1)}
	type event struct {
		who  int
		done bool
	}
	events := make(chan event, 8)
	var cur, count, budget int64
	var freed atomic.Bool
	for i := range bodies {
		i := i
		go func() {
			<-resume[i]
			bodies[i]()
			events <- event{i, true}
		}()
	}
	verifsched.Set(func(k int) {
		if k&mask == 0 || freed.Load() {
			return
		}
		if atomic.AddInt64(&count, 1) == atomic.LoadInt64(&budget) {
			me := int(atomic.LoadInt64(&cur))
			events <- event{me, false}
			<-resume[me]
		}
	})
	defer verifsched.Set(nil)
	var done [2]bool
	who := 0
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	for seg := 0; !done[0] || !done[1]; seg++ {
		if done[who] {
			who = 1 - who
		}
		b := int64(-1)
		if seg < len(plan) {
			b = int64(plan[seg])
		}
		atomic.StoreInt64(&cur, int64(who))
		atomic.StoreInt64(&count, 0)
		atomic.StoreInt64(&budget, b)
		timer.Reset(30 * time.Millisecond)
		resume[who] <- struct{}{}
		var e event
		select {
		case e = <-events:
		case <-timer.C:
			// Blocked by the other one, or only slow: no more control from here on.
			free = true
			freed.Store(true)
			for i := range resume {
				select {
				case resume[i] <- struct{}{}:
				default:
				}
			}
			limit := time.After(100 * time.Second)
			for !done[0] || !done[1] {
				select {
				case e := <-events:
					if e.done {
						done[e.who] = true
					} else {
						select {
						case resume[e.who] <- struct{}{}:
						default:
						}
					}
				case <-limit:
					return points, true, errDeadlock
				}
			}
			return points, true, nil
		}
		points = append(points, int(atomic.LoadInt64(&count)))
		if e.done {
			done[e.who] = true
		}
		who = 1 - who
	}
	return points, false, nil
}

// pairRun is one execution of two programs on their fonts, and what came out.
type pairRun struct {
	progs  [2]program
	data   [2][]byte
	shared bool
}

func (p *pairRun) exec(mask int, plan []int) (res [2]uint64, text [2][]string, points []int, free bool, err error) {
	var f [2]*Font
	for i := range f {
		if p.shared && i == 1 {
			f[1] = f[0]
			break
		}
		if f[i], err = parse(p.data[i]); err != nil {
			return
		}
	}
	var out [2][]string
	var fonts [2][]*Font
	body := func(i int) func() {
		return func() {
			defer func() {
				if x := recover(); x != nil {
					out[i] = append(out[i], fmt.Sprint("panic: ", x))
				}
			}()
			out[i], fonts[i] = p.progs[i].do(p.data[i], f[i])
		}
	}
	points, free, err = interleave([2]func(){body(0), body(1)}, mask, plan)
	if err != nil {
		return
	}
	for i := range out {
		for _, g := range append([]*Font{f[i]}, fonts[i]...) {
			out[i] = append(out[i], observeAll(g)...)
		}
		res[i] = hashStrings(out[i])
	}
	return res, out, points, free, nil
}

// alone is the result of each program when the other does not run at all.
func (p *pairRun) alone() (res [2]uint64, text [2][]string, err error) {
	for i := range res {
		f, err := parse(p.data[i])
		if err != nil {
			return res, text, err
		}
		out, fonts := p.progs[i].do(p.data[i], f)
		for _, g := range append([]*Font{f}, fonts...) {
			out = append(out, observeAll(g)...)
		}
		res[i], text[i] = hashStrings(out), out
	}
	return
}

func findProgram(list []program, name string) program {
	for _, p := range list {
		if p.name == name {
			return p
		}
	}
	fatalExit("no program %s", name)
	return program{}
}

func pairOf(kind, a, b string, fa, fb int) *pairRun {
	list := programs()
	if kind == "shared" {
		list = sharedPrograms()
	}
	p := &pairRun{progs: [2]program{findProgram(list, a), findProgram(list, b)}, shared: kind == "shared"}
	p.data = [2][]byte{schedFont(fa), schedFont(fb)}
	if p.shared {
		p.data[1] = p.data[0]
	}
	return p
}

// schedHelper explores all schedules of one pair in a process of its own.
// warm KIND A B FA FB MASK BOUND: all schedules with up to BOUND preemptions at points of the mask.
// cold KIND A B FA FB MASK K: one schedule, nothing having run before in this process; prints the result hashes.
// race KIND A B FA FB: both at once, uncontrolled (for the race detector); prints the result hashes.
func schedHelper(args []string) int {
	debug.SetGCPercent(400)
	if len(args) == 4 && args[0] == "mergeref" {
		return mergeRefHelper(args[1:])
	}
	if len(args) < 6 {
		return 3
	}
	fa, _ := strconv.Atoi(args[4])
	fb, _ := strconv.Atoi(args[5])
	p := pairOf(args[1], args[2], args[3], fa, fb)
	num := func(i int) int {
		if i >= len(args) {
			return 0
		}
		n, _ := strconv.Atoi(args[i])
		return n
	}
	switch args[0] {
	case "cold":
		// The parsing that precedes the programs is part of the first use too: done inside the programs only.
		plan := []int{num(7)}
		var out [2][]string
		var fonts [2][]*Font
		body := func(i int) func() {
			return func() {
				defer func() {
					if x := recover(); x != nil {
						out[i] = append(out[i], fmt.Sprint("panic: ", x))
					}
				}()
				f, err := parse(p.data[i])
				if err != nil {
					out[i] = []string{"error"}
					return
				}
				out[i], fonts[i] = p.progs[i].do(p.data[i], f)
				fonts[i] = append([]*Font{f}, fonts[i]...)
			}
		}
		points, free, err := interleave([2]func(){body(0), body(1)}, num(6), plan)
		if err != nil {
			fmt.Println("failed:", err)
			return 1
		}
		for i := range out {
			for _, g := range fonts[i] {
				out[i] = append(out[i], observeAll(g)...)
			}
		}
		fmt.Printf("cold %x %x %d %v\n", hashStrings(out[0]), hashStrings(out[1]), points[0], free)
		return 0
	case "race":
		n := 2
		if p.shared {
			n = 4
		}
		res := make([]string, n)
		start := make(chan struct{})
		var wg sync.WaitGroup
		var shared *Font
		if p.shared {
			f, err := parse(p.data[0])
			if err != nil {
				return 3
			}
			shared = f
		}
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f := shared
				if f == nil {
					var err error
					if f, err = parse(p.data[i]); err != nil {
						res[i] = "error"
						return
					}
				}
				out, fonts := p.progs[i%2].do(p.data[i%2], f)
				if !p.shared {
					for _, g := range append([]*Font{f}, fonts...) {
						out = append(out, observeAll(g)...)
					}
				}
				res[i] = fmt.Sprintf("%x", hashStrings(out))
			}()
		}
		close(start)
		wg.Wait()
		fmt.Println("race", strings.Join(res, " "))
		return 0
	case "warm":
		mask, bound := num(6), num(7)
		want, wtext, err := p.alone()
		if err != nil {
			fmt.Println("failed:", err)
			return 1
		}
		schedules, frees := 0, 0
		try := func(plan []int) ([]int, bool) {
			res, text, points, free, err := p.exec(mask, plan)
			schedules++
			if free {
				frees++
			}
			if err != nil {
				fmt.Printf("failed: schedule %v: %v\n", plan, err)
				return nil, false
			}
			for i := range res {
				if res[i] != want[i] {
					fmt.Printf("failed: schedule %v: goroutine %d (%s) gives something else than alone: %v\n", plan, i, p.progs[i].name, diffObs(wtext[i], text[i]))
					return nil, false
				}
			}
			return points, true
		}
		pts, ok := try(nil)
		if !ok {
			return 1
		}
		k0 := pts[0]
		for k := 1; k <= k0; k++ {
			if bound < 2 {
				if _, ok := try([]int{k}); !ok {
					return 1
				}
				continue
			}
			pts, ok := try([]int{k})
			if !ok {
				return 1
			}
			if len(pts) < 2 {
				continue
			}
			for j := 1; j <= pts[1]; j++ {
				pts, ok := try([]int{k, j})
				if !ok {
					return 1
				}
				if bound < 3 || len(pts) < 3 {
					continue
				}
				for i := 1; i <= pts[2]; i++ {
					if _, ok := try([]int{k, j, i}); !ok {
						return 1
					}
				}
			}
		}
		fmt.Printf("warm %d schedules %d points %d uncontrolled\n", schedules, k0, frees)
		return 0
	}
	return 3
}

func helperOut(bin string, args ...string) (string, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 800*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, append([]string{"helper", "sched"}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66")
	if args[0] == "race" {
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	return strings.TrimSpace(o.String()), e.String(), err
}

func genC18(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		fatalExit("%v", err)
	}
	warm := func(kind, a, b string, fa, fb, mask, bound int) {
		c.Emit(fmt.Sprintf("warm/%s/%s+%s/fonts%d,%d/points%d/preemptions%d", kind, a, b, fa, fb, mask, bound), func(r *Rec) error {
			out, e, err := helperOut(self, "warm", kind, a, b, strconv.Itoa(fa), strconv.Itoa(fb), strconv.Itoa(mask), strconv.Itoa(bound))
			if err != nil {
				return fmt.Errorf("%v: %.1500s%.1500s", err, out, e)
			}
			var n, k, free int
			if _, err := fmt.Sscanf(out, "warm %d schedules %d points %d uncontrolled", &n, &k, &free); err != nil {
				return fmt.Errorf("helper: %s", out)
			}
			r.Trace(n)
			r.Trans(n * (bound + 1))
			r.Count("schedules", n)
			r.Count("scheduling points of first programs", k)
			r.Count("schedules let run freely", free)
			for i := 0; i < k; i++ {
				r.State(uint64(i) + hashStrings([]string{kind, a, b, fmt.Sprint(fa, fb, mask)})<<16)
			}
			r.Sample("%s: %s || %s, fonts %d,%d: %d schedules", kind, a, b, fa, fb, n)
			return nil
		})
	}
	progs, shared := programs(), sharedPrograms()
	c.Bound("preemptions at statements", 1)
	c.Bound("preemptions at function starts", c.Pick(1, 2))
	c.Bound("preemptions in shared lookups", c.Pick(2, 3))
	fontPairs := [][2]int{{0, 1}}
	if c.Thorough() {
		fontPairs = append(fontPairs, [2]int{1, 2}, [2]int{2, 0}, [2]int{0, 0})
	}
	for _, fp := range fontPairs {
		for _, a := range progs {
			for _, b := range progs {
				warm("own", a.name, b.name, fp[0], fp[1], ptStmt, 1)
			}
		}
	}
	if c.Thorough() {
		for _, a := range progs {
			for _, b := range progs {
				warm("own", a.name, b.name, 2, 1, ptFunc, 2)
			}
		}
	}
	for _, fa := range []int{0, 1, 2} {
		for _, a := range shared {
			for _, b := range shared {
				warm("shared", a.name, b.name, fa, fa, ptStmt, 2)
				if c.Thorough() {
					warm("shared", a.name, b.name, fa, fa, ptFunc, 3)
				}
			}
		}
	}
	genMerges(c)
	// First use in a process: one process per schedule.
	coldMask := c.Pick(ptGlobal, ptStmt)
	coldProgs := []string{"all", "info"}
	for _, a := range coldProgs {
		for _, b := range coldProgs {
			a, b := a, b
			if a != b && !c.Thorough() {
				continue
			}
			args := []string{"cold", "own", a, b, "2", "0", strconv.Itoa(coldMask)}
			p := pairOf("own", a, b, 2, 0)
			want := func() ([2]uint64, error) {
				w, _, err := p.alone()
				return w, err
			}
			w0, err := want()
			k0 := 0
			if err == nil {
				out, _, err := helperOut(self, append(append([]string{}, args...), "-1")...)
				if err == nil {
					var h0, h1 uint64
					var fr bool
					fmt.Sscanf(out, "cold %x %x %d %v", &h0, &h1, &k0, &fr)
				}
			}
			c.Bound(fmt.Sprintf("first-use schedules %s+%s", a, b), k0)
			c.Emit(fmt.Sprintf("cold/%s+%s/reference", a, b), func(r *Rec) error {
				if err != nil {
					return err
				}
				if k0 == 0 && coldMask == ptStmt {
					return errors.New("no scheduling points")
				}
				r.Trace(1)
				return nil
			})
			for lo := 0; lo <= k0; lo += 50 {
				lo := lo
				c.Emit(fmt.Sprintf("cold/%s+%s/%d", a, b, lo), func(r *Rec) error {
					for k := lo; k < lo+50 && k <= k0; k++ {
						out, e, err := helperOut(self, append(append([]string{}, args...), strconv.Itoa(k))...)
						if err != nil {
							return fmt.Errorf("first use, preempted at point %d: %v: %.1000s%.1500s", k, err, out, e)
						}
						var h0, h1 uint64
						var n int
						var fr bool
						if _, err := fmt.Sscanf(out, "cold %x %x %d %t", &h0, &h1, &n, &fr); err != nil {
							return fmt.Errorf("helper: %q", out)
						}
						if h0 != w0[0] || h1 != w0[1] {
							return fmt.Errorf("first use in a process, %s preempted by %s at point %d: results differ from those alone", a, b, k)
						}
						r.Trace(1)
						r.Trans(2)
						r.Count("first-use schedules", 1)
						r.State(uint64(k) | hashStrings(args)<<20)
					}
					return nil
				})
			}
		}
	}
	emitDuring(c)
	// Race detector, uncontrolled, own process each.
	race := os.Getenv("VERIF_RACE_BIN")
	c.Bound("race detector", race != "")
	if race == "" {
		return
	}
	reps := c.Pick(1, 6)
	raceCase := func(kind, a, b string, fa, fb int) {
		c.Emit(fmt.Sprintf("race/%s/%s+%s/fonts%d,%d", kind, a, b, fa, fb), func(r *Rec) error {
			for k := 0; k < reps; k++ {
				out, e, err := helperOut(race, "race", kind, a, b, strconv.Itoa(fa), strconv.Itoa(fb))
				if err != nil {
					return fmt.Errorf("%v: %.300s%.2500s", err, out, e)
				}
				r.Trace(1)
				r.Count("runs under the race detector", 1)
			}
			return nil
		})
	}
	for i, a := range progs {
		for _, b := range progs[i:] {
			raceCase("own", a.name, b.name, 0, 1)
			if c.Thorough() {
				raceCase("own", a.name, b.name, 2, 2)
			}
		}
	}
	for i, a := range progs {
		for _, b := range progs[i:] {
			raceCase("own", a.name, b.name, 3, 4)
		}
	}
	for i, a := range shared {
		for _, b := range shared[i:] {
			raceCase("shared", a.name, b.name, 3, 3)
			raceCase("shared", a.name, b.name, 0, 0)
			raceCase("shared", a.name, b.name, 1, 1)
		}
	}
}

func init() {
	register(&Check{ID: "C18", Level: "model_checking",
		Rule: "stateless exploration of the real code under a controlled scheduler: the library is compiled with a scheduling point before every statement (overlay). For every ordered pair of 12 programs on two fonts, every schedule with one preemption at any statement (thorough: two at function starts); for every ordered pair of lookups on one shared font, every schedule with two; for first use in a process, one process per preemption point; every merge of sequences of whole operations on two and three fonts, compared with a process that only knows the one font. Each goroutine's results and its fonts' later answers must equal those alone. At every call of a source or sink of one font (every eighth for a font larger than any buffer; thorough: every one) a whole program runs on another font. In addition every pair runs free under the race detector",
		Gen:  genC18})
}
