//go:build go1.22

// C24: what belongs to the caller (arguments, source bytes and files, returned values, process resources) stays the
// caller's.

package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/unidoc/unitype"
)

// ---- arguments ----

// roomy copies s into an array with spare room on both sides, filled with v.
func roomy[T comparable](s []T, v T) (all, arg []T) {
	const room = 4
	all = make([]T, 0, len(s)+2*room)
	for i := 0; i < room; i++ {
		all = append(all, v)
	}
	all = append(all, s...)
	for i := 0; i < room; i++ {
		all = append(all, v)
	}
	return all, all[room : room+len(s)]
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// lent calls do with a copy of s that has spare room behind it, checks that neither it nor the room was written to,
// and then overwrites all of it.
func lent[T comparable](what string, s []T, fill, over T, do func(arg []T)) error {
	all, arg := roomy(s, fill)
	before := append([]T(nil), all...)
	do(arg)
	if !same(all, before) {
		return fmt.Errorf("%s: the argument %v was %v", what, all, before)
	}
	for i := range all {
		all[i] = over
	}
	return nil
}

// borrow is one call with arguments taken from the caller.
type borrow struct {
	name string
	do   func(f *Font) (derived *Font, err error) // err: the argument was touched
}

func borrowKeep(set ...GID) borrow {
	return borrow{fmt.Sprintf("SubsetKeepIndices(%v)", set), func(f *Font) (g *Font, err error) {
		err = lent("SubsetKeepIndices", set, 1, 3, func(a []GID) { g, _ = f.SubsetKeepIndices(a) })
		return
	}}
}

func borrowRunes(s string) borrow {
	return borrow{fmt.Sprintf("SubsetKeepRunes(%q)", s), func(f *Font) (g *Font, err error) {
		err = lent("SubsetKeepRunes", []rune(s), 'B', 'C', func(a []rune) { g, _ = f.SubsetKeepRunes(a) })
		return
	}}
}

func borrowLookup(s string) borrow {
	return borrow{fmt.Sprintf("LookupRunes(%q)", s), func(f *Font) (_ *Font, err error) {
		var again error
		err = lent("LookupRunes", []rune(s), 'B', 'C', func(a []rune) {
			var first []GID
			for i := 0; i < 3; i++ {
				x := f.LookupRunes(a)
				if i == 0 {
					first = append([]GID(nil), x...)
				} else if !same(x, first) {
					again = fmt.Errorf("LookupRunes gives %v, and once that is overwritten %v", first, x)
				}
				for i := range x {
					x[i] = 77
				}
				x = append(x, 5)
				x[len(x)-1]++
			}
		})
		if err == nil {
			err = again
		}
		return
	}}
}

func borrowPrune(ts ...string) borrow {
	return borrow{fmt.Sprintf("PruneTables(%q)", ts), func(f *Font) (_ *Font, err error) {
		err = lent("PruneTables", ts, "name", "cmap", func(a []string) { f.PruneTables(a...) })
		return
	}}
}

func borrowSubset(set ...GID) borrow {
	return borrow{fmt.Sprintf("Subset(%v)", set), func(f *Font) (g *Font, err error) {
		err = lent("Subset", set, 1, 3, func(a []GID) { g, _, _ = f.Subset(a) })
		return
	}}
}

func borrowNames() borrow {
	return borrow{"GetNameRecords, altered", func(f *Font) (*Font, error) {
		for i := 0; i < 2; i++ {
			m := f.GetNameRecords()
			for l, x := range m {
				for id := range x {
					x[id] = "altered"
				}
				x[999] = "added"
				if l%2 == 0 {
					delete(m, l)
				}
			}
			if m != nil {
				m[7777] = map[uint16]string{1: "added"}
			}
		}
		return nil, nil
	}}
}

func borrowWrite() borrow {
	return borrow{"Write, altered", func(f *Font) (*Font, error) {
		b, err := write(f)
		if err == nil {
			for i := range b {
				b[i] ^= 0xFF
			}
		}
		return nil, nil
	}}
}

// calls are the plain counterparts: the same calls with arguments nobody touches afterwards.
func borrows() []borrow {
	return []borrow{
		borrowKeep(2), borrowKeep(4, 1, 4, 0), borrowKeep(5), borrowRunes("AB"), borrowRunes("\u03b1"),
		borrowLookup("ABCA"), borrowPrune("post"), borrowPrune("cmap", "nosuch"), borrowSubset(0, 1), borrowNames(), borrowWrite(),
	}
}

func plainCall(name string, f *Font) (*Font, string) {
	show := func(g *Font, err error) (*Font, string) {
		if err != nil {
			return nil, err.Error()
		}
		return g, ""
	}
	var ids []GID
	switch k, arg, _ := strings.Cut(name, "("); k {
	case "SubsetKeepIndices", "Subset":
		for _, t := range strings.Fields(strings.Trim(arg, "[])")) {
			var n int
			fmt.Sscan(t, &n)
			ids = append(ids, GID(n))
		}
		if k == "Subset" {
			g, _, err := f.Subset(ids)
			return show(g, err)
		}
		return show(f.SubsetKeepIndices(ids))
	}
	return nil, ""
}

// untouched runs a sequence of calls whose arguments are checked and afterwards overwritten, once on a font whose
// source bytes are overwritten and once on a font nothing happens to; all fonts of both runs must be equal.
func untouched(r *Rec, data []byte, seq []borrow) error {
	r.Input(data)
	src, lentBytes := roomy(data, 0xA5)
	before := append([]byte(nil), src...)
	f, err := parse(lentBytes)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	if !bytes.Equal(src, before) {
		return errors.New("Parse changes the bytes it reads")
	}
	for i := range src {
		src[i] = byte(i)
	}
	fonts, name := []*Font{f}, ""
	for _, b := range seq {
		name += b.name + "; "
		g, err := b.do(fonts[len(fonts)-1])
		if err != nil {
			return fmt.Errorf("%s%v", name, err)
		}
		if g != nil {
			fonts = append(fonts, g)
		}
		r.Trans(1)
	}
	ref, err := parse(append([]byte(nil), data...))
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	k := 0
	cur := ref
	check := func(f *Font) error {
		if k >= len(fonts) {
			return fmt.Errorf("%sno font where the same calls with arguments left alone give one", name)
		}
		err := diffObs(observeAll(f), observeAll(fonts[k]))
		k++
		if err != nil {
			return fmt.Errorf("%sfont %d differs once arguments, results and source are overwritten: %v", name, k-1, err)
		}
		return nil
	}
	var chain []*Font
	chain = append(chain, cur)
	for _, b := range seq {
		switch kind, arg, _ := strings.Cut(b.name, "("); kind {
		case "SubsetKeepIndices", "Subset":
			if g, _ := plainCall(b.name, cur); g != nil {
				cur = g
				chain = append(chain, g)
			}
		case "SubsetKeepRunes":
			var s string
			fmt.Sscanf(strings.TrimSuffix(arg, ")"), "%q", &s)
			if g, err := cur.SubsetKeepRunes([]rune(s)); err == nil {
				cur = g
				chain = append(chain, g)
			}
		case "PruneTables":
			for _, t := range []string{"cmap", "post"} {
				if strings.Contains(arg, `"`+t+`"`) {
					cur.PruneTables(t)
				}
			}
		}
	}
	for _, f := range chain {
		if err := check(f); err != nil {
			return err
		}
	}
	if k != len(fonts) {
		return fmt.Errorf("%s%d fonts, %d without overwriting", name, len(fonts), k)
	}
	r.Trace(1)
	r.State(hashStrings(observeAll(fonts[len(fonts)-1])))
	r.Sample("%s", name)
	return nil
}

// ---- process resources ----

// world is what the process and the directory hold.
type world struct {
	fds    string
	gor    int
	cwd    string
	env    string
	level  logrus.Level
	logOut interface{}
	files  string
	temp   string
}

var (
	tempOnce sync.Once
	tempPath string
)

// tempDir is a directory for temporary files that nobody but the library would use.
func tempDir() string {
	tempOnce.Do(func() {
		tempPath, _ = os.MkdirTemp(scratchDir(), "temp")
		os.Setenv("TMPDIR", tempPath)
	})
	return tempPath
}

func openFiles() string {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return ""
	}
	var out []string
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasSuffix(t, "/fd") || strings.HasPrefix(t, "anon_inode:") {
			continue
		}
		out = append(out, e.Name()+"="+t)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func fileStates(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		t := fmt.Sprintf("%s %v %d %v", p, i.Mode(), i.Size(), i.ModTime().UnixNano())
		if i.IsDir() {
			t = fmt.Sprintf("%s %v", p, i.Mode())
		}
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			t += fmt.Sprintf(" %x", hashBytes(b))
		}
		out = append(out, t)
		return nil
	})
	return strings.Join(out, "\n")
}

func worldNow(dir string) world {
	cwd, _ := os.Getwd()
	temp := fileStates(tempDir())
	return world{openFiles(), runtime.NumGoroutine(), cwd, strings.Join(os.Environ(), "\n"), logrus.GetLevel(), logrus.StandardLogger().Out, fileStates(dir), temp}
}

// leavesAlone runs do with the garbage collector off (it would close forgotten files) and compares the world before
// and after, the files of dir included, except those named in but.
func leavesAlone(dir string, do func() error) error {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	w := worldNow(dir)
	if err := do(); err != nil {
		return err
	}
	x := worldNow(dir)
	for i := 0; x.gor > w.gor && i < 100; i++ {
		time.Sleep(time.Millisecond)
		x.gor = runtime.NumGoroutine()
	}
	switch {
	case w.fds != x.fds:
		return fmt.Errorf("open files were %q, are %q", w.fds, x.fds)
	case x.gor > w.gor:
		return fmt.Errorf("%d goroutines were running, %d are", w.gor, x.gor)
	case w.cwd != x.cwd || w.env != x.env:
		return errors.New("the working directory or environment has changed")
	case w.level != x.level || w.logOut != x.logOut:
		return errors.New("the log level or output has changed")
	case w.temp != x.temp:
		return fmt.Errorf("temporary files were %q, are %q", w.temp, x.temp)
	case w.files != x.files:
		return fmt.Errorf("files were %q, are %q", w.files, x.files)
	}
	return nil
}

// fileCalls opens the file in every way; the results go by the wayside.
func fileCalls(p string) error {
	f, err := unitype.ParseFile(p)
	if err == nil && f == nil {
		return errors.New("ParseFile returns neither a font nor an error")
	}
	unitype.ValidateFile(p)
	return nil
}

// readsOnly checks that reading a file with content d (or, for nil, whatever is at name) leaves the world alone.
func readsOnly(r *Rec, d []byte) error {
	r.Input(d)
	dir, err := os.MkdirTemp(scratchDir(), "ro")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "f.ttf")
	if err := os.WriteFile(p, d, 0o640); err != nil {
		return nil
	}
	os.Chtimes(p, time.Unix(1e9, 5000), time.Unix(1e9, 7000))
	r.Trans(2)
	r.State(hashBytes(d))
	return leavesAlone(dir, func() error { return fileCalls(p) })
}

// independent checks that a font parsed from a file does not need it any more.
func independent(r *Rec, d []byte) error {
	r.Input(d)
	ref, err := parse(d)
	if err != nil {
		return nil
	}
	want := observeAll(ref)
	for how := 0; how < 4; how++ {
		dir, err := os.MkdirTemp(scratchDir(), "ind")
		if err != nil {
			return nil
		}
		p := filepath.Join(dir, "f.ttf")
		os.WriteFile(p, d, 0o600)
		f, err := unitype.ParseFile(p)
		switch how {
		case 0:
			os.Remove(p)
		case 1:
			os.Truncate(p, 0)
		case 2:
			os.WriteFile(p, bytes.Repeat([]byte{0xEE}, len(d)), 0o600)
		case 3:
			if err == nil { // onto its own source
				if werr := f.WriteFile(p); werr != nil {
					err = werr
				}
			}
		}
		if err == nil {
			err = diffObs(want, observeAll(f))
		}
		if err == nil && how == 3 {
			b, _ := os.ReadFile(p)
			err = diffBytes("file written onto the source", b, []byte(strings.TrimPrefix(want[len(want)-1], "Write ")))
		}
		os.RemoveAll(dir)
		if err != nil {
			return fmt.Errorf("source file removed, emptied, overwritten, written to (%d): %v", how, err)
		}
		r.Trans(1)
	}
	r.Trace(1)
	r.State(hashStrings(want))
	return nil
}

// writesOnly checks that WriteFile to each kind of target leaves everything but the target alone.
func writesOnly(r *Rec, d []byte) error {
	r.Input(d)
	f, err := parse(d)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	want, err := write(f)
	if err != nil {
		return err
	}
	for _, kind := range []string{"new", "old", "link", "hard", "missing", "dir", "full", "empty", "longname", "below"} {
		dir, err := os.MkdirTemp(scratchDir(), "wo")
		if err != nil {
			return nil
		}
		err = func() error {
			defer os.RemoveAll(dir)
			sub := filepath.Join(dir, "out")
			rest := filepath.Join(dir, "rest")
			os.Mkdir(sub, 0o700)
			os.Mkdir(rest, 0o700)
			os.WriteFile(filepath.Join(rest, "other.ttf"), d, 0o600)
			old := bytes.Repeat([]byte("old "), 5000+len(d)/4)
			p, ok := filepath.Join(sub, "f.ttf"), true
			list := "f.ttf"
			switch kind {
			case "old":
				os.WriteFile(p, old, 0o640)
			case "link":
				os.WriteFile(filepath.Join(sub, "g.ttf"), old, 0o640)
				os.Symlink("g.ttf", p)
				list = "f.ttf g.ttf"
			case "hard":
				os.WriteFile(filepath.Join(sub, "g.ttf"), old, 0o640)
				os.Link(filepath.Join(sub, "g.ttf"), p)
				list = "f.ttf g.ttf"
			case "missing":
				p, ok, list = filepath.Join(sub, "no", "f.ttf"), false, ""
			case "dir":
				os.Mkdir(p, 0o700)
				ok = false
			case "full":
				if i, err := os.Stat("/dev/full"); err != nil || i.Mode()&os.ModeCharDevice == 0 {
					return nil
				}
				os.Symlink("/dev/full", p)
				ok = false
			case "empty":
				p, ok, list = "", false, ""
			case "longname":
				p, ok, list = filepath.Join(sub, strings.Repeat("x", 300)), false, ""
			case "below":
				os.WriteFile(filepath.Join(sub, "f.ttf"), old, 0o640)
				p, ok = filepath.Join(sub, "f.ttf", "g"), false
			}
			err := leavesAlone(rest, func() error {
				if err := f.WriteFile(p); (err == nil) != ok {
					return fmt.Errorf("WriteFile: %v", err)
				}
				return nil
			})
			if err != nil {
				return err
			}
			r.Trans(1)
			var names []string
			es, _ := os.ReadDir(sub)
			for _, e := range es {
				names = append(names, e.Name())
			}
			if got := strings.Join(names, " "); got != list {
				return fmt.Errorf("leaves files %q, want %q", got, list)
			}
			if ok {
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				if err := diffBytes("file", b, want); err != nil {
					return err
				}
				if kind == "old" {
					if i, err := os.Stat(p); err != nil || i.Mode().Perm() != 0o640 {
						return errors.New("the permissions of an existing file have changed")
					}
				}
			} else if kind == "below" {
				if b, _ := os.ReadFile(filepath.Join(sub, "f.ttf")); !bytes.Equal(b, old) {
					return errors.New("a file on the way to the target has changed")
				}
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("target %s: %v", kind, err)
		}
	}
	r.Trace(1)
	r.State(hashBytes(want))
	return nil
}

// countRS tells whether the source is used.
type countRS struct {
	r      *bytes.Reader
	calls  int
	poison bool
}

func (c *countRS) Read(p []byte) (int, error) {
	c.calls++
	if c.poison {
		for i := range p {
			p[i] = 0xCC
		}
		return len(p), nil
	}
	return c.r.Read(p)
}

func (c *countRS) Seek(o int64, w int) (int64, error) {
	c.calls++
	if c.poison {
		return 0, errors.New("source is gone")
	}
	return c.r.Seek(o, w)
}

func genC24(c *Ctx) {
	bs := borrows()
	d := c.Pick(3, 4)
	c.Bound("calls per history", d)
	c.Bound("calls", len(bs))
	for _, b := range append(bases(), vbases()...) {
		data, _ := b.Mk().Encode()
		for i := range bs {
			i := i
			c.Emit(fmt.Sprintf("arguments/%s/%s", b.Name, bs[i].name), func(r *Rec) error {
				var rec func(seq []borrow) error
				rec = func(seq []borrow) error {
					if err := untouched(r, data, seq); err != nil {
						return err
					}
					if len(seq) == d {
						return nil
					}
					for _, b := range bs {
						if err := rec(append(seq[:len(seq):len(seq)], b)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]borrow{bs[i]})
			})
		}
	}
	// Every sequence of indices, and of runes, up to a length.
	l := c.Pick(4, 5)
	c.Bound("indices per call", l)
	alphabet := []GID{0, 2, 4, 5, 9}
	letters := []rune{'A', 'C', 0x3B1, 0x1F600, 'q'}
	for _, b := range bases() {
		data, _ := b.Mk().Encode()
		for first := range alphabet {
			first := first
			c.Emit(fmt.Sprintf("sequences/%s/%d", b.Name, first), func(r *Rec) error {
				r.Input(data)
				f, err := parse(data)
				if err != nil {
					return err
				}
				want := observeAll(f)
				var oops error
				sequences(len(alphabet), l-1, func(seq []int) {
					if oops != nil {
						return
					}
					ids, rs := []GID{alphabet[first]}, []rune{letters[first]}
					for _, x := range seq {
						ids, rs = append(ids, alphabet[x]), append(rs, letters[x])
					}
					for _, e := range []error{
						lent("SubsetKeepIndices", ids, 1, 3, func(a []GID) { f.SubsetKeepIndices(a) }),
						lent("SubsetKeepRunes", rs, 'B', 'C', func(a []rune) { f.SubsetKeepRunes(a) }),
						lent("LookupRunes", rs, 'B', 'C', func(a []rune) { f.LookupRunes(a) }),
					} {
						if e != nil {
							oops = e
						}
					}
					r.Trans(3)
					r.State(hashStrings([]string{b.Name, fmt.Sprint(ids, rs)}))
				})
				if oops != nil {
					return oops
				}
				r.Trace(1)
				return diffObs(want, observeAll(f))
			})
		}
	}
	// Long arguments.
	lens := []int{5, 12, 13, 16, 17, 31, 33, 64, 65, 127, 129, 255, 257, 1000, 5000, 70000}
	c.Bound("long arguments", lens)
	for _, n := range lens {
		n := n
		for _, b := range []Base{{"base", baseSpec}, {"glyphs", func() *Spec { return countSpec(3000, 3000, 1) }}} {
			b := b
			c.Emit(fmt.Sprintf("long/%s/%d", b.Name, n), func(r *Rec) error {
				s := b.Mk()
				data, _ := s.Encode()
				r.Input(data)
				f, err := parse(data)
				if err != nil {
					return err
				}
				want := observeAll(f)
				for how := 0; how < 3; how++ {
					var ids []GID
					var rs []rune
					var ts []string
					for i := 0; i < n; i++ {
						k := []int{n - i, i, i*7919 + 5}[how]
						ids = append(ids, GID(k%len(s.Glyphs)))
						rs = append(rs, rune(0x41+k%100))
						ts = append(ts, []string{"post", "zzzz", "", "glyf", "POST"}[k%5])
					}
					for _, e := range []error{
						lent("SubsetKeepIndices", ids, 1, 3, func(a []GID) { f.SubsetKeepIndices(a) }),
						lent("Subset", ids, 1, 3, func(a []GID) { f.Subset(a) }),
						lent("SubsetKeepRunes", rs, 'B', 'C', func(a []rune) { f.SubsetKeepRunes(a) }),
						lent("LookupRunes", rs, 'B', 'C', func(a []rune) { f.LookupRunes(a) }),
						lent("PruneTables", ts, "name", "cmap", func(a []string) {
							if g, err := parse(data); err == nil {
								g.PruneTables(a...)
							}
						}),
					} {
						if e != nil {
							t := e.Error()
							return fmt.Errorf("%d arguments: %s", n, t[:min(len(t), 300)])
						}
					}
					r.Trans(5)
				}
				r.Trace(1)
				return diffObs(want, observeAll(f))
			})
		}
	}
	k := c.Pick(2, 3)
	c.Bound("max_deviations", k)
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("font/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			if err := untouched(r, data, []borrow{borrowKeep(2, 4), borrowRunes("AB"), borrowNames()}); err != nil {
				return err
			}
			return lent("ValidateBytes", data, 0x5A, 0, func(a []byte) { unitype.ValidateBytes(a) })
		})
	})
	eachFont(1, func(name string, mk func() *Spec) {
		c.Emit("source/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			if err := independent(r, data); err != nil {
				return err
			}
			rs := &countRS{r: bytes.NewReader(data)}
			f, err := unitype.Parse(rs)
			if err != nil {
				return fmt.Errorf("Parse: %v", err)
			}
			n := rs.calls
			rs.poison = true
			if err := sweepAPI(f, 1); err != nil {
				return err
			}
			if rs.calls != n {
				return fmt.Errorf("the source is used %d times after Parse has returned", rs.calls-n)
			}
			return nil
		})
		c.Emit("read/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			return readsOnly(r, data)
		})
		c.Emit("write/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			return writesOnly(r, data)
		})
	})
	// Damaged and cut-off files.
	for _, b := range bases() {
		data, _ := b.Mk().Encode()
		step := c.Pick(4, 1)
		c.Bound("length and damage step", step)
		for part := 0; part < 16; part++ {
			part := part
			c.Emit(fmt.Sprintf("cut/%s/%d", b.Name, part), func(r *Rec) error {
				r.Trace(1)
				for n := part * step; n < len(data); n += 16 * step {
					if err := readsOnly(r, data[:n]); err != nil {
						return fmt.Errorf("cut off at %d: %v", n, err)
					}
				}
				return nil
			})
			c.Emit(fmt.Sprintf("damage/%s/%d", b.Name, part), func(r *Rec) error {
				r.Trace(1)
				for n := part * step; n < len(data); n += 16 * step {
					for _, x := range []byte{0x80, 0xFF, 0x01} {
						bad := clone(data)
						bad[n] ^= x
						var err error
						if x == 0x80 || c.Thorough() {
							err = readsOnly(r, bad)
						}
						if err == nil {
							err = lent("ValidateBytes", bad, 0x5A, 0, func(a []byte) { unitype.ValidateBytes(a) })
						}
						if err == nil {
							err = lent("Parse", bad, 0x5A, 0, func(a []byte) { unitype.Parse(bytes.NewReader(a)) })
						}
						if err != nil {
							return fmt.Errorf("byte %d changed by %#x: %v", n, x, err)
						}
						r.Trans(2)
					}
				}
				return nil
			})
		}
	}
	for _, b := range sizeFonts(c.Thorough()) {
		b := b
		c.Emit("size/"+b.Name, func(r *Rec) error {
			data, _ := b.Mk().Encode()
			r.Trace(1)
			if err := readsOnly(r, data); err != nil {
				return err
			}
			if err := lent("ValidateBytes", data, 0x5A, 0, func(a []byte) { unitype.ValidateBytes(a) }); err != nil {
				return errors.New("ValidateBytes changes its argument")
			}
			if huge(b) {
				return nil
			}
			return writesOnly(r, data)
		})
	}
	emitLimits(c, "tidy")
	c.Emit("paths", func(r *Rec) error {
		dir, err := os.MkdirTemp(scratchDir(), "paths")
		if err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		os.Mkdir(filepath.Join(dir, "d"), 0o700)
		os.Symlink("nowhere", filepath.Join(dir, "dangling"))
		os.Symlink("loop", filepath.Join(dir, "loop"))
		os.WriteFile(filepath.Join(dir, "empty"), nil, 0o600)
		for _, p := range []string{"", "none", "d", "dangling", "loop", "empty", "empty/x", strings.Repeat("y", 300), "a\x00b"} {
			q := filepath.Join(dir, p)
			if p == "" || strings.Contains(p, "\x00") {
				q = p
			}
			err := leavesAlone(dir, func() error {
				if f, err := unitype.ParseFile(q); err == nil || f != nil {
					return fmt.Errorf("ParseFile gives font %v, error %v", f != nil, err)
				}
				if err := unitype.ValidateFile(q); err == nil {
					return errors.New("ValidateFile accepts it")
				}
				return nil
			})
			if err != nil {
				return fmt.Errorf("path %q: %v", p, err)
			}
			r.Trans(2)
			r.State(hashStrings([]string{p}))
		}
		r.Trace(1)
		return nil
	})
	names, rd := realFonts()
	for _, n := range names {
		n := n
		c.Emit("real/"+n, func(r *Rec) error {
			for _, do := range []func(*Rec, []byte) error{readsOnly, independent, writesOnly} {
				if err := do(r, rd[n]); err != nil && !strings.HasPrefix(err.Error(), "Parse: ") {
					return err
				}
			}
			return nil
		})
	}
}

func init() {
	register(&Check{ID: "C24", Level: "model_checking",
		Rule:   "every sequence of calls up to the depth bound whose arguments, results and source bytes are compared before and after and then overwritten, against the same calls left alone; every index and rune sequence up to a length; every font with one deviation read from and written to every kind of path, every cut-off and damaged file, with the open descriptors, goroutines, environment and surrounding files of the process compared before and after (garbage collection off); no use of the source after Parse",
		Assume: []string{"the map GetCmap returns is the font's own and is not altered"},
		Gen:    genC24})
}
