//go:build go1.22

// C19: the command line tool against the library.

package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/unidoc/unitype"
)

// cliRun runs the real binary in dir and returns whether it exited with 0 and its output.
func cliRun(dir string, args ...string) (bool, string, error) {
	var out bytes.Buffer
	cmd := exec.Command(os.Getenv("VERIF_CLI_BIN"), args...)
	cmd.Dir = dir
	cmd.Stdout = &out
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	if err := cmd.Start(); err != nil {
		return false, "", fmt.Errorf("cannot run the tool: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err == nil, out.String(), nil
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		<-done
		return false, "", errors.New("does not terminate")
	}
}

func listDir(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// cliFont is what the library says about the bytes of an input file.
type cliFont struct {
	data  []byte
	valid bool // ValidateBytes accepts
	rw    []byte
	rwErr bool // readwrite must fail: no parse, no write or the written font is not valid
}

func newCliFont(d []byte) *cliFont {
	x := &cliFont{data: d, valid: unitype.ValidateBytes(clone(d)) == nil}
	f, err := parse(d)
	if err != nil {
		x.rwErr = true
		return x
	}
	b, err := write(f)
	if err != nil || unitype.ValidateBytes(b) != nil {
		x.rwErr = true
		return x
	}
	x.rw = b
	return x
}

// subset is the library's file for a subset, or an error.
func (x *cliFont) subset(do func(f *Font) (*Font, error)) ([]byte, error) {
	if x.rwErr {
		return nil, errors.New("not a usable font")
	}
	f, err := parse(x.data)
	if err != nil {
		return nil, err
	}
	g, err := do(f)
	if err != nil {
		return nil, err
	}
	b, err := write(g)
	if err != nil {
		return nil, err
	}
	return b, unitype.ValidateBytes(b)
}

// cliCase runs one command on the font twice, without and with a previous output file, and compares.
func cliCase(r *Rec, x *cliFont, outName string, want []byte, wantErr bool, args ...string) error {
	for _, stale := range []bool{false, true} {
		dir, err := os.MkdirTemp(scratchDir(), "cli")
		if err != nil {
			return nil
		}
		err = func() error {
			defer os.RemoveAll(dir)
			if err := os.WriteFile(filepath.Join(dir, "in.ttf"), x.data, 0o600); err != nil {
				return nil
			}
			old := bytes.Repeat([]byte("previous content "), 2000)
			if stale {
				if outName == "" {
					return nil
				}
				if outName != "in.ttf" {
					os.WriteFile(filepath.Join(dir, outName), old, 0o600)
				}
			}
			before := listDir(dir)
			ok, _, err := cliRun(dir, args...)
			if err != nil {
				return err
			}
			r.Trans(1)
			r.State(hashStrings(append([]string{string(x.data)}, args...)))
			if ok == wantErr {
				return fmt.Errorf("truecli %q exits with success %v, want %v", args, ok, !wantErr)
			}
			after := listDir(dir)
			if wantErr || outName == "" {
				if strings.Join(before, "|") != strings.Join(after, "|") {
					return fmt.Errorf("truecli %q leaves files %q", args, after)
				}
				if stale && outName != "in.ttf" {
					b, _ := os.ReadFile(filepath.Join(dir, outName))
					if !bytes.Equal(b, old) {
						return fmt.Errorf("truecli %q fails and changes the output file", args)
					}
				}
			} else {
				b, err := os.ReadFile(filepath.Join(dir, outName))
				if err != nil {
					return fmt.Errorf("truecli %q leaves no output: %v", args, err)
				}
				if err := diffBytes(fmt.Sprintf("output of truecli %q", args), b, want); err != nil {
					return err
				}
			}
			if outName != "in.ttf" {
				if b, _ := os.ReadFile(filepath.Join(dir, "in.ttf")); !bytes.Equal(b, x.data) {
					return fmt.Errorf("truecli %q changes its input", args)
				}
			}
			return nil
		}()
		if err != nil {
			return err
		}
	}
	r.Trace(1)
	return nil
}

func cliGids(args []string) ([]GID, bool) {
	var out []GID
	for _, a := range args {
		n, err := strconv.ParseUint(a, 10, 64)
		if err != nil || n > 65535 {
			return nil, false
		}
		out = append(out, GID(n))
	}
	return out, true
}

var infoFlags = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"}

// cliInfo: the output consists of exactly the library's text for each table asked for.
func cliInfo(r *Rec, x *cliFont, flags ...string) error {
	dir, err := os.MkdirTemp(scratchDir(), "cli")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "in.ttf"), x.data, 0o600); err != nil {
		return nil
	}
	args := []string{"info"}
	for _, f := range flags {
		args = append(args, "--"+f)
	}
	args = append(args, "in.ttf")
	ok, out, err := cliRun(dir, args...)
	if err != nil {
		return err
	}
	r.Trans(1)
	r.Trace(1)
	r.State(hashStrings(append([]string{string(x.data)}, args...)))
	f, perr := parse(x.data)
	if ok != (perr == nil) {
		return fmt.Errorf("truecli %q exits with success %v; Parse: %v", args, ok, perr)
	}
	if l := listDir(dir); len(l) != 1 {
		return fmt.Errorf("truecli %q leaves files %q", args, l)
	}
	if perr != nil {
		return nil
	}
	out = pointerText.ReplaceAllString(out, ")(PTR)")
	total := 0
	for _, t := range flags {
		want := tableInfo(f, t)
		total += len(want)
		if !strings.Contains(out, want) {
			return fmt.Errorf("truecli %q does not print the library's text for %s", args, t)
		}
	}
	if len(out) != total {
		return fmt.Errorf("truecli %q prints %d bytes, the tables' texts have %d", args, len(out), total)
	}
	return nil
}

// runesFont maps every character of the rune arguments to a glyph of its own.
func runesFont() *Spec {
	s := baseSpec()
	chars := []rune{' ', '\t', '\n', '\r', 0xA0, 0x3000, 0xFEFF, '\'', '"', ',', '@', '#', '%', '$', '*', '~', '+', '\\', '-', '.', '/',
		'0', '1', '4', '5', '6', 'A', 'B', 'C', 'D', 'E', 'H', 'M', 'O', 'S', 'U', 'a', 'f', 'i', 'n', 't', 'u', 'x', 'z', 0x7F, 0xC1, 0xC4, 0xE1, 0x301, 0x3B1, 0x4E00, 0xFFFD, 0xFFFF, 0x1F600}
	g := make([][]byte, len(chars)+1)
	var groups []Group
	sort.Slice(chars, func(i, j int) bool { return chars[i] < chars[j] })
	for i := range g {
		g[i] = simpleGlyph(12, i)
		if i > 0 {
			groups = append(groups, Group{uint32(chars[i-1]), uint32(chars[i-1]), uint32(i)})
		}
	}
	setGlyphs(s, g, 5)
	s.Cmap = &CmapTab{Subs: []Sub{mkFmt12(3, 10, 0, groups)}}
	return s
}

func genC19(c *Ctx) {
	if os.Getenv("VERIF_CLI_BIN") == "" {
		fatalExit("VERIF_CLI_BIN is not set")
	}
	gidArgs := [][]string{
		{"0"}, {"1"}, {"2"}, {"5"}, {"6"}, {"1", "4"}, {"4", "1", "4"}, {"3", "0"}, {"65535"}, {"65534", "2"},
		{"65536"}, {"65537"}, {"-1"}, {"1", "65536"}, {"x"}, {"1", "x"}, {""}, {"1.5"}, {"0x2"}, {"99999999999999999999"}, {"4294967297"}, {"2", "-3"}, {"1 2"}, {"1,2"}, {"2e0"},
		{"18446744073709551617"}, {"131072"}, {"+5"}, {"007"}, {"010"}, {"00000000000000000000005"}, {"\u0661"}, {"1_0"}, {" 1"}, {"1 "}, {"0b1"}, {"0o2"}, {"1", ""},
	}
	for _, n := range []int{255, 256, 257, 1000, 4097} { // one that counts at the end of a long list
		l := make([]string, n)
		for i := range l {
			l[i] = strconv.Itoa(i % 2)
		}
		gidArgs = append(gidArgs, append(l, "4"), append(l[:n:n], "65536"))
	}
	runeArgs := []string{"A", "B", "AB", "BA", "AAA", "z", "", "\U0001F600", "A\u03b1\u4e00", "\u00c4", "C D", "-", "\xff",
		" ", "A ", " A", "\t", "A\t", "\n", "A\n", "\r\nA", "\u00a0", "A\u00a0", "\u3000A", "\ufeffA", "'A'", "\"A\"", "A,B", "@A", "@in.ttf", "U+0041", "0x41", "\\u0041", "65", "a", "A\u0301", "\u00c1",
		"#", "%41", "A\x7f", "A\xffB", "\xed\xa0\x80", "\uffff", "\ufffd", "in.ttf", "$HOME", "*", "~"}
	for _, n := range []int{63, 255, 1023, 1024, 4095, 4096, 30000} {
		runeArgs = append(runeArgs, strings.Repeat("A", n)+"D", strings.Repeat("\u00e9", n/2)+"BD\U0001F600")
	}
	fonts := func(name string, x *cliFont, every bool) {
		c.Emit("validate/"+name, func(r *Rec) error {
			r.Input(x.data)
			return cliCase(r, x, "", nil, !x.valid, "validate", "in.ttf")
		})
		c.Emit("readwrite/"+name, func(r *Rec) error {
			r.Input(x.data)
			return cliCase(r, x, "readwrite.ttf", x.rw, x.rwErr, "readwrite", "in.ttf")
		})
		c.Emit("simple/"+name, func(r *Rec) error {
			r.Input(x.data)
			want, err := x.subset(func(f *Font) (*Font, error) { return f.SubsetFirst(256) })
			return cliCase(r, x, "subset.ttf", want, err != nil, "subset", "simple", "in.ttf")
		})
		for i, g := range gidArgs {
			g := g
			if !every && i > 3 {
				break
			}
			c.Emit(fmt.Sprintf("gids/%s/%q", name, g), func(r *Rec) error {
				r.Input(x.data)
				var want []byte
				gids, ok := cliGids(g)
				err := errors.New("bad arguments")
				if ok {
					want, err = x.subset(func(f *Font) (*Font, error) { return f.SubsetKeepIndices(gids) })
				}
				return cliCase(r, x, "subset_gids.ttf", want, err != nil, append([]string{"subset", "gids", "in.ttf"}, g...)...)
			})
		}
		for i, s := range runeArgs {
			s := s
			if !every && i > 1 {
				break
			}
			c.Emit(fmt.Sprintf("runes/%s/%q", name, s), func(r *Rec) error {
				r.Input(x.data)
				want, err := x.subset(func(f *Font) (*Font, error) { return f.SubsetKeepRunes([]rune(s)) })
				args := []string{"subset", "runes", "in.ttf", s}
				if strings.HasPrefix(s, "-") {
					args = []string{"subset", "runes", "--", "in.ttf", s}
				}
				for k, out := range []string{"subset_runes.ttf", "other name.ttf", "in.ttf"} {
					a := args
					if k > 0 {
						a = append([]string{"subset", "runes", "-o", out}, args[2:]...)
					}
					if out == "in.ttf" && err != nil {
						continue
					}
					if err := cliCase(r, x, out, want, err != nil, a...); err != nil {
						return err
					}
				}
				return nil
			})
		}
		for i, fl := range infoFlags {
			fl := fl
			i := i
			c.Emit(fmt.Sprintf("info/%s/%s", name, fl), func(r *Rec) error {
				r.Input(x.data)
				if err := cliInfo(r, x, fl); err != nil {
					return err
				}
				if !every {
					return nil
				}
				for j := i + 1; j < len(infoFlags); j++ {
					if err := cliInfo(r, x, fl, infoFlags[j]); err != nil {
						return err
					}
				}
				return nil
			})
		}
		c.Emit("info/"+name+"/all", func(r *Rec) error {
			r.Input(x.data)
			if err := cliInfo(r, x); err != nil {
				return err
			}
			return cliInfo(r, x, infoFlags...)
		})
	}
	for _, b := range corpus() {
		data, _ := b.Mk().Encode()
		fonts(b.Name, newCliFont(data), true)
	}
	dr, _ := runesFont().Encode()
	fonts("runes", newCliFont(dr), true)
	s300 := countSpec(300, 200, 0)
	d300, _ := s300.Encode()
	fonts("300", newCliFont(d300), true)
	bad := baseSpec()
	bad.Glyphs[2] = compositeGlyph([]Comp{{GID: 1}, {GID: 4}}, -1, 2)[:14]
	dbad, _ := bad.Encode()
	fonts("badglyph", newCliFont(dbad), true)
	names, rd := realFonts()
	for i, n := range names {
		if i > 1 && !c.Thorough() {
			break
		}
		fonts("real-"+n, newCliFont(rd[n]), c.Thorough() && i == 0)
	}
	// Damaged files: every command on every file cut short or with one byte changed (quick: every 16th position).
	for _, bn := range []string{"tiny", "names"} {
		var data []byte
		for _, b := range corpus() {
			if b.Name == bn {
				data, _ = b.Mk().Encode()
			}
		}
		step := c.Pick(2, 1)
		for o := 0; o < len(data); o += step {
			for _, cut := range []bool{true, false} {
				d := clone(data)
				if cut {
					d = d[:o]
				} else {
					d[o] ^= 0x55
				}
				c.Emit(fmt.Sprintf("damaged/%s/%d/cut=%v", bn, o, cut), func(r *Rec) error {
					x := newCliFont(d)
					r.Input(x.data)
					if err := cliCase(r, x, "", nil, !x.valid, "validate", "in.ttf"); err != nil {
						return err
					}
					if err := cliCase(r, x, "readwrite.ttf", x.rw, x.rwErr, "readwrite", "in.ttf"); err != nil {
						return err
					}
					want, err := x.subset(func(f *Font) (*Font, error) { return f.SubsetFirst(256) })
					if err := cliCase(r, x, "subset.ttf", want, err != nil, "subset", "simple", "in.ttf"); err != nil {
						return err
					}
					want, err = x.subset(func(f *Font) (*Font, error) { return f.SubsetKeepIndices([]GID{1}) })
					if err := cliCase(r, x, "subset_gids.ttf", want, err != nil, "subset", "gids", "in.ttf", "1"); err != nil {
						return err
					}
					want, err = x.subset(func(f *Font) (*Font, error) { return f.SubsetKeepRunes([]rune("A")) })
					if err := cliCase(r, x, "subset_runes.ttf", want, err != nil, "subset", "runes", "in.ttf", "A"); err != nil {
						return err
					}
					return cliInfo(r, x, "head", "post")
				})
			}
		}
	}
	// Arguments and files that cannot be used.
	std, _ := baseSpec().Encode()
	x := newCliFont(std)
	for _, a := range [][]string{
		{"validate"}, {"readwrite"}, {"info"}, {"subset", "simple"}, {"subset", "gids"}, {"subset", "runes"},
		{"subset", "gids", "in.ttf"}, {"subset", "runes", "in.ttf"},
		{"validate", "missing.ttf"}, {"readwrite", "missing.ttf"}, {"info", "missing.ttf"}, {"info", "--head", "missing.ttf"}, {"subset", "simple", "missing.ttf"},
		{"subset", "gids", "missing.ttf", "1"}, {"subset", "runes", "missing.ttf", "A"},
		{"validate", "."}, {"readwrite", "."}, {"info", "."}, {"subset", "simple", "."}, {"subset", "gids", ".", "1"}, {"subset", "runes", ".", "A"},
		{"validate", ""}, {"readwrite", ""}, {"info", ""}, {"subset", "simple", ""}, {"subset", "gids", "", "1"}, {"subset", "runes", "", "A"},
		{"subset", "runes", "-o", "no/such/dir.ttf", "in.ttf", "A"}, {"subset", "runes", "-o", ".", "in.ttf", "A"},
		{"validate", "--nosuchflag", "in.ttf"}, {"readwrite", "--nosuchflag", "in.ttf"}, {"subset", "gids", "--nosuchflag", "in.ttf", "1"},
		{"subset", "gids", "1", "in.ttf"}, {"nosuchcommand", "in.ttf"},
	} {
		a := a
		c.Emit(fmt.Sprintf("unusable/%q", a), func(r *Rec) error {
			if err := cliCase(r, x, "", nil, true, a...); err != nil {
				return err
			}
			return nil
		})
	}
	// The output cannot be created or written.
	for _, cmdline := range [][]string{{"readwrite.ttf", "readwrite", "in.ttf"}, {"subset.ttf", "subset", "simple", "in.ttf"}, {"subset_gids.ttf", "subset", "gids", "in.ttf", "1"}, {"subset_runes.ttf", "subset", "runes", "in.ttf", "A"}} {
		cmdline := cmdline
		for _, kind := range []string{"directory", "dangling", "full"} {
			kind := kind
			c.Emit(fmt.Sprintf("output-%s/%s", kind, cmdline[0]), func(r *Rec) error {
				dir, err := os.MkdirTemp(scratchDir(), "cli")
				if err != nil {
					return nil
				}
				defer os.RemoveAll(dir)
				if os.WriteFile(filepath.Join(dir, "in.ttf"), std, 0o600) != nil {
					return nil
				}
				p := filepath.Join(dir, cmdline[0])
				switch kind {
				case "directory":
					os.Mkdir(p, 0o700)
				case "dangling":
					os.Symlink(filepath.Join(dir, "no", "such", "file"), p)
				case "full":
					if st, err := os.Stat("/dev/full"); err != nil || st.Mode()&os.ModeDevice == 0 {
						return nil
					}
					os.Symlink("/dev/full", p)
				}
				ok, _, err := cliRun(dir, cmdline[1:]...)
				if err != nil {
					return err
				}
				r.Trans(1)
				r.Trace(1)
				r.State(hashStrings(append(cmdline, kind)))
				if ok {
					return fmt.Errorf("truecli %q exits with 0 although its output file cannot be written", cmdline[1:])
				}
				return nil
			})
		}
	}
	emitCLIFaults(c, std)
	c.Emit("paths", func(r *Rec) error {
		dir, err := os.MkdirTemp(scratchDir(), "cli")
		if err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		os.Mkdir(filepath.Join(dir, "sub dir"), 0o700)
		for _, p := range []string{"a b.ttf", "sub dir/\u00e9\U0001F600.ttf", "noext", "x.TTF", filepath.Join(dir, "abs.ttf")} {
			q := p
			if !filepath.IsAbs(q) {
				q = filepath.Join(dir, p)
			}
			if os.WriteFile(q, std, 0o600) != nil {
				continue
			}
			for _, cmdline := range [][]string{{"", "validate", p}, {"readwrite.ttf", "readwrite", p}, {"subset.ttf", "subset", "simple", p}} {
				ok, _, err := cliRun(dir, cmdline[1:]...)
				if err != nil {
					return err
				}
				if !ok {
					return fmt.Errorf("truecli %q fails", cmdline[1:])
				}
				r.Trans(1)
				if cmdline[0] != "" {
					if b, _ := os.ReadFile(filepath.Join(dir, cmdline[0])); !bytes.Equal(b, x.rw) {
						return fmt.Errorf("truecli %q: wrong output file", cmdline[1:])
					}
				}
			}
		}
		r.Trace(1)
		r.State(7)
		return nil
	})
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule: "the real binary, run in scratch directories: every command with every argument list of a fixed set (glyph ids in and out of range, rune strings, output names, flags alone, in pairs and together) on every font of the corpus, on files cut short or changed at positions throughout, on missing, empty and directory paths, with and without previous output; exit status, files left and text compared with the library",
		Gen:  genC19})
}
