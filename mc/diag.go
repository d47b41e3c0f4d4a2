//go:build go1.22

// C25: diagnostics never change behaviour, and nothing is printed unasked.

package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"
)

// logCount counts what is logged.
type logCount struct{ n int }

func (l *logCount) Write(p []byte) (int, error) { l.n += len(p); return len(p), nil }

// plainLog formats a message and nothing else (the arguments of a message have been formatted before).
type plainLog struct{}

func (plainLog) Format(e *logrus.Entry) ([]byte, error) { return []byte(e.Message + "\n"), nil }

var logLevels = []logrus.Level{logrus.PanicLevel, logrus.FatalLevel, logrus.ErrorLevel, logrus.WarnLevel, logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel}

// printed runs do at the level and returns what it logged (bytes) and printed to the standard output and error.
func printed(level logrus.Level, do func() []string) (obs []string, logged int, shown string, err error) {
	std := logrus.StandardLogger()
	oldOut, oldForm, oldLevel := std.Out, std.Formatter, std.Level
	var lc logCount
	logrus.SetOutput(&lc)
	logrus.SetFormatter(plainLog{})
	logrus.SetLevel(level)
	f, ferr := os.CreateTemp(scratchDir(), "std")
	if ferr != nil {
		fatalExit("scratch: %v", ferr)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	defer func() {
		os.Stdout, os.Stderr = so, se
		b, _ := os.ReadFile(f.Name())
		shown, logged = string(b), lc.n
		f.Close()
		os.Remove(f.Name())
		logrus.SetOutput(oldOut)
		logrus.SetFormatter(oldForm)
		logrus.SetLevel(oldLevel)
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	obs = do()
	return
}

// everyLevel checks that do gives the same at every level, and that it is silent at the levels up to Info.
func everyLevel(r *Rec, levels []logrus.Level, do func() []string) error {
	want, logged, shown, err := printed(logrus.InfoLevel, do)
	if err != nil {
		return err
	}
	if logged > 0 || shown != "" {
		return fmt.Errorf("prints %q and logs %d bytes unasked", shown, logged)
	}
	for _, l := range levels {
		got, n, shown, err := printed(l, do)
		if err != nil {
			return fmt.Errorf("level %v: %v", l, err)
		}
		if shown != "" {
			return fmt.Errorf("level %v: prints %.200q beside the log", l, shown)
		}
		if n > 0 && l < logrus.InfoLevel {
			return fmt.Errorf("level %v: logs %d bytes", l, n)
		}
		r.Count("bytes logged", n)
		if err := diffObs(want, got); err != nil {
			return fmt.Errorf("level %v: %v", l, err)
		}
		r.Trans(1)
	}
	r.Trace(1)
	r.State(hashStrings(want))
	return nil
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return "error " + err.Error()
}

// fullRun is everything the library says about the bytes and the fonts derived from them.
func fullRun(data []byte, ops []Op, path []int) func() []string {
	return func() []string {
		out := []string{"ValidateBytes " + errText(unitype.ValidateBytes(data))}
		f, err := parse(data)
		out = append(out, "Parse "+errText(err))
		if err != nil {
			return out
		}
		for _, i := range path {
			g, err := ops[i].Impl(f)
			out = append(out, ops[i].Name+" "+errText(err))
			if err == nil {
				f = g
			}
		}
		for _, g := range []int{0, 1, 5, 6, 255, 65535} {
			_, _, err := f.GetGlyphDataOffset(GID(g))
			out = append(out, errText(err))
		}
		var n int
		err = f.Write(limitW{&n})
		out = append(out, "Write to a failing sink "+errText(err))
		return append(out, observeAll(f)...)
	}
}

// limitW takes 100 bytes.
type limitW struct{ n *int }

func (w limitW) Write(p []byte) (int, error) {
	if *w.n += len(p); *w.n > 100 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

// levelCli compares a command with and without --loglevel.
func levelCli(r *Rec, data []byte, level string, args ...string) error {
	r.Input(data)
	type result struct {
		ok    bool
		out   string
		files []string
	}
	run := func(args []string) (x result, err error) {
		dir, err := os.MkdirTemp(scratchDir(), "cli")
		if err != nil {
			fatalExit("scratch: %v", err)
		}
		defer os.RemoveAll(dir)
		if err := os.WriteFile(filepath.Join(dir, "in.ttf"), data, 0o600); err != nil {
			fatalExit("scratch: %v", err)
		}
		if x.ok, x.out, err = cliRun(dir, args...); err != nil {
			return x, err
		}
		x.out = pointerText.ReplaceAllString(x.out, ")(PTR)")
		for _, n := range listDir(dir) {
			b, _ := os.ReadFile(filepath.Join(dir, n))
			x.files = append(x.files, fmt.Sprintf("%s %d %x", n, len(b), hashBytes(b)))
		}
		return x, nil
	}
	plain, err := run(args)
	if err != nil {
		return err
	}
	for _, at := range []int{0, len(args)} {
		a := append(append(append([]string{}, args[:at]...), "--loglevel", level), args[at:]...)
		got, err := run(a)
		if err != nil {
			return err
		}
		r.Trans(1)
		if got.ok != plain.ok {
			return fmt.Errorf("truecli %q exits with success %v, without the option %v", a, got.ok, plain.ok)
		}
		if err := diffObs(plain.files, got.files); err != nil {
			return fmt.Errorf("truecli %q: files: %v", a, err)
		}
		// Every line of the plain output comes in the same order.
		lines := strings.Split(got.out, "\n")
		i := 0
		for _, l := range strings.Split(plain.out, "\n") {
			for i < len(lines) && !strings.HasSuffix(lines[i], l) {
				i++
			}
			if i == len(lines) {
				return fmt.Errorf("truecli %q does not print the line %q it prints without the option", a, l)
			}
			i++
		}
		if plain.ok && len(got.out) <= len(plain.out) {
			return fmt.Errorf("truecli %q gives no debug information", a)
		}
	}
	r.Trace(1)
	r.State(hashStrings(append([]string{string(data), level}, args...)))
	return nil
}

func genC25(c *Ctx) {
	if os.Getenv("VERIF_CLI_BIN") == "" {
		fatalExit("VERIF_CLI_BIN is not set")
	}
	two := []logrus.Level{logrus.DebugLevel, logrus.TraceLevel}
	c.Bound("log levels", len(logLevels))
	ops := stdOps()
	d := c.Pick(2, 3)
	c.Bound("operations per history", d)
	for _, b := range append(bases(), vbases()...) {
		data, _ := b.Mk().Encode()
		for i := range ops {
			i := i
			c.Emit(fmt.Sprintf("ops/%s/%s", b.Name, ops[i].Name), func(r *Rec) error {
				r.Input(data)
				var rec func(path []int) error
				rec = func(path []int) error {
					ls := two
					if len(path) == 1 {
						ls = logLevels
					}
					if err := everyLevel(r, ls, fullRun(data, ops, path)); err != nil {
						return fmt.Errorf("%s: %v", opNames(ops, path), err)
					}
					if len(path) == d {
						return nil
					}
					for j := range ops {
						if err := rec(append(path[:len(path):len(path)], j)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]int{i})
			})
		}
	}
	k := c.Pick(2, 3)
	c.Bound("max_deviations", k)
	some := []Op{opKeep(2), opRunes("AB"), opFirst(3)}
	eachFont(k, func(name string, mk func() *Spec) {
		c.Emit("font/"+name, func(r *Rec) error {
			data, _ := mk().Encode()
			r.Input(data)
			ls := two
			if strings.Count(name, ",") < 2 {
				ls = logLevels
			}
			if err := everyLevel(r, ls, fullRun(data, some, nil)); err != nil {
				return err
			}
			return everyLevel(r, two, fullRun(data, some, []int{strings.Count(name, "=") % 2, 2}))
		})
	})
	// Damage: every 2-byte word of the directory and of each table's first bytes set to boundary values, every byte
	// changed, every length.
	for _, b := range corpus() {
		data, locs := b.Mk().Encode()
		_ = locs
		if len(data) > 4000 {
			continue
		}
		step := c.Pick(2, 1)
		for part := 0; part < 16; part++ {
			part := part
			c.Emit(fmt.Sprintf("damage/%s/%d", b.Name, part), func(r *Rec) error {
				try := func(bad []byte, what string, n int) error {
					if err := everyLevel(r, two, fullRun(bad, some, []int{0})); err != nil {
						r.Input(bad)
						return fmt.Errorf("%s at %d: %v", what, n, err)
					}
					return nil
				}
				for n := part * step; n < len(data); n += 16 * step {
					if err := try(data[:n], "cut off", n); err != nil {
						return err
					}
				}
				for n := part; n+1 < len(data); n += 16 {
					if n%2 != 0 {
						continue
					}
					vals := boundaryWords(be16(data, n))
					if !c.Thorough() {
						vals = []uint16{0, 1, 0xFFFF, be16(data, n) ^ 0x8000}
					}
					for _, v := range vals {
						bad := clone(data)
						put16(bad, n, v)
						if err := try(bad, fmt.Sprintf("%#x", v), n); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	for _, b := range sizeFonts(c.Thorough()) {
		b := b
		if huge(b) {
			continue
		}
		c.Emit("size/"+b.Name, func(r *Rec) error {
			s := b.Mk()
			n := modelOf(s).N
			data, _ := s.Encode()
			return everyLevel(r, two, fullRun(data, []Op{opKeep(n-1, n/2), opFirst((n + 1) / 2)}, []int{0, 1}))
		})
	}
	c.Emit("codecs", func(r *Rec) error {
		inputs := [][]byte{nil, {0}, {0xD8}, {0xDC, 0}, {0xD8, 0}, {0xD8, 0, 0}, {0xD8, 0, 0xD8, 0, 0xDC, 0}, {0xFE, 0xFF, 0, 0x41}, []byte("abc"), pattern(255, 1), pattern(4097, 2)}
		all := make([]byte, 256)
		for i := range all {
			all[i] = byte(i)
			inputs = append(inputs, []byte{byte(i)}, []byte{'A', byte(i)}, []byte{byte(i), 'A', 0})
		}
		for _, b := range append(inputs, all) {
			b := b
			err := everyLevel(r, logLevels, func() []string {
				return []string{strutils.UTF16ToString(b), fmt.Sprint(strutils.UTF16ToRunes(b)), strutils.StringToUTF16(string(b)),
					strutils.PDFDocEncodingToString(b), fmt.Sprint(strutils.PDFDocEncodingToRunes(b)), fmt.Sprint(strutils.StringToPDFDocEncoding(string(b)))}
			})
			if err != nil {
				return fmt.Errorf("% x: %v", b, err)
			}
		}
		return nil
	})
	c.Emit("no file", func(r *Rec) error {
		return everyLevel(r, logLevels, func() []string {
			_, err := unitype.ParseFile(filepath.Join(scratchDir(), "none", "x"))
			return []string{errText(err), errText(unitype.ValidateFile(filepath.Join(scratchDir(), "none", "x")))}
		})
	})
	// The command line tool.
	type in struct {
		name string
		data []byte
	}
	var ins []in
	for _, b := range bases() {
		d, _ := b.Mk().Encode()
		ins = append(ins, in{b.Name, d})
	}
	d0 := clone(ins[0].data)
	d0[len(d0)-1] ^= 1
	ins = append(ins, in{"corrupt", d0}, in{"cut", d0[:len(d0)/2]}, in{"text", []byte("no font")}, in{"empty", nil})
	names, rd := realFonts()
	for i, n := range names {
		if i == 0 || c.Thorough() {
			ins = append(ins, in{n, rd[n]})
		}
		data := rd[n]
		c.Emit("real/"+n, func(r *Rec) error {
			return everyLevel(r, two, fullRun(data, []Op{opRunes("Hello"), opFirst(60)}, []int{0, 1}))
		})
	}
	cmds := [][]string{{"validate", "in.ttf"}, {"readwrite", "in.ttf"}, {"subset", "simple", "in.ttf"}, {"subset", "gids", "in.ttf", "2", "4"},
		{"subset", "gids", "in.ttf", "65000"}, {"subset", "gids", "in.ttf", "x"}, {"subset", "runes", "in.ttf", "AB"}, {"info", "in.ttf"}, {"info", "--trec", "--cmap", "--post", "in.ttf"},
		{"info", "--glyf", "--loca", "--name", "--hmtx", "--hhea", "in.ttf"}, {"info", "--head", "--os2", "in.ttf"}, {"validate", "none.ttf"}, {"subset", "runes", "-o", "in.ttf", "in.ttf", "A"}}
	for _, x := range ins {
		x := x
		for _, a := range cmds {
			a := a
			for _, level := range []string{"debug", "trace"} {
				level := level
				c.Emit(fmt.Sprintf("tool/%s/%s/%q", x.name, level, a), func(r *Rec) error { return levelCli(r, x.data, level, a...) })
			}
		}
	}
}

func init() {
	register(&Check{ID: "C25", Level: "model_checking",
		Rule:   "every operation sequence up to the depth bound on the base fonts, every font with at most k deviations, every font of unusual size, every cut-off file and every word of the damage corpus set to boundary values, at the log levels (all seven, or Debug and Trace): same results, error texts, answers and written bytes as at the default level, nothing printed, nothing logged unasked; every tool command with and without --loglevel on good, damaged and missing files",
		Assume: []string{"the log goes where the program sends it (a counting writer); only the standard logger of logrus is used by the library"},
		Gen:    genC25})
}
