//go:build go1.22

// The word size as a configuration: the same inputs in a 32-bit process.

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/unidoc/unitype"
)

// wordsReport tells, for every 32-bit word of the font at values where an int of 32 bits ends, whether the file is
// accepted, what it answers and what it is written as.
func wordsReport(name string) string {
	var out bytes.Buffer
	for _, b := range append(corpus(), manyFonts()...) {
		if b.Name != name {
			continue
		}
		data, _ := b.Mk().Encode()
		for o := 0; o+4 <= len(data); o += 2 {
			for _, v := range []uint32{0x7FFFFFFF, 0x80000000, 0x80000004, 0xFFFFFFF0, 0xFFFFFFFF} {
				d := clone(data)
				put32(d, o, v)
				fmt.Fprintf(&out, "word %d = %#x: valid %v", o, v, unitype.ValidateBytes(clone(d)) == nil)
				if f, err := parse(d); err == nil {
					w, err := write(f)
					fmt.Fprintf(&out, ", parsed, queries %x, file %x %v", hashStrings(observeQueries(f, false)), hashBytes(w), err != nil)
				}
				out.WriteByte('\n')
			}
		}
	}
	return out.String()
}

func wordsHelper(name string) int {
	if _, err := os.Stdout.WriteString(wordsReport(name)); err != nil {
		return 3
	}
	return 0
}

// emit32: a 32-bit process gives the same answers and bytes.
func emit32(c *Ctx) {
	bin := os.Getenv("VERIF_386_BIN")
	if bin == "" {
		c.Bound("32-bit processes", "none: cannot be built or run here")
		return
	}
	same := func(r *Rec, want string, args ...string) error {
		out, err := exec.Command(bin, append([]string{"helper"}, args...)...).Output()
		if err != nil {
			return fmt.Errorf("32-bit process: %v", err)
		}
		r.Trace(1)
		a, b := strings.Split(want, "\n"), strings.Split(string(out), "\n")
		for i := range a {
			r.Trans(1)
			r.State(hashBytes([]byte(a[i])))
			if i >= len(b) || a[i] != b[i] {
				got := "nothing"
				if i < len(b) {
					got = b[i]
				}
				return fmt.Errorf("a 32-bit process gives %q instead of %q", got, a[i])
			}
		}
		return nil
	}
	c.Emit("process/32", func(r *Rec) error { return same(r, hashReport(), "hash") })
	for _, b := range append(corpus(), manyFonts()...) {
		name := b.Name
		c.Emit("words/"+name, func(r *Rec) error { return same(r, wordsReport(name), "words", name) })
	}
}
