//go:build go1.22

// C17: text codecs.

package main

import (
	"bytes"
	"fmt"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/unidoc/unitype/internal/strutils"
)

// refUTF16 decodes code units by the UTF-16 rules, written out independently.
func refUTF16(u []uint16) []rune {
	var out []rune
	for i := 0; i < len(u); i++ {
		c := u[i]
		switch {
		case c < 0xD800 || c > 0xDFFF:
			out = append(out, rune(c))
		case c <= 0xDBFF && i+1 < len(u) && u[i+1] >= 0xDC00 && u[i+1] <= 0xDFFF:
			out = append(out, 0x10000+rune(c-0xD800)*0x400+rune(u[i+1]-0xDC00))
			i++
		default:
			out = append(out, 0xFFFD)
		}
	}
	return out
}

func refEncode16(rs []rune) []byte {
	var b []byte
	for _, r := range rs {
		if r < 0x10000 {
			b = append(b, byte(r>>8), byte(r))
			continue
		}
		h, l := 0xD800+(r-0x10000)>>10, 0xDC00+(r-0x10000)&0x3FF
		b = append(b, byte(h>>8), byte(h), byte(l>>8), byte(l))
	}
	return b
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// decode16 decodes b placed in a larger array and checks that nothing of it is modified and that the answer does
// not depend on memory beyond the slice.
func decode16(b []byte) ([]rune, error) {
	const guard = 0xA5
	mem := make([]byte, len(b)+16)
	for i := range mem {
		mem[i] = guard
	}
	copy(mem[8:], b)
	in := mem[8 : 8+len(b)]
	rs := strutils.UTF16ToRunes(in)
	s := strutils.UTF16ToString(in)
	for i, x := range mem {
		w := byte(guard)
		if i >= 8 && i < 8+len(b) {
			w = b[i-8]
		}
		if x != w {
			return nil, fmt.Errorf("decoding % x changes the byte at %d of the caller's array", b, i-8)
		}
	}
	if s != string(rs) {
		return nil, fmt.Errorf("UTF16ToString(% x) = %q, UTF16ToRunes %U", b, s, rs)
	}
	if r2 := strutils.UTF16ToRunes(clone(b)); !sameRunes(rs, r2) {
		return nil, fmt.Errorf("UTF16ToRunes(% x) = %U, but %U depending on the memory after it", b, rs, r2)
	}
	// The answer is the caller's own: it does not change with the input afterwards.
	keep := append([]rune{}, rs...)
	for i := range in {
		in[i] ^= 0xFF
	}
	if !sameRunes(rs, keep) {
		return nil, fmt.Errorf("UTF16ToRunes(% x): the answer shares the caller's memory", b)
	}
	return rs, nil
}

func checkUnits(u []uint16) error {
	b := make([]byte, 2*len(u))
	for i, x := range u {
		put16(b, 2*i, x)
	}
	got, err := decode16(b)
	if err != nil {
		return err
	}
	if want := refUTF16(u); !sameRunes(got, want) {
		return fmt.Errorf("UTF16ToRunes(% x) = %U, want %U", b, got, want)
	}
	return nil
}

func checkString(rs []rune) error {
	s := string(rs)
	e := strutils.StringToUTF16(s)
	if w := refEncode16(rs); e != string(w) {
		return fmt.Errorf("StringToUTF16(%+q) = % x, want % x", s, e, w)
	}
	b := []byte(e)
	if d := strutils.UTF16ToString(b); d != s {
		return fmt.Errorf("UTF16ToString(StringToUTF16(%+q)) = %+q", s, d)
	}
	if string(b) != e {
		return fmt.Errorf("UTF16ToString changed its argument % x", e)
	}
	return nil
}

// pdfDoc is PDFDocEncoding as the PDF specification defines it (Annex D): its code for each character.
func pdfDoc() map[byte]rune {
	m := map[byte]rune{}
	for c := 1; c < 0x18; c++ {
		m[byte(c)] = rune(c)
	}
	for i, r := range []rune("\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc") {
		m[byte(0x18+i)] = r
	}
	for c := 0x20; c < 0x7F; c++ {
		m[byte(c)] = rune(c)
	}
	for i, r := range []rune("\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e") {
		m[byte(0x80+i)] = r
	}
	m[0xA0] = 0x20AC
	for c := 0xA1; c < 0x100; c++ {
		if c != 0xAD {
			m[byte(c)] = rune(c)
		}
	}
	return m
}

func genC17(c *Ctx) {
	// Every Unicode scalar value, alone and between others.
	for lo := rune(0); lo < 0x110000; lo += 0x1000 {
		lo := lo
		c.Emit(fmt.Sprintf("scalar/%06x", lo), func(r *Rec) error {
			var all []rune
			for x := lo; x < lo+0x1000; x++ {
				if !utf8.ValidRune(x) {
					continue
				}
				for _, rs := range [][]rune{{x}, {0x1F600, x, 'A'}, {x, x}} {
					if err := checkString(rs); err != nil {
						return err
					}
					r.Trans(1)
				}
				all = append(all, x)
				r.State(uint64(x))
			}
			r.Trace(1)
			return checkString(all)
		})
	}
	// All strings over boundary characters.
	chars := []rune{0, 'A', 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF}
	n := c.Pick(5, 6)
	c.Bound("string length over boundary characters", n)
	for i := range chars {
		i := i
		c.Emit(fmt.Sprintf("strings/%U", chars[i]), func(r *Rec) (err error) {
			sequences(len(chars), n-1, func(seq []int) {
				if err != nil {
					return
				}
				rs := []rune{chars[i]}
				for _, k := range seq {
					rs = append(rs, chars[k])
				}
				err = checkString(rs)
				r.Trans(1)
			})
			r.Trace(1)
			r.State(uint64(chars[i]))
			return err
		})
	}
	c.Emit("empty", func(r *Rec) error {
		r.Trace(1)
		r.State(1)
		if strutils.StringToUTF16("") != "" || strutils.UTF16ToString(nil) != "" || strutils.UTF16ToString([]byte{}) != "" ||
			len(strutils.UTF16ToRunes(nil)) != 0 || strutils.PDFDocEncodingToString(nil) != "" || len(strutils.StringToPDFDocEncoding("")) != 0 {
			return fmt.Errorf("the empty string is not coded as itself")
		}
		return nil
	})
	// Every code unit; every pair of code units around the surrogate range; every sequence over boundary units.
	for hi := 0; hi < 256; hi++ {
		hi := hi
		c.Emit(fmt.Sprintf("unit/%02x", hi), func(r *Rec) error {
			for lo := 0; lo < 256; lo++ {
				u := uint16(hi<<8 | lo)
				r.State(uint64(u))
				for _, us := range [][]uint16{{u}, {u, 'A'}, {'A', u}, {0xD83D, u}, {u, 0xDE00}, {0xD83D, u, 0xDE00}, {0xDE00, u, 0xD83D}, {0xD83D, 0xDE00, u}} {
					if err := checkUnits(us); err != nil {
						return err
					}
					r.Trans(1)
				}
			}
			r.Trace(1)
			return nil
		})
	}
	for a := 0xD7F8; a < 0xE008; a++ {
		a := a
		c.Emit(fmt.Sprintf("surrogates/%04x", a), func(r *Rec) error {
			for b := 0xD7F8; b < 0xE008; b++ {
				if err := checkUnits([]uint16{uint16(a), uint16(b)}); err != nil {
					return err
				}
			}
			r.Trans(0xE008 - 0xD7F8)
			r.Trace(1)
			r.State(uint64(a))
			return nil
		})
	}
	units := []uint16{0, 'A', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF}
	un := c.Pick(6, 7)
	c.Bound("code unit sequence length", un)
	for i := range units {
		for j := range units {
			i, j := i, j
			c.Emit(fmt.Sprintf("units/%04x/%04x", units[i], units[j]), func(r *Rec) (err error) {
				sequences(len(units), un-2, func(seq []int) {
					if err != nil {
						return
					}
					u := []uint16{units[i], units[j]}
					for _, k := range seq {
						u = append(u, units[k])
					}
					err = checkUnits(u)
					r.Trans(1)
				})
				r.Trace(1)
				r.State(uint64(i*100 + j))
				return err
			})
		}
	}
	// Byte strings of every length, odd ones included: no byte of the caller's changes.
	bs := []byte{0, 'A', 0xD8, 0xDC, 0xFF}
	bn := c.Pick(7, 8)
	for i := range bs {
		i := i
		c.Emit(fmt.Sprintf("bytes/%02x", bs[i]), func(r *Rec) (err error) {
			sequences(len(bs), bn-1, func(seq []int) {
				if err != nil {
					return
				}
				b := []byte{bs[i]}
				for _, k := range seq {
					b = append(b, bs[k])
				}
				var got []rune
				got, err = decode16(b)
				if err == nil && len(b)%2 == 0 {
					u := make([]uint16, len(b)/2)
					for k := range u {
						u[k] = be16(b, 2*k)
					}
					if want := utf16.Decode(u); !sameRunes(got, want) {
						err = fmt.Errorf("UTF16ToRunes(% x) = %U, want %U", b, got, want)
					}
				}
				r.Trans(1)
			})
			r.Trace(1)
			r.State(uint64(bs[i]))
			return err
		})
	}
	// Long strings: lengths around any buffer size.
	c.Emit("long", func(r *Rec) error {
		for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537} {
			for shift := 0; shift < 3; shift++ {
				rs := make([]rune, n)
				for i := range rs {
					rs[i] = []rune{'A', 0x1F600, 0x4E00}[(i+shift)%3]
				}
				if err := checkString(rs); err != nil {
					return fmt.Errorf("length %d: %.300v", n, err)
				}
				us := make([]uint16, n)
				for i := range us {
					us[i] = []uint16{'A', 0xD83D, 0xDE00, 0xD83D}[(i+shift)%4]
				}
				if err := checkUnits(us); err != nil {
					return fmt.Errorf("length %d: %.300v", n, err)
				}
				r.Trans(2)
			}
			r.State(uint64(n))
		}
		r.Trace(1)
		return nil
	})

	// PDFDocEncoding.
	doc := pdfDoc()
	inv := map[rune]byte{}
	for b, r := range doc {
		inv[r] = b
	}
	checkDec := func(b []byte) error {
		in := clone(b)
		var want []rune
		for _, x := range b {
			if r, ok := doc[x]; ok {
				want = append(want, r)
			}
		}
		got := strutils.PDFDocEncodingToRunes(in)
		if !bytes.Equal(in, b) {
			return fmt.Errorf("PDFDocEncodingToRunes changed its argument % x", b)
		}
		if !sameRunes(got, want) {
			return fmt.Errorf("PDFDocEncodingToRunes(% x) = %U, want %U", b, got, want)
		}
		if s := strutils.PDFDocEncodingToString(in); s != string(want) {
			return fmt.Errorf("PDFDocEncodingToString(% x) = %+q, want %U", b, s, want)
		}
		return nil
	}
	checkEnc := func(rs []rune) error {
		var want []byte
		for _, x := range rs {
			if b, ok := inv[x]; ok {
				want = append(want, b)
			}
		}
		if got := strutils.StringToPDFDocEncoding(string(rs)); !bytes.Equal(got, want) {
			return fmt.Errorf("StringToPDFDocEncoding(%+q) = % x, want % x", string(rs), got, want)
		}
		return nil
	}
	for lo := rune(0); lo < 0x110000; lo += 0x4000 {
		lo := lo
		c.Emit(fmt.Sprintf("pdfdoc/%06x", lo), func(r *Rec) error {
			for x := lo; x < lo+0x4000; x++ {
				if !utf8.ValidRune(x) {
					continue
				}
				if err := checkEnc([]rune{x}); err != nil {
					return err
				}
				if err := checkEnc([]rune{'a', x, 0x20AC}); err != nil {
					return err
				}
				r.Trans(2)
				r.State(uint64(x) | 1<<40)
			}
			r.Trace(1)
			return nil
		})
	}
	for a := 0; a < 256; a++ {
		a := a
		c.Emit(fmt.Sprintf("pdfdoc/bytes/%02x", a), func(r *Rec) error {
			if err := checkDec([]byte{byte(a)}); err != nil {
				return err
			}
			for b := 0; b < 256; b++ {
				if err := checkDec([]byte{byte(a), byte(b)}); err != nil {
					return err
				}
				ra, oka := doc[byte(a)]
				rb, okb := doc[byte(b)]
				if oka && okb {
					if err := checkEnc([]rune{ra, rb}); err != nil {
						return err
					}
					s := strutils.PDFDocEncodingToString([]byte{byte(a), byte(b)})
					if e := strutils.StringToPDFDocEncoding(s); !bytes.Equal(e, []byte{byte(a), byte(b)}) {
						return fmt.Errorf("bytes %02x %02x become % x after decoding and encoding", a, b, e)
					}
				}
				r.Trans(1)
				if !c.Thorough() {
					continue
				}
				for x := 0; x < 256; x++ {
					if err := checkDec([]byte{byte(a), byte(b), byte(x)}); err != nil {
						return err
					}
					r.Trans(1)
				}
			}
			r.Trace(1)
			r.State(uint64(a) | 1<<41)
			return nil
		})
	}
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking",
		Rule: "every Unicode scalar value alone and in context; every string over 21 boundary characters and every code unit and byte sequence over boundary units to the length bounds; every code unit in 8 contexts; pairs of units around the surrogate range; every byte, byte pair (thorough: triple) and scalar value in PDFDocEncoding; against codecs written out independently, with guard bytes around the caller's memory",
		Gen:  genC17})
}
