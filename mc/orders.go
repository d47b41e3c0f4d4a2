//go:build go1.22

// C11 with the order of Go's maps under control: every loop over a map in the library is a choice point.

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/unidoc/unitype/internal/verifsched"
)

// perms are the orders of n entries that are tried: all of them up to full entries; else reversed, every rotation
// up to 12, each of the first 12 entries moved to the front and to the end, neighbours swapped.
func perms(n, full int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var out [][]int
	if n <= full {
		var rec func(p []int, k int)
		rec = func(p []int, k int) {
			if k == n {
				out = append(out, append([]int{}, p...))
				return
			}
			for i := k; i < n; i++ {
				p[k], p[i] = p[i], p[k]
				rec(p, k+1)
				p[k], p[i] = p[i], p[k]
			}
		}
		rec(append([]int{}, id...), 0)
		return out[1:]
	}
	add := func(f func(p []int)) {
		p := append([]int{}, id...)
		f(p)
		out = append(out, p)
	}
	add(func(p []int) {
		for i := range p {
			p[i] = n - 1 - i
		}
	})
	var at []int
	for r := 1; r < n && r <= 12; r++ {
		at = append(at, r)
	}
	if n > 13 {
		at = append(at, n/3, n/2, n-2, n-1)
	}
	for _, r := range at {
		r := r
		add(func(p []int) { // rotate
			for i := range p {
				p[i] = (i + r) % n
			}
		})
		add(func(p []int) { // to the front
			copy(p[1:], id[:r])
			p[0] = r
		})
		add(func(p []int) { // to the end
			copy(p[r-1:], id[r:])
			p[n-1] = r - 1
		})
		add(func(p []int) { p[r-1], p[r] = p[r], p[r-1] })
	}
	return out
}

// underOrders runs do with the k-th visit of a map of two entries or more in the order choose(k, n) gives (nil: by
// key) and returns the sizes of the maps visited.
func underOrders(choose func(k, n int) []int, do func() ([]string, error)) (obs []string, sizes []int, err error) {
	verifsched.SetOrder(func(n int) []int {
		var p []int
		if n > 1 {
			p = choose(len(sizes), n)
			sizes = append(sizes, n)
		}
		if len(p) != n {
			p = make([]int, n)
			for i := range p {
				p[i] = i
			}
		}
		return p
	})
	defer verifsched.SetOrder(nil)
	obs, err = do()
	return obs, sizes, err
}

func genOrders(c *Ctx) {
	if os.Getenv("VERIF_MAPS") == "" {
		c.Bound("map orders", "not controlled: the instrumented library did not build")
		return
	}
	full := c.Pick(4, 5)
	c.Bound("map orders", fmt.Sprintf("every visit of a map: all orders up to %d entries, else reversed, rotations, entries moved to the front or end, neighbours swapped; one such deviation per execution, all visits at once, and pairs of visits", full))
	list := append(append(corpus(), manyFonts()...), vbases()...)
	seen := map[string]bool{}
	for _, b := range list {
		if seen[b.Name] {
			continue
		}
		seen[b.Name] = true
		b := b
		for i := range c11Ops() {
			i := i
			c.Emit(fmt.Sprintf("order/%s/%s", b.Name, c11Ops()[i].name), func(r *Rec) error {
				data, _ := b.Mk().Encode()
				r.Input(data)
				return exploreOrders(c, r, data, full, func(f *Font) (*Font, error) { return c11Ops()[i].do(f) })
			})
		}
	}
	names, rd := realFonts()
	for _, n := range names {
		if len(rd[n]) > 200000 && !c.Thorough() {
			continue
		}
		n := n
		for i, op := range []vop{c11Ops()[0], vfirst(200), vkeep(70, 300), vrunes("Pack my box")} {
			op := op
			c.Emit(fmt.Sprintf("order/%s/%d", n, i), func(r *Rec) error {
				return exploreOrders(c, r, rd[n], 3, func(f *Font) (*Font, error) { return op.do(f) })
			})
		}
	}
}

func exploreOrders(c *Ctx, r *Rec, data []byte, full int, op func(*Font) (*Font, error)) error {
	do := func() ([]string, error) {
		f, err := parse(data)
		if err != nil {
			return []string{"parse: " + err.Error()}, nil
		}
		g, err := op(f)
		if err != nil {
			return append(observeAll(f), "operation: "+err.Error()), nil
		}
		out := observeAll(g)
		if len(data) < 20000 {
			out = append(out, observeAll(f)...)
		}
		b, err := write(g)
		if err != nil {
			return append(out, "write: "+err.Error()), nil
		}
		return append(out, fmt.Sprintf("file: %016x", hashBytes(b))), nil
	}
	want, sizes, err := underOrders(func(int, int) []int { return nil }, do)
	if err != nil {
		return err
	}
	try := func(what string, choose func(k, n int) []int) error {
		got, _, err := underOrders(choose, do)
		if err != nil {
			return err
		}
		r.Trans(1)
		r.Trace(1)
		r.State(hashBytes([]byte(strings.Join(got, "\n"))))
		if err := diffObs(want, got); err != nil {
			return fmt.Errorf("the result depends on the order of a map (%s): %v", what, err)
		}
		return nil
	}
	if _, s2, _ := underOrders(func(int, int) []int { return nil }, do); len(s2) != len(sizes) {
		return errors.New("the same run visits maps another number of times")
	}
	r.Count("map visits", len(sizes))
	// Every visit in the same manner.
	for m := 0; m < 1+4*12; m++ {
		m := m
		if err := try(fmt.Sprintf("every visit, manner %d", m), func(k, n int) []int {
			p := perms(n, 0)
			return p[m%len(p)]
		}); err != nil {
			return err
		}
	}
	// One visit in every order; with another one reversed.
	for k, n := range sizes {
		ps := perms(n, full)
		if n > 1000 && !c.Thorough() {
			ps = ps[:5]
		}
		for x, p := range ps {
			k, p := k, p
			if err := try(fmt.Sprintf("visit %d of %d entries, order %d", k, n, x), func(j, n int) []int {
				if j == k {
					return p
				}
				return nil
			}); err != nil {
				return err
			}
		}
		if len(sizes) > 40 && !c.Thorough() || len(data) > 20000 {
			continue
		}
		for k2 := k + 1; k2 < len(sizes); k2++ {
			k2 := k2
			if err := try(fmt.Sprintf("visits %d and %d reversed", k, k2), func(j, n int) []int {
				if j == k || j == k2 {
					return perms(n, 0)[0]
				}
				return nil
			}); err != nil {
				return err
			}
		}
	}
	return nil
}
