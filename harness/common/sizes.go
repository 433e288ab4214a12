package main

import (
	"math/rand"
	"slices"
)

// Sizes are the lengths around which limits lie, up to max.
func Sizes(max int) (ns []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && n <= max && !seen[n] {
			seen[n] = true
			ns = append(ns, n)
		}
	}
	for n := 1; n <= 130; n++ {
		add(n)
	}
	for _, base := range []int{1, 3, 5, 1000, 2000, 5000} {
		step := 2
		if base >= 1000 {
			step = 10
		}
		for p := base; p <= max+4; p *= step {
			for d := -4; d <= 4; d++ {
				add(p + d)
			}
		}
	}
	slices.Sort(ns)
	return
}

const FillerStyles = 6

// Filler appends text to d until it has n bytes. Style 0 is made of clusters of
// one byte, so that presenting its suffixes presents every length up to n; the
// other styles are made of longer clusters and characters.
func (o *Oracle) Filler(rng *rand.Rand, d []byte, n, style int) []byte {
	pad := func() byte {
		switch rng.Intn(40) {
		case 0:
			return '\n'
		case 1:
			return 0
		case 2:
			return 0x80 + byte(rng.Intn(64))
		}
		return 'a' + byte(rng.Intn(26))
	}
	for len(d) < n {
		at := len(d)
		switch style {
		case 0:
			d = append(d, pad())
		case 1: // characters of one class
			d = append(d, string(o.Rep(rng, o.ID["Other"]))...)
		case 2:
			for _, u := range o.RandomWalk(rng, 8, o.Classes) {
				d = append(d, string(o.Rep(rng, u))...)
			}
		case 3:
			for _, u := range o.RandomWalk(rng, 4, o.Classes) {
				d = append(d, string(o.Rep(rng, u))...)
			}
			d = append(d, byte(rng.Intn(256)))
		case 5: // characters that go on with any cluster
			r := string(o.Rep(rng, o.ID[[]string{"Extend", "ZWJ", "Linker", "SpacingMark"}[rng.Intn(4)]]))
			d = append(d, []string{"", "a", "\u00e9", "\u4e00"}[(n-len(d))%len(r)]...)
			for len(d)+len(r) <= n {
				d = append(d, r...)
			}
		default: // one member of one class, again and again
			r := string(o.Rep(rng, o.Classes[rng.Intn(len(o.Classes))]))
			for k := 1 + rng.Intn(200); k > 0; k-- {
				d = append(d, r...)
			}
		}
		if len(d) > n {
			for d = d[:at]; len(d) < n; {
				d = append(d, 'a'+byte(rng.Intn(26)))
			}
		}
	}
	return d
}
