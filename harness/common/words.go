package main

import "math/rand"

// Model-based test suites over the look-back automaton of the specification.

// Mealy is the minimised reachable part of the automaton over the given units:
// reading a unit outputs "boundary before it".
type Mealy struct {
	Alpha  []int // unit ids
	Next   [][]int
	Brk    [][]bool
	Access [][]int // access word (unit ids) per state
	W      [][]int // characterisation set
}

func (o *Oracle) Minimise(alpha []int) *Mealy {
	// Reachable states and access words, breadth first.
	order, seen := []int{0}, map[int]int{0: 0}
	acc := [][]int{{}}
	for i := 0; i < len(order); i++ {
		for _, c := range alpha {
			n := o.next[order[i]][c]
			if _, ok := seen[n]; !ok {
				seen[n] = len(order)
				order = append(order, n)
				acc = append(acc, append(append([]int{}, acc[i]...), c))
			}
		}
	}
	// Distinguishing words, shortest first, by pair table.
	n := len(order)
	type pair struct{ a, b int }
	dist := map[pair][]int{}
	for changed := true; changed; {
		changed = false
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				if _, ok := dist[pair{a, b}]; ok {
					continue
				}
				for _, c := range alpha {
					if o.brk[order[a]][c] != o.brk[order[b]][c] {
						dist[pair{a, b}] = []int{c}
						changed = true
						break
					}
				}
				if _, ok := dist[pair{a, b}]; ok {
					continue
				}
				for _, c := range alpha {
					x, y := seen[o.next[order[a]][c]], seen[o.next[order[b]][c]]
					if x > y {
						x, y = y, x
					}
					if w, ok := dist[pair{x, y}]; ok && x != y {
						dist[pair{a, b}] = append([]int{c}, w...)
						changed = true
						break
					}
				}
			}
		}
	}
	// Merge indistinguishable states.
	rep := make([]int, n)
	id := map[int]int{}
	m := &Mealy{Alpha: alpha}
	for a := 0; a < n; a++ {
		rep[a] = a
		for b := 0; b < a; b++ {
			if _, ok := dist[pair{b, a}]; !ok {
				rep[a] = rep[b]
				break
			}
		}
		if rep[a] == a {
			id[a] = len(m.Access)
			m.Access = append(m.Access, acc[a])
		}
	}
	for a := 0; a < n; a++ {
		if rep[a] != a {
			continue
		}
		nx, br := make([]int, len(alpha)), make([]bool, len(alpha))
		for k, c := range alpha {
			nx[k] = id[rep[seen[o.next[order[a]][c]]]]
			br[k] = o.brk[order[a]][c]
		}
		m.Next, m.Brk = append(m.Next, nx), append(m.Brk, br)
	}
	// Characterisation set: greedily cover all pairs with few words.
	have := map[string]bool{}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			if rep[a] == a && rep[b] == b {
				w := dist[pair{a, b}]
				k := ""
				for _, c := range w {
					k += string(rune(c + 1))
				}
				if !have[k] {
					have[k] = true
					m.W = append(m.W, w)
				}
			}
		}
	}
	return m
}

// WSuite enumerates access . alpha^{<=k+1} . W (the W-method suite for
// implementations with at most k more states) into f.
func (m *Mealy) WSuite(k int) (words int, gen func(i int, f func(word []int))) {
	// index space: (state, first unit)
	n := len(m.Access) * len(m.Alpha)
	return n, func(i int, f func([]int)) {
		q, c := i/len(m.Alpha), m.Alpha[i%len(m.Alpha)]
		base := append(append([]int{}, m.Access[q]...), c)
		var rec func(w []int, left int)
		rec = func(w []int, left int) {
			for _, x := range m.W {
				f(append(w[:len(w):len(w)], x...))
			}
			if left == 0 {
				return
			}
			for _, c := range m.Alpha {
				rec(append(w[:len(w):len(w)], c), left-1)
			}
		}
		rec(base, k)
	}
}

// RandomWalk draws a word biased towards keeping clusters growing and towards
// the units that the look-back rules care about.
func (o *Oracle) RandomWalk(rng *rand.Rand, n int, alpha []int) []int {
	w := make([]int, 0, n)
	st := 0
	hot := []string{"RI", "ExtPict", "ZWJ", "Extend", "Linker", "Consonant", "Prepend", "ExtendX", "CR", "LF", "SpacingMark"}
	for len(w) < n {
		var c int
		switch r := rng.Intn(10); {
		case r < 4:
			c = alpha[rng.Intn(len(alpha))]
		case r < 8:
			c = o.ID[hot[rng.Intn(len(hot))]]
		default: // a unit that does not break here, if luck has it
			for t := 0; t < 6; t++ {
				c = alpha[rng.Intn(len(alpha))]
				if !o.brk[st][c] {
					break
				}
			}
		}
		rep := 1
		if rng.Intn(6) == 0 {
			rep = 1 + rng.Intn(9)
			if rng.Intn(8) == 0 {
				rep = rng.Intn(80)
			}
		}
		for ; rep > 0 && len(w) < n; rep-- {
			w = append(w, c)
			st = o.next[st][c]
		}
	}
	return w
}
