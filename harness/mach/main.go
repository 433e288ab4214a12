// Conformance driver for the boundary state machine, driven directly.
package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
)

func main() { Main(map[string]func(*Ctx){"c15": c15}) }

func (c *Ctx) props(r rune) charprops.CharProperties {
	p, n := charprops.LookupFirstChar([]byte(string(r)))
	if n != len(string(r)) {
		c.Violate("lookup", fmt.Sprintf("U+%04X is not looked up as one character", r), nil, nil)
	}
	return p
}

// run drives the machine over one text of classes; restart(i) says whether to
// restart it after a boundary before position i.
func (c *Ctx) run(w []int, ps []charprops.CharProperties, restart func() bool) (ok bool) {
	o := c.O
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic", fmt.Sprint(r), nil, map[string]any{"text": names(o, w)})
			ok = false
		}
	}()
	st := machine.Begin(ps[0])
	q := o.next[0][w[0]]
	for i := 1; i < len(w); i++ {
		b, n := st.Transition(ps[i-1], ps[i])
		if b != o.brk[q][w[i]] {
			lo := max(0, i-40)
			c.Violate("boundary", fmt.Sprintf("reports boundary=%v before character %d, the rules say %v", b, i, o.brk[q][w[i]]), nil,
				map[string]any{"text": names(o, w[lo:i+1]), "text_starts_at": lo})
			return false
		}
		st = n
		if b && restart != nil && restart() {
			st = machine.Begin(ps[i])
		}
		q = o.next[q][w[i]]
	}
	return true
}

func names(o *Oracle, w []int) (r []string) {
	for _, u := range w {
		r = append(r, o.Units[u])
	}
	return
}

func c15(c *Ctx) {
	o := c.O
	rng := c.Rng(1)
	// Characters of each class, as the machine sees them. Several are used, so
	// that nothing depends on which one represents its class.
	rep := make([][]charprops.CharProperties, len(o.Units))
	for _, u := range o.Classes {
		rep[u] = append(rep[u], c.props(o.First(u)))
		for i := 0; i < 40; i++ {
			rep[u] = append(rep[u], c.props(o.Rep(rng, u)))
		}
	}
	// 1. Closure of the product of the real machine with the specification's
	// automaton: every state the real machine can be in, at the end of a text of
	// any length, with and without restarts. This is exhaustive if it closes.
	closed, nodes := c.product(rep)
	c.Add("product_nodes", int64(nodes))
	if closed {
		c.Add("product_closed", 1)
	}
	// 2. W-method suite and random walks, in case the machine has state that the
	// closure cannot see.
	m := o.Minimise(o.Classes)
	n, gen := m.WSuite(Pick(c, 2, 3))
	var suite, steps atomic.Int64
	c.Parallel(n, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*7919 + int64(i)))
		var ps []charprops.CharProperties
		gen(i, func(word []int) {
			ps = ps[:0]
			for _, u := range word {
				ps = append(ps, rep[u][rng.Intn(len(rep[u]))])
			}
			suite.Add(1)
			steps.Add(int64(len(word)))
			if c.run(word, ps, nil) {
				c.run(word, ps, func() bool { return rng.Intn(2) == 0 })
			}
		})
	})
	c.Add("w_method_texts", suite.Load())
	c.Parallel(Pick(c, 4000, 100000), func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*104729 + int64(i)))
		k := 20 + rng.Intn(400)
		if i%400 == 0 {
			k = 300000
		}
		word := o.RandomWalk(rng, k, o.Classes)
		if i%7 == 0 { // long uniform runs
			x := o.Classes[rng.Intn(len(o.Classes))]
			run := []int{255, 256, 257, 65535, 65536, 65537, 1000}[rng.Intn(7)]
			for j := 0; j < run; j++ {
				word = append(word, x)
			}
			word = append(word, o.RandomWalk(rng, 10, o.Classes)...)
		}
		ps := make([]charprops.CharProperties, len(word))
		for j, u := range word {
			ps[j] = rep[u][rng.Intn(len(rep[u]))]
		}
		c.Begin(w, "machine run", nil)
		if c.run(word, ps, nil) {
			c.run(word, ps, func() bool { return true })
			c.run(word, ps, func() bool { return rng.Intn(2) == 0 })
		}
		steps.Add(int64(3 * len(word)))
		c.End(w)
	})
	// 3. Every cycle of the automaton, pumped, with every continuation that tells
	// states apart tried on the way: counters in the state, however hidden, show.
	type cyc struct {
		q int
		w []int
	}
	var cycles []cyc
	idx := map[int]int{}
	for k, u := range m.Alpha {
		idx[u] = k
	}
	for q := range m.Access {
		for _, a := range m.Alpha {
			if q1 := m.Next[q][idx[a]]; q1 == q {
				cycles = append(cycles, cyc{q, []int{a}})
			} else {
				for _, b := range m.Alpha {
					if m.Next[q1][idx[b]] == q {
						cycles = append(cycles, cyc{q, []int{a, b}})
					}
				}
			}
		}
	}
	conts := append([][]int{}, m.W...)
	for _, u := range o.Classes {
		conts = append(conts, []int{u})
	}
	var pumped atomic.Int64
	c.Parallel(len(cycles), func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*15485863 + int64(i)))
		x := cycles[i]
		n := Pick(c, 1<<17+50, 1<<20+50)
		if len(x.w) == 1 {
			n = Pick(c, 1<<22+50, 1<<28+50)
		} else if x.q != 0 && rng.Intn(8) == 0 {
			n = Pick(c, 1<<20, 1<<25)
		}
		c.Begin(w, "pumped machine", nil)
		c.pump(rng, m.Access[x.q], x.w, n, conts, rep)
		c.End(w)
		pumped.Add(int64(n * len(x.w)))
	})
	steps.Add(pumped.Load())
	c.Add("cycles_pumped", int64(len(cycles)))
	c.Add("transitions", steps.Load())
	// 4. Recorded runs for TLC.
	for i := 0; i < Pick(c, 120, 800); i++ {
		word := o.RandomWalk(rng, 2+rng.Intn(24), o.Classes)
		c.record(rng, word, rep)
	}
	c.Sample(map[string]any{"walk": names(o, o.RandomWalk(rng, 20, o.Classes))})
	c.Sample(map[string]any{"walk": names(o, o.RandomWalk(rng, 20, o.Classes))})
}

// pump drives the machine through access and then n times around a cycle.
func (c *Ctx) pump(rng *rand.Rand, access, word []int, n int, conts [][]int, rep [][]charprops.CharProperties) {
	o := c.O
	var done int
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic", fmt.Sprint(r), nil, map[string]any{"text": names(o, access), "repeated": names(o, word), "times": done})
		}
	}()
	if len(access) == 0 {
		access = word
	}
	prev := rep[access[0]][0]
	st, q := machine.Begin(prev), o.next[0][access[0]]
	step := func(u int, p charprops.CharProperties) bool {
		b, s := st.Transition(prev, p)
		ok := b == o.brk[q][u]
		st, prev, q = s, p, o.next[q][u]
		return ok
	}
	for _, u := range access[1:] {
		if !step(u, rep[u][0]) {
			return // reported by the other tests
		}
	}
	var ps []charprops.CharProperties
	for _, u := range word {
		ps = append(ps, rep[u][rng.Intn(len(rep[u]))])
	}
	mark := 1
	for done = 1; done <= n; done++ {
		for k, u := range word {
			if !step(u, ps[k]) {
				c.Violate("pumped", fmt.Sprintf("wrong boundary decision when %v has been repeated %d times", names(o, word), done), nil,
					map[string]any{"text": names(o, access), "repeated": names(o, word), "times": done})
				return
			}
		}
		// fork at all small sizes and around the sizes where counters give out
		if done > 1100 && done&(done-1) != 0 && (done-1)&(done-2) != 0 && (done+1)&done != 0 && done < mark {
			continue
		}
		if done >= mark {
			mark = done + 1 + done/50
		}
		st0, prev0, q0 := st, prev, q
		for _, x := range conts {
			for k, u := range x {
				if !step(u, rep[u][0]) {
					c.Violate("pumped", fmt.Sprintf("wrong boundary decision after %v has been repeated %d times", names(o, word), done), nil,
						map[string]any{"text": names(o, access), "repeated": names(o, word), "times": done, "then": names(o, x[:k+1])})
					return
				}
			}
			st, prev, q = st0, prev0, q0
		}
	}
}

func (c *Ctx) record(rng *rand.Rand, word []int, rep [][]charprops.CharProperties) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic", fmt.Sprint(r), nil, nil)
		}
	}()
	o := c.O
	prev := rep[word[0]][0]
	st := machine.Begin(prev)
	c.Trace(map[string]any{"ev": "begin", "c": o.Units[word[0]]})
	for _, u := range word[1:] {
		p := rep[u][rng.Intn(len(rep[u]))]
		b, n := st.Transition(prev, p)
		c.Trace(map[string]any{"ev": "step", "c": o.Units[u], "brk": b})
		st, prev = n, p
		if b && rng.Intn(3) == 0 {
			st = machine.Begin(p)
			c.Trace(map[string]any{"ev": "restart"})
		}
	}
}

func (c *Ctx) product(rep [][]charprops.CharProperties) (closed bool, nodes int) {
	defer func() {
		if r := recover(); r != nil {
			closed = false // state not comparable, or a panic that the runs below will report
		}
	}()
	o := c.O
	type node struct {
		st   any
		prev charprops.CharProperties
		q    int
	}
	type item struct {
		st   machine.State
		prev charprops.CharProperties
		q    int
		path []int
	}
	seen := map[node]bool{}
	var queue []item
	push := func(it item) {
		k := node{any(it.st), it.prev, it.q}
		if !seen[k] {
			seen[k] = true
			queue = append(queue, it)
		}
	}
	uniq := make([][]charprops.CharProperties, len(rep))
	for u, ps := range rep {
		have := map[charprops.CharProperties]bool{}
		for _, p := range ps {
			if !have[p] {
				have[p] = true
				uniq[u] = append(uniq[u], p)
			}
		}
	}
	for _, u := range o.Classes {
		for _, p := range uniq[u] {
			push(item{machine.Begin(p), p, o.next[0][u], []int{u}})
		}
	}
	for len(queue) > 0 && len(seen) < 200000 {
		it := queue[0]
		queue = queue[1:]
		for _, u := range o.Classes {
			for _, p := range uniq[u] {
				b, n := it.st.Transition(it.prev, p)
				path := append(it.path[:len(it.path):len(it.path)], u)
				if b != o.brk[it.q][u] {
					c.Violate("product", fmt.Sprintf("reports boundary=%v before the last character, the rules say %v", b, o.brk[it.q][u]), nil,
						map[string]any{"text": names(o, path)})
					if c.Enough() {
						return false, len(seen)
					}
					continue
				}
				push(item{n, p, o.next[it.q][u], path})
				if b {
					push(item{machine.Begin(p), p, o.next[it.q][u], path})
				}
			}
		}
	}
	return len(queue) == 0, len(seen)
}
