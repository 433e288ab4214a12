package main

import (
	"bufio"
	"fmt"
	"os"
	"sync/atomic"
	"unicode/utf8"
)

// contexts: pairs of class words (prefix, suffix) such that the boundaries of
// prefix . x . suffix separate every two different classes x.
func contexts(o *Oracle) (ctx [][2][]int, separated int) {
	var words [][]int
	words = append(words, []int{})
	for _, a := range o.Classes {
		words = append(words, []int{a})
	}
	for _, a := range o.Classes {
		for _, b := range o.Classes {
			words = append(words, []int{a, b})
		}
	}
	type pair struct{ a, b int }
	left := map[pair]bool{}
	for i, a := range o.Classes {
		for _, b := range o.Classes[i+1:] {
			left[pair{a, b}] = true
		}
	}
	sigOf := func(p []int, x int, s []int) string {
		w := append(append(append([]int{}, p...), x), s...)
		r := ""
		for _, b := range o.ClassBreaks(w) {
			if b {
				r += "1"
			} else {
				r += "0"
			}
		}
		return r
	}
	// Single-neighbour contexts first (all of them, they are cheap and also
	// catch interactions), then two-unit ones as needed.
	for i, p := range words {
		for j, s := range words {
			one := len(p)+len(s) == 1
			if !one && (len(left) == 0 || i > len(o.Classes) && j > len(o.Classes)) {
				continue
			}
			useful := one
			sig := map[int]string{}
			for _, x := range o.Classes {
				sig[x] = sigOf(p, x, s)
			}
			for pr := range left {
				if sig[pr.a] != sig[pr.b] {
					delete(left, pr)
					separated++
					useful = true
				}
			}
			if useful {
				ctx = append(ctx, [2][]int{p, s})
			}
		}
	}
	if len(left) > 0 {
		panic("classes not separable")
	}
	return
}

// c02: every scalar value in contexts that tell all classes apart.
func c02(c *Ctx) {
	o := c.O
	ctx, sep := contexts(o)
	c.Add("contexts", int64(len(ctx)))
	c.Add("class_pairs_separated", int64(sep))
	ss := c.scratches()
	render := func(w []int) []byte {
		var b []byte
		for _, u := range w {
			b = appendRune(b, o.First(u))
		}
		return b
	}
	type cx struct{ p, s []byte }
	var cxs []cx
	for _, x := range ctx {
		cxs = append(cxs, cx{render(x[0]), render(x[1])})
	}
	var cps atomic.Int64
	const chunk = 1024
	c.Parallel(0x110000/chunk, func(w, i int) {
		s := ss[w]
		for r := rune(i * chunk); r < rune((i+1)*chunk); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			cps.Add(1)
			for k, x := range cxs {
				s.buf = append(appendRune(append(s.buf[:0], x.p...), r), x.s...)
				c.Begin(w, "scan", s.buf)
				if !c.checkText2(s, s.buf, r, k) {
					break
				}
			}
			// Random wider context with random members around it.
			for t := 0; t < Pick(c, 4, 40); t++ {
				s.buf = s.buf[:0]
				for j := s.rng.Intn(4); j > 0; j-- {
					s.buf = appendRune(s.buf, o.Rep(s.rng, o.Classes[s.rng.Intn(len(o.Classes))]))
				}
				s.buf = appendRune(s.buf, r)
				for j := s.rng.Intn(4); j > 0; j-- {
					s.buf = appendRune(s.buf, o.Rep(s.rng, o.Classes[s.rng.Intn(len(o.Classes))]))
				}
				c.checkText(s, s.buf)
			}
		}
		c.End(w)
	})
	c.Add("code_points", cps.Load())
	// Every code point somewhere in long texts, in random order.
	var scalars []rune
	for r := rune(0); r < 0x110000; r++ {
		if utf8.ValidRune(r) {
			scalars = append(scalars, r)
		}
	}
	for pass := 0; pass < Pick(c, 6, 60); pass++ {
		perm := ss[0].rng.Perm(len(scalars))
		const per = 4096
		c.Parallel((len(perm)+per-1)/per, func(w, i int) {
			s := ss[w]
			for part := perm[i*per : min(len(perm), (i+1)*per)]; len(part) > 0; {
				n := min(len(part), 1+s.rng.Intn(1<<s.rng.Intn(13)))
				s.buf = s.buf[:0]
				for _, k := range part[:n] {
					for s.rng.Intn(2) == 0 {
						s.buf = appendRune(s.buf, o.Rep(s.rng, o.Classes[s.rng.Intn(len(o.Classes))]))
					}
					s.buf = appendRune(s.buf, scalars[k])
				}
				part = part[n:]
				c.Begin(w, "scan", s.buf)
				c.checkText(s, s.buf)
			}
			c.End(w)
		})
	}
	c.Add("passes_in_long_texts", int64(Pick(c, 6, 60)))
	// Every code point deep inside a cluster.
	m := o.Minimise(o.Classes)
	var grow [][2]int // state, class: the cluster goes on in the same state
	for q := range m.Access {
		for k, u := range m.Alpha {
			if len(m.Access[q]) > 0 && m.Next[q][k] == q && !m.Brk[q][k] {
				grow = append(grow, [2]int{q, u})
			}
		}
	}
	c.Parallel(0x110000/chunk, func(w, i int) {
		s := ss[w]
		for r := rune(i * chunk); r < rune((i+1)*chunk); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			g := grow[s.rng.Intn(len(grow))]
			s.buf = s.buf[:0]
			for _, u := range m.Access[g[0]] {
				s.buf = appendRune(s.buf, o.Rep(s.rng, u))
			}
			n := 40 + s.rng.Intn(100)
			if s.rng.Intn(16) == 0 {
				n = 1 << (7 + s.rng.Intn(5))
			}
			for x := string(o.Rep(s.rng, g[1])); len(s.buf) < n; {
				s.buf = append(s.buf, x...)
			}
			if s.rng.Intn(2) == 0 {
				s.buf = appendRune(s.buf, o.Rep(s.rng, o.Classes[s.rng.Intn(len(o.Classes))]))
			}
			s.buf = appendRune(s.buf, r)
			for j := s.rng.Intn(4); j > 0; j-- {
				s.buf = appendRune(s.buf, o.Rep(s.rng, o.Classes[s.rng.Intn(len(o.Classes))]))
			}
			c.Begin(w, "scan", s.buf)
			if !c.checkText2(s, s.buf, r, 0) {
				break
			}
		}
		c.End(w)
	})
	c.Add("growing_cluster_kinds", int64(len(grow)))
	// For TLC: code points next to every range border of the Unicode data, plus
	// random ones, decided by the specification's own lookup.
	s := ss[0]
	var prev uint8 = 255
	var borders []rune
	for r := rune(0); r < 0x110000; r++ {
		if o.class[r] != prev {
			if r > 0 {
				borders = append(borders, r-1)
			}
			borders = append(borders, r)
			prev = o.class[r]
		}
	}
	c.Add("class_range_borders", int64(len(borders)))
	for i := 0; i < Pick(c, 700, 4000); i++ {
		var r rune
		if i%2 == 0 {
			r = borders[s.rng.Intn(len(borders))]
		} else {
			r = rune(s.rng.Intn(0x110000))
		}
		if !utf8.ValidRune(r) {
			continue
		}
		x := cxs[s.rng.Intn(len(cxs))]
		d := append(appendRune(append([]byte{}, x.p...), r), x.s...)
		c.traceCall(d, true)
		adv, _, _, _ := split(d, true)
		if adv > 0 && adv < len(d) {
			c.traceCall(d[adv:], true)
		}
	}
	for _, x := range ctx[len(ctx)-3:] {
		c.Sample(map[string]any{"context_before": names(o, x[0]), "context_after": names(o, x[1])})
	}
	c.collect(ss)
}

func (c *Ctx) checkText2(s *scratch, d []byte, r rune, k int) bool {
	if !c.checkText(s, d) {
		c.mu.Lock()
		if len(c.viol) > 0 {
			v := &c.viol[len(c.viol)-1]
			if v.Extra == nil {
				v.Extra = map[string]any{}
			}
			v.Extra["code_point"] = fmt.Sprintf("U+%04X", r)
		}
		c.mu.Unlock()
		return false
	}
	return true
}

// sig writes the observed behaviour of every scalar value in all contexts,
// one line per maximal range of equal behaviour (used to compare two builds).
func sig(c *Ctx) {
	o := c.O
	ctx, _ := contexts(o)
	f, err := os.Create(c.Extra)
	must(err)
	w := bufio.NewWriter(f)
	var cxs [][2][]byte
	for _, x := range ctx {
		var p, s []byte
		for _, u := range x[0] {
			p = appendRune(p, o.First(u))
		}
		for _, u := range x[1] {
			s = appendRune(s, o.First(u))
		}
		cxs = append(cxs, [2][]byte{p, s})
	}
	ss := c.scratches()
	sigs := make([]string, 0x110000)
	const chunk = 1024
	c.Parallel(0x110000/chunk, func(wk, i int) {
		s := ss[wk]
		var key []byte
		intern := map[string]string{}
		for r := rune(i * chunk); r < rune((i+1)*chunk); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			key = key[:0]
			n := utf8.RuneLen(r)
			for _, x := range cxs {
				s.buf = append(appendRune(append(s.buf[:0], x[0]...), r), x[1]...)
				c.Begin(wk, "scan", s.buf)
				got, bad := scanAll(s.got, s.buf, 0)
				s.got = got
				if bad != "" {
					key = append(key, '!')
				}
				for _, g := range got {
					// offsets relative to the code point, so that its length does not matter
					switch {
					case g <= len(x[0]):
						key = append(key, byte('a'+g))
					case g < len(x[0])+n:
						key = append(key, '?')
					default:
						key = append(key, byte('A'+g-len(x[0])-n))
					}
				}
				key = append(key, ' ')
			}
			v, ok := intern[string(key)]
			if !ok {
				v = string(key)
				intern[v] = v
			}
			sigs[r] = v
		}
		c.End(wk)
	})
	start := 0
	for r := 1; r <= 0x110000; r++ {
		if r == 0x110000 || sigs[r] != sigs[start] {
			fmt.Fprintf(w, "%04X..%04X %s\n", start, r-1, sigs[start])
			start = r
		}
	}
	must(w.Flush())
	must(f.Close())
	c.Add("code_points", 0x110000-2048)
	c.Add("contexts", int64(len(cxs)))
}
