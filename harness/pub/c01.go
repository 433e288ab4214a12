package main

import "sync/atomic"

// c01: boundaries of well-formed text, against the specification's automaton.
func c01(c *Ctx) {
	o := c.O
	ss := c.scratches()
	alpha := o.Classes

	// 1. W-method suite: if the code behaves like a finite machine over the
	// segmentation classes with at most k more states than the minimal one, it
	// passes this suite only if it is right for texts of every length.
	m := o.Minimise(alpha)
	c.Add("model_states_minimal", int64(len(m.Access)))
	c.Add("w_words", int64(len(m.W)))
	k := Pick(c, 2, 3)
	n, gen := m.WSuite(k)
	var suite atomic.Int64
	c.Parallel(n, func(w, i int) {
		s := ss[w]
		gen(i, func(word []int) {
			d := c.text(s, word)
			c.Begin(w, "scan", d)
			c.checkText(s, d)
			suite.Add(1)
		})
		c.End(w)
	})
	c.Add("w_method_texts", suite.Load())
	c.Add("w_method_extra_states", int64(k))

	// 2. Every sequence of classes up to a length.
	L := Pick(c, 5, 7)
	var exh atomic.Int64
	for l := 1; l <= L; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(alpha)
		}
		const chunk = 4096
		c.Parallel((total+chunk-1)/chunk, func(w, i int) {
			s := ss[w]
			for x := i * chunk; x < min(total, (i+1)*chunk); x++ {
				s.word = s.word[:0]
				for y, j := x, 0; j < l; j++ {
					s.word = append(s.word, alpha[y%len(alpha)])
					y /= len(alpha)
				}
				d := c.text(s, s.word)
				c.Begin(w, "scan", d)
				c.checkText(s, d)
				exh.Add(1)
			}
			c.End(w)
		})
	}
	c.Add("exhaustive_length", int64(L))
	c.Add("exhaustive_texts", exh.Load())

	// 3. Long random walks with random members of each class.
	N := Pick(c, 600000, 10000000)
	c.Parallel(N/100, func(w, i int) {
		s := ss[w]
		for j := 0; j < 100; j++ {
			word := o.RandomWalk(s.rng, 5+s.rng.Intn(120), alpha)
			d := c.text(s, word)
			c.Begin(w, "scan", d)
			c.checkText(s, d)
		}
		c.End(w)
	})
	c.Add("random_walk_texts", int64(N))

	c.everyCodePoint(ss, Pick(c, 8, 80), false, func(w int, s *scratch, d []byte) bool { c.checkText(s, d); return !c.Enough() })
	c.families(ss, 24, 1, func(w int, s *scratch, d []byte) bool { c.checkText(s, d); return !c.Enough() })
	// 4. Long texts, of which every suffix that starts a cluster is presented.
	c.sweeps(ss, Pick(c, 70000, 140000), func(w int, s *scratch, d []byte) { c.checkText(s, d) })

	// 5. Calls recorded for TLC, which decides them on the declarative rules.
	s := ss[0]
	for i := 0; i < Pick(c, 400, 2500); i++ {
		word := o.RandomWalk(s.rng, 1+s.rng.Intn(14), alpha)
		d := c.text(s, word)
		for at := 0; at < len(d); {
			c.traceCall(d[at:], true)
			adv, _, _, _ := split(d[at:], true)
			if adv <= 0 {
				break
			}
			at += adv
		}
	}
	c.Sample(map[string]any{"w_method_word": names(o, append(append([]int{}, m.Access[len(m.Access)-1]...), m.W[0]...))})
	c.Sample(map[string]any{"random_walk": names(o, o.RandomWalk(s.rng, 24, alpha))})
	c.collect(ss)
}

func names(o *Oracle, w []int) []string {
	var r []string
	for _, u := range w {
		r = append(r, o.Units[u])
	}
	return r
}
