package main

import "fmt"

// c06 and c07 look at every answer to a prefix of an input, presented with and
// without end of input, against the specification's set of allowed answers.
// c06 objects to tokens that are not (certainly) the first cluster, c07 to
// tokens that are withheld.
func c06(c *Ctx) { prefixes(c, true) }
func c07(c *Ctx) { prefixes(c, false) }

func prefixes(c *Ctx, early bool) {
	ss := c.scratches()
	at := func(w int, s *scratch, d []byte, ks []int) bool {
		first, _, _, pan := split(d, true)
		for j := 0; j <= len(d); j++ {
			k := j
			if ks != nil {
				if j >= len(ks) {
					break
				}
				k = ks[j]
			}
			p := d[:k]
			must, may, open, us := c.O.Answers(s.us, p, false)
			s.us = us
			adv, tok, err, pan2 := split(p, false)
			s.calls++
			bad := ""
			if early {
				switch {
				case adv == 0 && (tok != nil || err != nil || pan2 != nil):
					bad = fmt.Sprintf("asks for more data, but with token %q, error %v, panic %v", tok, err, pan2)
				case adv < 0 || adv > k:
					bad = fmt.Sprintf("advance %d", adv)
				case adv > 0 && adv != first && pan == nil:
					bad = fmt.Sprintf("reported a token of %d bytes although more may follow; for the continuation in data_hex the first cluster has %d bytes", adv, first)
				case adv > 0 && !open && adv != must && adv != may:
					bad = fmt.Sprintf("reported a token of %d bytes although more may follow; specification: %s", adv, need(must, may))
				}
			} else {
				switch {
				case k == 0 && (adv != 0 || tok != nil || err != nil || pan2 != nil):
					bad = fmt.Sprintf("empty data: advance %d token %q error %v panic %v", adv, tok, err, pan2)
				case !open && must > 0 && (adv == 0 || tok == nil):
					bad = fmt.Sprintf("asks for more data although the first %d bytes are decided", must)
				}
			}
			if bad == "" && !early {
				adv, tok, err, pan2 := split(p, true)
				s.calls++
				switch {
				case k == 0 && (adv != 0 || tok != nil || err != nil || pan2 != nil):
					bad = fmt.Sprintf("empty data at end of input: advance %d token %q error %v panic %v", adv, tok, err, pan2)
				case k > 0 && (adv <= 0 || len(tok) == 0 || pan2 != nil):
					bad = fmt.Sprintf("no token at end of input (advance %d, token %q, error %v, panic %v)", adv, tok, err, pan2)
				}
			}
			if bad != "" {
				c.Violate("prefix", fmt.Sprintf("data = first %d bytes of data_hex: %s", k, bad), d, map[string]any{"prefix_length": k, "units_of_prefix": c.unitNames(us)})
				return false
			}
		}
		s.texts++
		return true
	}
	check := func(w int, s *scratch, d []byte) bool { return at(w, s, d, nil) }
	ps := pieces(c.O)
	c.Add("exhaustive_piece_length", int64(Pick(c, 4, 5)))
	c.Add("exhaustive_piece_texts", c.exhaustPieces(ss, ps, Pick(c, 4, 5), check))
	// Byte strings of up to 3 bytes.
	c.Parallel(256, func(w, b0 int) {
		s := ss[w]
		for b1 := -1; b1 < 256; b1++ {
			for b2 := -1; b2 < 256; b2++ {
				if b1 < 0 && b2 >= 0 {
					break
				}
				s.buf = append(s.buf[:0], byte(b0))
				if b1 >= 0 {
					s.buf = append(s.buf, byte(b1))
				}
				if b2 >= 0 {
					s.buf = append(s.buf, byte(b2))
				}
				if b2&63 == 0 {
					c.Begin(w, "call", s.buf)
				}
				if !check(w, s, s.buf) {
					return
				}
			}
		}
		c.End(w)
	})
	// W-method words, every prefix.
	m := c.O.Minimise(c.O.Classes)
	n, gen := m.WSuite(Pick(c, 2, 3))
	c.Parallel(n, func(w, i int) {
		s := ss[w]
		stop := false
		gen(i, func(word []int) {
			if stop || (!c.Thorough() && s.rng.Intn(3) > 0) {
				return
			}
			d := c.text(s, word)
			c.Begin(w, "call", d)
			stop = !check(w, s, d)
		})
		c.End(w)
	})
	// Every code point, cut everywhere.
	c.everyCodePoint(ss, Pick(c, 3, 30), true, check)
	c.pumped(ss, Pick(c, 24, 400), check)
	c.families(ss, 2, Pick(c, 6, 1), check)
	c.foreign(ss, Pick(c, 4, 40), check)
	N := Pick(c, 200000, 4000000)
	c.Parallel(N/100, func(w, i int) {
		s := ss[w]
		for j := 0; j < 100; j++ {
			d := c.randomInput(s, 1+s.rng.Intn(25))
			c.Begin(w, "call", d)
			if !check(w, s, d) {
				return
			}
		}
		c.End(w)
	})
	c.Add("random_texts", int64(N))
	// Long clusters: a token may become final only after thousands of bytes.
	c.Parallel(Pick(c, 300, 6000), func(w, i int) {
		s := ss[w]
		word := c.O.RandomWalk(s.rng, 1+s.rng.Intn(4), c.O.Classes)
		x := []string{"Extend", "ZWJ", "Linker", "SpacingMark", "Prepend"}[s.rng.Intn(5)]
		for k := 50 + s.rng.Intn(900); k > 0; k-- {
			word = append(word, c.O.ID[x])
		}
		d := append([]byte{}, c.text(s, append(word, c.O.RandomWalk(s.rng, 3, c.O.Classes)...))...)
		c.Begin(w, "call", d)
		check(w, s, d)
		c.End(w)
	})
	long := func(w int, s *scratch, d []byte, end int) {
		ks := sizesUpTo(s, end)
		for k := end + 1; k <= len(d); k++ {
			ks = append(ks, k)
		}
		at(w, s, d, ks)
	}
	c.longClusters(ss, Pick(c, 70000, 140000), 1, long)
	c.longClusters(ss, 1<<21+100, Pick(c, 40, 2), long)
	// A short cluster before megabytes of other text.
	c.Parallel(Pick(c, 60, 400), func(w, i int) {
		s := ss[w]
		d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(6))...)
		for n := len(d) + 1<<(10+s.rng.Intn(Pick(c, 12, 15))); len(d) < n; {
			d = append(d, d[s.rng.Intn(len(d)):]...)
			d = append(d, c.randomInput(s, 8)...)
		}
		c.Begin(w, "call", d)
		at(w, s, d, sizesUpTo(s, len(d)))
		c.End(w)
	})
	// Data of every length. What the specification requires or allows after the
	// first bytes it also does after more of them.
	c.sweeps(ss, Pick(c, 70000, 140000), func(w int, s *scratch, d []byte) {
		if len(d) < 5000 || s.rng.Intn(16) == 0 {
			at(w, s, d, sizesUpTo(s, len(d)))
		}
		for from := 0; from < len(d); {
			first, _, _, _ := split(d[from:], true)
			if first <= 0 || first > len(d)-from {
				return
			}
			near := d[from:min(len(d), from+first+16)]
			must, _, open, us := c.O.Answers(s.us, near, false)
			s.us = us
			adv, _, _, _ := split(d[from:], false)
			s.calls += 2
			bad := ""
			switch {
			case open:
			case early && adv > 0 && must > 0 && adv != must, early && adv > 0 && adv != first:
				bad = fmt.Sprintf("reported a token of %d bytes although more may follow; at end of input it is %d; specification: %s", adv, first, need(must, 0))
			case !early && must > 0 && adv == 0:
				bad = fmt.Sprintf("asks for more data although the first %d bytes are decided", must)
			}
			if bad != "" {
				c.Violate("window", fmt.Sprintf("data = the last %d bytes of %d (their start is in data_hex): %s", len(d)-from, len(d), bad), append([]byte{}, d[from:]...), nil)
				return
			}
			from += first
		}
	})
	s := ss[0]
	for i := 0; i < Pick(c, 60, 400); i++ {
		d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(6))...)
		if i%2 == 0 {
			c.recordSession(s, d)
		} else {
			for k := 0; k <= min(len(d), 12); k++ {
				c.traceCall(d[:k], false)
				c.traceCall(d[:k], true)
			}
		}
	}
	for i := 0; i < 3; i++ {
		c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 6))})
	}
	c.collect(ss)
}

func need(must, may int) string {
	switch {
	case must > 0:
		return fmt.Sprintf("the first cluster has %d bytes", must)
	case may > 0:
		return fmt.Sprintf("ask for more, or a token of %d bytes", may)
	}
	return "ask for more"
}
