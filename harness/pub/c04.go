package main

import "fmt"

// c04: malformed bytes stand alone and separate their neighbours. Where the
// malformed bytes are is the specification's transducer's business; how the
// neighbours are segmented is compared with the code's own result for each
// stretch alone, so that this judges isolation and nothing else.
func c04(c *Ctx) {
	ss := c.scratches()
	var alone [][]int
	for range ss {
		alone = append(alone, nil)
	}
	check := func(w int, s *scratch, d []byte) bool {
		var open bool
		s.us, _, open = c.O.UnitsOf(s.us, d, true)
		errs := 0
		for _, u := range s.us {
			open = open || u.Open
			if u.U == c.O.Err {
				errs++
			}
		}
		if open || errs == 0 {
			return true
		}
		// Expected: stretches alone, malformed bytes as singletons.
		s.want = s.want[:0]
		from := 0
		flush := func(to int) bool {
			if from < to {
				var bad string
				alone[w], bad = scanAll(alone[w], d[from:to], 0)
				if bad != "" {
					c.Violate("scan", bad, d[from:to], nil)
					return false
				}
				for _, x := range alone[w] {
					s.want = append(s.want, from+x)
				}
			}
			return true
		}
		for _, u := range s.us {
			if u.U == c.O.Err {
				if !flush(u.At) {
					return false
				}
				s.want = append(s.want, u.At+1)
				from = u.At + 1
			}
		}
		if !flush(len(d)) {
			return false
		}
		for mode := 0; mode < 2; mode++ {
			var bad string
			s.got, bad = scanAll(s.got, d, mode)
			s.texts++
			s.calls += int64(len(s.got)) + 1
			s.boundaries += int64(len(s.want))
			if bad == "" && !eq(s.got, s.want) {
				bad = fmt.Sprintf("cluster ends %v; malformed bytes alone and neighbours as if alone gives %v", clip(s.got), clip(s.want))
			}
			if bad != "" {
				c.Violate("isolation", bad, d, map[string]any{"units": c.unitNames(s.us), "mode": mode})
				return false
			}
		}
		return true
	}
	ps := pieces(c.O)
	c.Add("exhaustive_piece_texts", c.exhaustPieces(ss, ps, Pick(c, 4, 5), check))
	c.Add("exhaustive_piece_length", int64(Pick(c, 4, 5)))
	// Every byte, and every pair of bytes, between every two classes / in
	// contexts that leave each look-back state pending.
	m := c.O.Minimise(c.O.Classes)
	var pre [][]byte
	for _, a := range m.Access {
		var b []byte
		for _, u := range a {
			b = appendRune(b, c.O.First(u))
		}
		pre = append(pre, b)
	}
	var post [][]byte
	for _, u := range c.O.Classes {
		post = append(post, []byte(string(c.O.First(u))))
	}
	post = append(post, nil)
	c.Parallel(256, func(w, b int) {
		s := ss[w]
		for _, p := range pre {
			for _, q := range post {
				s.buf = append(append(append(s.buf[:0], p...), byte(b)), q...)
				c.Begin(w, "scan", s.buf)
				if !check(w, s, s.buf) {
					return
				}
			}
		}
		for b2 := 0; b2 < 256; b2++ {
			for _, p := range pre {
				q := post[(b2+b)%len(post)]
				s.buf = append(append(append(s.buf[:0], p...), byte(b), byte(b2)), q...)
				c.Begin(w, "scan", s.buf)
				if !check(w, s, s.buf) {
					return
				}
			}
		}
		c.End(w)
	})
	c.Add("lookback_contexts", int64(len(pre)))
	// Every truncation of every code point's encoding next to others (stride
	// covers all lead/continuation combinations; the offset is random).
	stride := Pick(c, 3, 1)
	off := ss[0].rng.Intn(stride)
	c.Parallel(0x110000/4096, func(w, i int) {
		s := ss[w]
		for r := rune(i*4096 + off%stride); r < rune((i+1)*4096); r += rune(stride) {
			if r < 0x80 || (r >= 0xd800 && r < 0xe000) {
				continue
			}
			e := string(r)
			for k := 1; k < len(e); k++ {
				p, q := pre[s.rng.Intn(len(pre))], post[s.rng.Intn(len(post))]
				s.buf = append(append(append(s.buf[:0], p...), e[:k]...), q...)
				c.Begin(w, "scan", s.buf)
				if !check(w, s, s.buf) {
					return
				}
				// the truncated character, then the same whole
				s.buf = append(append(append(append(s.buf[:0], p...), e[:k]...), e...), q...)
				if !check(w, s, s.buf) {
					return
				}
			}
		}
		c.End(w)
	})
	N := Pick(c, 400000, 8000000)
	c.Parallel(N/100, func(w, i int) {
		s := ss[w]
		for j := 0; j < 100; j++ {
			d := c.randomInput(s, 1+s.rng.Intn(60))
			c.Begin(w, "scan", d)
			if !check(w, s, d) {
				break
			}
		}
		c.End(w)
	})
	c.Add("random_texts", int64(N))
	c.pumped(ss, Pick(c, 64, 1000), func(w int, s *scratch, d []byte) bool {
		// a malformed byte somewhere in it
		k := s.rng.Intn(len(d) + 1)
		d = append(d, 0)
		copy(d[k+1:], d[k:])
		d[k] = byte(0x80 + s.rng.Intn(0x80))
		s.buf = d
		return check(w, s, d)
	})
	// Runs of malformed bytes: the same, two in turn, random ones.
	c.Parallel(256, func(w, b int) {
		s := ss[w]
		defer c.End(w)
		for _, n := range Sizes(Pick(c, 3000, 9000)) {
			if b < 0x80 || n > 130 && !c.Thorough() && s.rng.Intn(4) > 0 {
				continue
			}
			s.buf = append(s.buf[:0], pre[s.rng.Intn(len(pre))]...)
			kind, other := s.rng.Intn(3), byte(0x80+s.rng.Intn(0x80))
			for k := 0; k < n; k++ {
				switch {
				case kind == 1 && k&1 == 1:
					s.buf = append(s.buf, other)
				case kind == 2 && k > 0:
					s.buf = append(s.buf, byte(0x80+s.rng.Intn(0x80)))
				default:
					s.buf = append(s.buf, byte(b))
				}
			}
			s.buf = append(s.buf, post[s.rng.Intn(len(post))]...)
			c.Begin(w, "scan", s.buf)
			if !check(w, s, s.buf) {
				return
			}
		}
	})
	// Every three bytes of which the first is malformed or may be, before text.
	c.Parallel(128, func(w, b int) {
		s := ss[w]
		defer c.End(w)
		for y := 0; y < 256; y++ {
			for z := 0; z < 256; z++ {
				s.buf = append(s.buf[:0], byte(0x80+b), byte(y), byte(z))
				if s.rng.Intn(4) > 0 {
					s.buf = append(s.buf, []byte{0, 'A', '\n', 0xff, 0x80, ' '}[s.rng.Intn(6)])
				}
				for k := s.rng.Intn(4); k > 0; k-- {
					s.buf = append(s.buf, post[s.rng.Intn(len(post))]...)
				}
				c.Begin(w, "scan", s.buf)
				if !check(w, s, s.buf) {
					return
				}
			}
		}
	})
	c.everyCodePoint(ss, Pick(c, 8, 80), true, check)
	c.foreign(ss, Pick(c, 8, 80), check)
	c.sweeps(ss, Pick(c, 70000, 140000), func(w int, s *scratch, d []byte) { check(w, s, d) })
	s := ss[0]
	for i := 0; i < Pick(c, 60, 400); i++ {
		d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(7))...)
		d = append(d, fragments[s.rng.Intn(len(fragments))]...)
		d = append(d, c.randomInput(s, s.rng.Intn(3))...)
		c.recordSession(s, d)
	}
	for i := 0; i < 3; i++ {
		c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 8))})
	}
	c.collect(ss)
}
