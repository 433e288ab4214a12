package main

import (
	"math/rand"
	"sync/atomic"
	"unicode/utf8"
)

// sweeps calls f for texts of about n bytes that end in each of many tails, and
// for texts of exactly the lengths around which limits lie. In the former,
// clusters are short, so that scanning them presents data of every length.
func (c *Ctx) sweeps(ss []*scratch, n int, f func(w int, s *scratch, d []byte)) {
	ps := pieces(c.O)
	sizes := Sizes(n)
	tails := len(ps) * len(ps)
	every := Pick(c, 4, 1)
	off := ss[0].rng.Intn(every)
	c.Parallel(tails/every, func(w, i int) {
		s := ss[w]
		i = i*every + off
		style := 0
		if s.rng.Intn(3) == 0 {
			style = 1 + s.rng.Intn(FillerStyles-1)
		}
		d := c.O.Filler(s.rng, make([]byte, 0, n+64), n, style)
		d = append(append(d, ps[i%len(ps)].b...), ps[i/len(ps)].b...)
		c.Begin(w, "scan", d)
		f(w, s, d)
		c.End(w)
	})
	per := Pick(c, 4, 40)
	c.Parallel(len(sizes)*per, func(w, i int) {
		s := ss[w]
		n := sizes[i/per]
		d := c.sized(s, n)
		if i%per == 0 {
			d = c.O.Filler(s.rng, make([]byte, 0, n), n, 5) // one cluster
		}
		c.Begin(w, "scan", d)
		f(w, s, d)
		c.End(w)
	})
	c.Add("texts_presented_at_all_lengths", int64(tails/every+len(sizes)*per))
	c.Add("longest_of_these", int64(n))
}

// sized is a text of exactly n bytes, in its own memory.
func (c *Ctx) sized(s *scratch, n int) []byte {
	tail := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(4))...)
	if s.rng.Intn(3) == 0 {
		tail = nil
	} else if len(tail) > n {
		tail = tail[len(tail)-n:]
	}
	d := c.O.Filler(s.rng, make([]byte, 0, n), n-len(tail), s.rng.Intn(FillerStyles))
	return append(d, tail...)
}

// everyCodePoint calls f for short texts around each of the scalar values: in
// the place of a character of its class, after every kind of context and before
// every kind of continuation; next to itself; if so wanted truncated, and next to malformed bytes.
func (c *Ctx) everyCodePoint(ss []*scratch, passes int, malformed bool, f func(w int, s *scratch, d []byte) bool) {
	o := c.O
	m := o.Minimise(o.Classes)
	var n atomic.Int64
	const per = 512
	blocks := 0x110000 / per
	c.Parallel(blocks*passes, func(w, i int) {
		s := ss[w]
		defer c.End(w)
		for r := rune(i % blocks * per); r < rune((i%blocks+1)*per); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			d := s.buf[:0]
			put := func(word []int) {
				for _, u := range word {
					if u == int(o.class[r]) && s.rng.Intn(2) == 0 {
						d = appendRune(d, r)
					} else {
						d = appendRune(d, o.Rep(s.rng, u))
					}
					if malformed && s.rng.Intn(40) == 0 {
						d = append(d, fragments[s.rng.Intn(len(fragments))]...)
					}
				}
			}
			put(o.RandomWalk(s.rng, s.rng.Intn(3), o.Classes))
			put(m.Access[s.rng.Intn(len(m.Access))])
			for d = appendRune(d, r); s.rng.Intn(6) == 0; {
				d = appendRune(d, r)
			}
			put(m.W[s.rng.Intn(len(m.W))])
			put(o.RandomWalk(s.rng, s.rng.Intn(4), o.Classes))
			if l := utf8.RuneLen(r); l > 1 && malformed && s.rng.Intn(6) == 0 {
				d = appendRune(d, r)
				d = d[:len(d)-1-s.rng.Intn(l-1)]
			}
			s.buf = d
			c.Begin(w, "scan", d)
			if !f(w, s, d) {
				return
			}
			n.Add(1)
		}
	})
	c.Add("texts_around_every_code_point", n.Load())
}

func (c *Ctx) families(ss []*scratch, group, every int, f func(w int, s *scratch, d []byte) bool) {
	c.Families(group, every, func(w int, _ *rand.Rand, d []byte) bool { return f(w, ss[w], d) })
}

func (c *Ctx) foreign(ss []*scratch, passes int, f func(w int, s *scratch, d []byte) bool) {
	c.Foreign(passes, func(w int, _ *rand.Rand, d []byte) bool { return f(w, ss[w], d) })
}
