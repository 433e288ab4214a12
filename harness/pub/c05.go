package main

import (
	"bytes"
	"fmt"
	"sync/atomic"
)

// c05: the tokens are those of the whole input presented at once, however a
// reader delivers it.
func c05(c *Ctx) {
	ss := c.scratches()
	var sessions atomic.Int64
	one := func(s *scratch, d []byte, steps []step, initial int) bool {
		desc := fmt.Sprint(steps)
		var bad string
		s.got, bad = session(s.got, d, steps, initial, nil)
		sessions.Add(1)
		if bad == "" && !eq(s.got, s.want) {
			bad = fmt.Sprintf("cluster ends %v, presented at once %v", clip(s.got), clip(s.want))
		}
		if bad != "" {
			if len(desc) > 600 {
				desc = desc[:600]
			}
			c.Violate("delivery", bad, d, map[string]any{"reads{bytes,eof}": desc, "initial_buffer": initial})
			return false
		}
		return true
	}
	base := func(s *scratch, d []byte) bool {
		var bad string
		s.want, bad = scanAll(s.want, d, 0)
		if bad != "" {
			c.Violate("scan", bad, d, nil)
		}
		return bad == ""
	}
	// 1. Short inputs under every composition into chunks, end of input with or
	// after the last bytes, with and without empty reads in between.
	N := Pick(c, 20000, 100000)
	maxB := Pick(c, 9, 12)
	ps := pieces(c.O)
	c.Parallel(N, func(w, i int) {
		s := ss[w]
		var d []byte
		for {
			if s.rng.Intn(3) == 0 {
				d = append(d, ps[s.rng.Intn(len(ps))].b...)
			} else {
				d = append(d, c.randomInput(s, 1)...)
			}
			if len(d) >= maxB-4 {
				break
			}
		}
		d = d[:min(len(d), maxB)]
		c.Begin(w, "scan through a reader", d)
		if !base(s, d) {
			return
		}
		for m := 0; m < 1<<(len(d)-1); m++ {
			for v := 0; v < 3; v++ {
				var steps []step
				k := 0
				for j := range d {
					k++
					if j == len(d)-1 || m>>j&1 == 1 {
						if v == 2 {
							steps = append(steps, step{0, false})
						}
						steps = append(steps, step{k, v > 0 && j == len(d)-1})
						k = 0
					}
				}
				if !one(s, d, steps, 1+(m+v)%5) {
					return
				}
			}
		}
		c.End(w)
	})
	c.Add("inputs_under_all_compositions", int64(N))
	// 2. Longer inputs under random schedules; clusters larger than the buffers.
	M := Pick(c, 200000, 3000000)
	c.Parallel(M/20, func(w, i int) {
		s := ss[w]
		for j := 0; j < 20; j++ {
			d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(40))...)
			c.Begin(w, "scan through a reader", d)
			if !base(s, d) {
				return
			}
			for t := 0; t < 4; t++ {
				if !one(s, d, s.randomSteps(len(d)), 1+s.rng.Intn(16)) {
					return
				}
			}
		}
		c.End(w)
	})
	c.Parallel(Pick(c, 400, 6000), func(w, i int) {
		s := ss[w]
		var d []byte
		for len(d) < 6000+s.rng.Intn(20000) {
			if s.rng.Intn(4) == 0 {
				x := c.O.Rep(s.rng, c.O.ID[[]string{"Extend", "ZWJ", "RI", "Linker", "Prepend", "L"}[s.rng.Intn(6)]])
				d = append(d, bytes.Repeat([]byte(string(x)), s.rng.Intn(2500))...)
			}
			d = append(d, c.randomInput(s, 30)...)
		}
		c.Begin(w, "scan through a reader", d)
		if !base(s, d) {
			return
		}
		// default-like and odd chunk sizes around the buffer sizes
		for _, k := range []int{1 + s.rng.Intn(7), 509, 512, 4095, 4096, 4097, 1 << 20} {
			var steps []step
			for n := len(d); n > 0; n -= k {
				steps = append(steps, step{min(k, n), false})
			}
			steps[len(steps)-1].eof = s.rng.Intn(2) == 0
			if len(steps) > 3000 && k < 500 {
				continue
			}
			if !one(s, d, steps, []int{0, 1, 64, 4096}[s.rng.Intn(4)]) {
				return
			}
		}
		c.End(w)
	})
	// 3. Clusters longer than any buffer.
	long := func(w int, s *scratch, d []byte, end int) {
		if !base(s, d) {
			return
		}
		for _, k := range []int{4096 + s.rng.Intn(9000), 65536, 1 << 30} {
			if len(d) > 1<<20 {
				k = max(k, 1<<17)
			}
			steps := []step{{s.rng.Intn(5000), false}}
			for n := len(d) - steps[0].n; n > 0; n -= k {
				steps = append(steps, step{min(k, n), false})
			}
			steps[len(steps)-1].eof = s.rng.Intn(2) == 0
			if !one(s, d, steps, []int{0, 1, 64, 4096}[s.rng.Intn(4)]) {
				return
			}
		}
	}
	c.longClusters(ss, 150000, 1, long)
	c.longClusters(ss, 1<<21+100, Pick(c, 40, 1), long)
	c.longClusters(ss, 1<<24+100, Pick(c, 400, 40), long)
	// Every code point, in pieces.
	inPieces := func(w int, s *scratch, d []byte) bool {
		if !base(s, d) {
			return false
		}
		for k := 0; k < 2; k++ {
			var steps []step
			for n := len(d); n > 0; {
				x := min(n, 1+s.rng.Intn(1+s.rng.Intn(6)))
				steps = append(steps, step{x, false})
				n -= x
			}
			steps[len(steps)-1].eof = s.rng.Intn(2) == 0
			if !one(s, d, steps, []int{0, 1, 64, len(d)}[s.rng.Intn(4)]) {
				return false
			}
		}
		return true
	}
	c.everyCodePoint(ss, Pick(c, 2, 20), true, inPieces)
	c.pumped(ss, Pick(c, 24, 400), inPieces)
	c.families(ss, 4, Pick(c, 24, 2), inPieces)
	c.foreign(ss, Pick(c, 4, 40), inPieces)
	// 4. Long inputs of short clusters, in few and many pieces.
	c.sweeps(ss, Pick(c, 9000, 70000), func(w int, s *scratch, d []byte) {
		if !base(s, d) {
			return
		}
		for _, k := range []int{1 + s.rng.Intn(len(d)), []int{1, 512, 1024, 4095, 4096, 1 << 20}[s.rng.Intn(6)]} {
			var steps []step
			for n := len(d); n > 0; n -= k {
				steps = append(steps, step{min(k, n), false})
			}
			steps[len(steps)-1].eof = s.rng.Intn(2) == 0
			if !one(s, d, steps, []int{0, 1, 64, 4096, len(d)}[s.rng.Intn(5)]) {
				return
			}
		}
	})
	// 5. For TLC: several sessions over the same input.
	s := ss[0]
	for i := 0; i < Pick(c, 40, 300); i++ {
		d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(7))...)
		for t := 0; t < 3; t++ {
			c.recordSession(s, d)
		}
	}
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 5)), "reads": fmt.Sprint(s.randomSteps(20))})
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 5)), "reads": fmt.Sprint(s.randomSteps(20))})
	c.Add("sessions", sessions.Load())
	c.collect(ss)
}
