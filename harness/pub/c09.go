package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync/atomic"
)

// cyc is a cycle of the specification's automaton.
type cyc struct {
	q    int
	word []int
	grow bool // one ever growing cluster
}

// longClusters calls f for single clusters that grow past every size up to
// about size bytes: every class that a cluster can go on growing by, in each of
// its UTF-8 lengths, at each alignment; a piece of ordinary text follows.
func (c *Ctx) longClusters(ss []*scratch, size, every int, f func(w int, s *scratch, d []byte, end int)) {
	o := c.O
	m := o.Minimise(o.Classes)
	type one struct {
		access []int
		r      rune
		pad    int
	}
	var all []one
	seen := map[[2]int]bool{}
	for q := range m.Access {
		for k, u := range m.Alpha {
			if len(m.Access[q]) == 0 || m.Next[q][k] != q || m.Brk[q][k] || seen[[2]int{m.Access[q][len(m.Access[q])-1], u}] {
				continue
			}
			seen[[2]int{m.Access[q][len(m.Access[q])-1], u}] = true
			for n := 1; n <= 4; n++ {
				if len(o.members[u][n]) > 0 {
					for pad := 0; pad < 4; pad++ {
						all = append(all, one{m.Access[q], o.members[u][n][ss[0].rng.Intn(len(o.members[u][n]))], pad})
					}
				}
			}
		}
	}
	ss[0].rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	all = all[:(len(all)+every-1)/every]
	prepend := o.members[o.ID["Prepend"]]
	c.Parallel(len(all), func(w, i int) {
		s, x := ss[w], all[i]
		d := make([]byte, 0, size+64)
		for k := 0; k < x.pad && len(prepend[4]) > 0; k++ { // shifts the alignment, as Prepend always joins
			if k%2 == 0 {
				d = appendRune(d, prepend[2][s.rng.Intn(len(prepend[2]))])
			} else {
				d = appendRune(d, prepend[3][s.rng.Intn(len(prepend[3]))])
			}
		}
		for _, u := range x.access {
			d = appendRune(d, o.First(u))
		}
		for len(d) < size {
			d = appendRune(d, x.r)
		}
		end := len(d)
		for _, u := range o.RandomWalk(s.rng, 3, o.Classes) {
			d = appendRune(d, o.Rep(s.rng, u))
		}
		c.Begin(w, "long cluster", d)
		f(w, s, d, end)
		c.End(w)
	})
	c.Add("long_clusters", int64(len(all)))
}

// sizesUpTo are the lengths around which limits lie.
func sizesUpTo(s *scratch, n int) (ks []int) {
	for p := 64; p <= n; p *= 2 {
		for d := -4; d <= 4; d++ {
			if p+d <= n {
				ks = append(ks, p+d)
			}
		}
		ks = append(ks, p/2+s.rng.Intn(p/2))
	}
	return append(ks, n)
}

// giants are single clusters of more bytes than 31 and 32 bits can count.
func (c *Ctx) giants(run func(int, cyc, int, []int), one []cyc) {
	o := c.O
	for _, size := range []int64{1 << 31, 1 << 32} {
		if size > math.MaxInt {
			return // no such data on this platform
		}
		for _, name := range []string{"Extend", "Linker", "ZWJ"} {
			for _, x := range one {
				if x.word[0] == o.ID[name] && x.q != 0 {
					run(0, x, int(size)/len(string(o.First(x.word[0])))+5, []int{o.ID["Other"]})
					break
				}
			}
		}
	}
	c.Add("clusters_beyond_2^31_bytes", 6)
}

// mapped is the same in address space of which most is one piece of memory
// seen many times.
func (c *Ctx) mapped() {
	o := c.O
	first := func(class string, n int) string { return string(o.members[o.ID[class]][n][0]) }
	items := []struct {
		unit string
		n    int64
	}{
		{first("Extend", 4), 1<<32 + 100},
		{first("Extend", 2), 1<<32 + 100}, // 2^31 characters
		{first("L", 3), 1<<31 + 100},
		{first("Consonant", 3) + first("Linker", 3), 1<<31 + 100},
		{first("ExtPict", 4) + first("ZWJ", 3), 1<<31 + 100},
		{first("Extend", 3), 1<<31 + 100},
	}
	var done, longest atomic.Int64
	c.Parallel(len(items), func(w, i int) {
		it := items[i]
		if it.n > math.MaxInt {
			return
		}
		small := []byte(strings.Repeat(it.unit, 40) + "a")
		cuts, _, open := o.Cuts(nil, nil, small)
		if open || len(cuts) != 2 || cuts[0] != len(small)-1 {
			must(fmt.Errorf("%q does not grow", it.unit))
		}
		d, free, err := tiled([]byte(it.unit), int(it.n)+16)
		if err != nil {
			return
		}
		defer free()
		end := int(it.n) / len(it.unit) * len(it.unit)
		d[end] = 'a'
		d = d[:end+1]
		c.Begin(w, fmt.Sprintf("scan of %q repeated to %d bytes", it.unit, end), small)
		defer c.End(w)
		adv, tok, err, pan := splitAsIs(d, i%2 == 0)
		if pan != nil || err != nil || adv != end || len(tok) != end {
			c.Violate("long", fmt.Sprintf("%q repeated to %d bytes and then a: advance %d, token of %d bytes, error %v, panic %v; it is one cluster", it.unit, end, adv, len(tok), err, pan), small, nil)
		}
		done.Add(1)
		for l := longest.Load(); l < int64(end) && !longest.CompareAndSwap(l, int64(end)); l = longest.Load() {
		}
	})
	c.Add("clusters_beyond_2^31_bytes_in_mapped_memory", done.Load())
	c.Add("longest_of_these", longest.Load())
}

// cyclesOf lists the cycles of up to three classes, growing clusters first:
// they are where limits hide.
func cyclesOf(m *Mealy) (cycles []cyc) {
	idx := map[int]int{}
	for k, u := range m.Alpha {
		idx[u] = k
	}
	try := func(q int, w []int) {
		s, brk := q, false
		for _, u := range w {
			brk = brk || m.Brk[s][idx[u]]
			s = m.Next[s][idx[u]]
		}
		if s == q {
			cycles = append(cycles, cyc{q, w, !brk})
		}
	}
	for q := range m.Access {
		for _, a := range m.Alpha {
			try(q, []int{a})
			for _, b := range m.Alpha {
				try(q, []int{a, b})
				for _, d := range m.Alpha {
					try(q, []int{a, b, d})
				}
			}
		}
	}
	sort.SliceStable(cycles, func(i, j int) bool {
		if cycles[i].grow != cycles[j].grow {
			return cycles[i].grow
		}
		return len(cycles[i].word) < len(cycles[j].word)
	})
	return
}

// pumped calls f for texts in which a cycle is repeated a moderate number of
// times, with something of every kind after it.
func (c *Ctx) pumped(ss []*scratch, per int, f func(w int, s *scratch, d []byte) bool) {
	o := c.O
	m := o.Minimise(o.Classes)
	cycles := cyclesOf(m)
	c.Parallel(len(cycles), func(w, i int) {
		s, x := ss[w], cycles[i]
		defer c.End(w)
		n := per
		if !x.grow { // there are many
			n = (per + s.rng.Intn(8)) / 8
		}
		for k := 0; k < n; k++ {
			d := s.buf[:0]
			for _, u := range m.Access[x.q] {
				d = appendRune(d, o.Rep(s.rng, u))
			}
			times := 2 + s.rng.Intn(40)
			if s.rng.Intn(8) == 0 {
				times = 1 << (5 + s.rng.Intn(4)) / len(x.word)
				times += s.rng.Intn(5) - 2
			}
			st := o.NewStyle(s.rng)
			for ; times > 0; times-- {
				for _, u := range x.word {
					d = appendRune(d, o.RepStyle(s.rng, st, u))
				}
			}
			for _, u := range m.W[s.rng.Intn(len(m.W))] {
				d = appendRune(d, o.Rep(s.rng, u))
			}
			if s.rng.Intn(4) == 0 {
				d = append(d, fragments[s.rng.Intn(len(fragments))]...)
			}
			s.buf = d
			c.Begin(w, "scan", d)
			if !f(w, s, d) {
				return
			}
		}
	})
	c.Add("pumped_cycles", int64(len(cycles)))
}

// c09: every cycle of the specification's automaton, pumped to lengths around
// the sizes at which counters, windows or buffers would give out.
func c09(c *Ctx) {
	o := c.O
	ss := c.scratches()
	m := o.Minimise(o.Classes)
	cycles := cyclesOf(m)
	grow := 0
	for _, x := range cycles {
		if x.grow {
			grow++
		}
	}
	c.Add("cycles_growing", int64(grow))
	c.Add("cycles_all", int64(len(cycles)))
	plain := false // the first character of each class only
	render := func(s *scratch, x cyc, n int, suffix []int) []byte {
		var unit []byte
		for _, u := range x.word {
			if plain {
				unit = appendRune(unit, o.First(u))
			} else {
				unit = appendRune(unit, o.Rep(s.rng, u))
			}
		}
		d := s.buf[:0]
		for _, u := range m.Access[x.q] {
			d = appendRune(d, o.Rep(s.rng, u))
		}
		if need := len(d) + n*len(unit) + 64; need > cap(d) {
			d = append(make([]byte, 0, need), d...)
		}
		for i := 0; i < n; i++ {
			d = append(d, unit...)
		}
		for _, u := range suffix {
			d = appendRune(d, o.Rep(s.rng, u))
		}
		s.buf = d
		return d
	}
	var pumped, bytesN atomic.Int64
	var longest atomic.Int64
	budget := Pick[int64](c, 12<<30, 240<<30)
	run := func(w int, x cyc, n int, suffix []int) {
		s := ss[w]
		if bytesN.Load() > budget {
			return
		}
		d := render(s, x, n, suffix)
		c.Begin(w, fmt.Sprintf("scan of %v pumped %d times", names(o, x.word), n), d)
		if !c.checkText(s, d) {
			c.mu.Lock()
			if len(c.viol) > 0 {
				v := &c.viol[len(c.viol)-1]
				if v.Extra == nil {
					v.Extra = map[string]any{}
				}
				v.Extra["prefix"], v.Extra["repeated"], v.Extra["times"], v.Extra["suffix"] = names(o, m.Access[x.q]), names(o, x.word), n, names(o, suffix)
			}
			c.mu.Unlock()
		}
		c.End(w)
		pumped.Add(1)
		bytesN.Add(int64(2 * len(d)))
		for {
			l := longest.Load()
			if int64(len(d)) <= l || longest.CompareAndSwap(l, int64(len(d))) {
				break
			}
		}
	}
	suffixes := func(s *scratch, q, k int) [][]int {
		var r [][]int
		for len(r) < k {
			r = append(r, o.RandomWalk(s.rng, 1+s.rng.Intn(3), o.Classes))
		}
		for _, x := range m.W {
			r = append(r, x)
		}
		return r
	}
	// small sizes: growing cycles with many suffixes, others with one
	small := []int{2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025}
	c.Parallel(len(cycles), func(w, i int) {
		x := cycles[i]
		ns := small
		if !x.grow && !c.Thorough() {
			ns = []int{small[ss[w].rng.Intn(len(small))], 2 + ss[w].rng.Intn(300)}
		}
		for _, n := range ns {
			if x.grow {
				for _, sfx := range suffixes(ss[w], x.q, 2) {
					run(w, x, n, sfx)
				}
			} else {
				run(w, x, n, o.RandomWalk(ss[w].rng, 1+ss[w].rng.Intn(3), o.Classes))
			}
			if c.Enough() {
				return
			}
		}
	})
	// large sizes
	large := []int{2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131073}
	sel := cycles[:grow]
	c.Parallel(len(sel), func(w, i int) {
		x := sel[i]
		if len(x.word) == 3 && !c.Thorough() && ss[w].rng.Intn(4) > 0 {
			return
		}
		for _, n := range large {
			if len(x.word) > 1 && !c.Thorough() && ss[w].rng.Intn(6) > 0 {
				continue
			}
			run(w, x, n, m.W[ss[w].rng.Intn(len(m.W))])
			if len(x.word) == 1 {
				for _, sfx := range m.W {
					run(w, x, n, sfx)
				}
			}
		}
	})
	// runs without growth (e.g. regional indicators): one large size each
	rest := cycles[grow:]
	c.Parallel(len(rest), func(w, i int) {
		x := rest[i]
		if len(x.word) > 1 && !c.Thorough() && ss[w].rng.Intn(40) > 0 {
			return
		}
		run(w, x, large[ss[w].rng.Intn(len(large))], m.W[ss[w].rng.Intn(len(m.W))])
		if len(x.word) == 1 {
			run(w, x, 65535+ss[w].rng.Intn(3), m.W[ss[w].rng.Intn(len(m.W))])
		}
	})
	// huge single clusters
	huge := Pick(c, []int{1 << 20, 1 << 24}, []int{1 << 20, 1 << 22, 1<<24 - 1, 1<<24 + 1, 1 << 25})
	var one []cyc
	for _, x := range sel {
		if len(x.word) == 1 {
			one = append(one, x)
		}
	}
	c.Parallel(len(one)*len(huge), func(w, i int) {
		run(w, one[i%len(one)], huge[i/len(one)]+ss[w].rng.Intn(3)-1, m.W[ss[w].rng.Intn(len(m.W))])
	})
	for _, x := range ss {
		x.buf = nil
	}
	c.mapped()
	if c.Thorough() {
		plain = true
		c.giants(run, one)
		plain = false
		ss[0].buf = nil
	}
	// through bufio.Scanner with a large enough buffer
	c.Parallel(len(one), func(w, i int) {
		s := ss[w]
		x := one[i]
		d := render(s, x, 40000+s.rng.Intn(40000), []int{o.ID["Other"]})
		c.Begin(w, "bufio scan", d)
		var open bool
		s.want, s.us, open = o.Cuts(s.want, s.us, d)
		if open {
			return
		}
		sc := bufio.NewScanner(bytes.NewReader(d))
		sc.Buffer(nil, 1<<26)
		sc.Split(splitFunc)
		s.got = s.got[:0]
		at := 0
		for sc.Scan() {
			at += len(sc.Bytes())
			s.got = append(s.got, at)
		}
		if sc.Err() != nil || !eq(s.got, s.want) {
			c.Violate("long", fmt.Sprintf("through bufio.Scanner: cluster ends %v, specification says %v (error %v)", clip(s.got), clip(s.want), sc.Err()), d,
				map[string]any{"repeated": names(o, x.word)})
		}
		c.End(w)
	})
	c.Add("pumped_texts", pumped.Load())
	c.Add("bytes_scanned", bytesN.Load())
	c.Add("longest_text_bytes", longest.Load())
	c.Sample(map[string]any{"prefix": names(o, m.Access[cycles[0].q]), "repeated": names(o, cycles[0].word)})
	x := cycles[grow-1]
	c.Sample(map[string]any{"prefix": names(o, m.Access[x.q]), "repeated": names(o, x.word)})
	// traces for TLC: moderately long clusters, decided on the declarative rules
	s := ss[0]
	for i := 0; i < Pick(c, 12, 60); i++ {
		x := one[s.rng.Intn(len(one))]
		d := render(s, x, 40+s.rng.Intn(60), o.RandomWalk(s.rng, 2, o.Classes))
		c.traceCall(d, true)
		c.traceCall(d, false)
	}
	c.collect(ss)
}
