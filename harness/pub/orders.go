package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
)

// The same calls made by fresh processes in different orders. Within one
// process a cache that confuses two arguments can answer consistently for ever;
// between processes that meet the arguments in different orders it cannot.

type orderPlan struct {
	c     *Ctx
	heads [][]rune // what precedes the character, at least one per kind of look-back
	tails [][]rune
	rules [][]rune // one character for every class
	perCP int
	pairs int
}

func newOrderPlan(c *Ctx) *orderPlan {
	o := c.O
	m := o.Minimise(o.Classes)
	p := &orderPlan{c: c, perCP: Pick(c, 3, 10), pairs: Pick(c, 300000, 2000000)}
	word := func(w []int) (r []rune) {
		for _, u := range w {
			r = append(r, o.First(u))
		}
		return
	}
	for _, a := range m.Access {
		p.heads = append(p.heads, word(a))
	}
	for _, w := range m.W {
		p.tails = append(p.tails, word(w))
	}
	p.tails = append(p.tails, nil)
	for _, u := range o.Classes {
		r := []rune{o.First(u)}
		for n := 1; n <= 4; n++ {
			if ms := o.members[u][n]; len(ms) > 0 {
				r = append(r, ms[len(ms)/2])
			}
		}
		p.rules = append(p.rules, r)
	}
	return p
}

const codePoints = 0x110000

func (p *orderPlan) size() int { return p.perCP*codePoints + 2*p.pairs }

// call gives the i-th call: what is written into the buffer, and the flag.
func (p *orderPlan) call(buf []byte, i int) ([]byte, bool) {
	buf = buf[:0]
	add := func(rs []rune) {
		for _, r := range rs {
			buf = appendRune(buf, r)
		}
	}
	if i < p.perCP*codePoints {
		// every code point, in contexts that tell its class
		cp := i % codePoints
		h := uint64(i)*0x9E3779B97F4A7C15 + uint64(p.c.Seed)
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
		if i/codePoints > 0 {
			add(p.heads[h%uint64(len(p.heads))])
		}
		buf = appendRune(buf, rune(cp))
		add(p.tails[(h>>16)%uint64(len(p.tails))])
		return buf, h>>40&3 != 0
	}
	// Neighbouring pairs (A, B): B is A with one character, or only what lies
	// behind its beginning, changed; or A continued after an incomplete end.
	i -= p.perCP * codePoints
	rng := rand.New(&splitmix{uint64(i/2)*31 + uint64(p.c.Seed)})
	n := 1 + rng.Intn(12)
	if rng.Intn(20) == 0 {
		n = 1 + rng.Intn(2000)
	}
	grow := rng.Intn(2) == 0
	kind := rng.Intn(3)
	at := rng.Intn(n)
	if rng.Intn(3) == 0 {
		at = n - 1
	}
	bits := rng.Intn(21)
	draw := func() rune {
		rs := p.rules[rng.Intn(len(p.rules))]
		return rs[rng.Intn(len(rs))]
	}
	second := i%2 == 1
	fill := draw()
	for k := 0; k < n; k++ {
		r := draw()
		if grow && k > 0 && k < n-1 {
			r = [...]rune{0x300, 0x200d, 0x301, fill}[rng.Intn(4)]
		}
		if k == at {
			other := r
			switch kind {
			case 0: // another class
				other = draw()
			case 1: // the same but for one bit
				other = r ^ 1<<bits
				if other > 0x10ffff || other >= 0xd800 && other < 0xe000 {
					other = r ^ 1<<(bits%8)
				}
			}
			if second {
				r = other
			}
		}
		buf = appendRune(buf, r)
	}
	eof := rng.Intn(2) == 0
	if kind == 2 { // A is an incomplete beginning, B begins differently and is longer
		if !second {
			return buf[:1+rng.Intn(len(buf))], false
		}
		if rng.Intn(2) == 0 {
			x := appendRune(nil, draw())
			copy(buf, x)
		}
	}
	return buf, eof
}

type splitmix struct{ s uint64 }

func (x *splitmix) Seed(int64) {}
func (x *splitmix) Int63() int64 {
	x.s += 0x9E3779B97F4A7C15
	z := x.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return int64((z ^ z>>31) >> 1)
}

// index is the place of the k-th call made under an order.
func (p *orderPlan) index(order, k int) int {
	n := p.size()
	switch order {
	case 0:
		return k
	case 1:
		return n - 1 - k
	}
	const step = 7368787 // a prime that does not divide any size used
	return int(uint64(k) * step % uint64(n))
}

// orderChild makes all calls in one order and writes their answers by index.
func orderChild(c *Ctx) {
	var order int
	fmt.Sscan(c.Extra, &order)
	p := newOrderPlan(c)
	n := p.size()
	if order == 2 && n%7368787 == 0 {
		must(fmt.Errorf("order is no permutation"))
	}
	out := make([]byte, 4*n)
	own, shared := make([]byte, 0, 1<<16), make([]byte, 1<<16)
	for k := 0; k < n; k++ {
		i := p.index(order, k)
		d, eof := p.call(own, i)
		m := copy(shared, d)
		if m < len(d) {
			must(fmt.Errorf("call %d is too long", i))
		}
		adv, tok, err, pan := split(shared[:m], eof)
		v := uint32(adv) << 4
		if tok != nil {
			v |= 1
		}
		if err != nil {
			v |= 2
		}
		if pan != nil {
			v |= 4
		}
		if tok != nil && (adv < 0 || adv > m || string(tok) != string(d[:adv])) {
			v |= 8
		}
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	must(os.WriteFile(c.Out+".bin", out, 0o644))
}

func (c *Ctx) orders() {
	p := newOrderPlan(c)
	self, err := os.Executable()
	must(err)
	type res struct {
		out []byte
		err error
		b   []byte
	}
	rs := make([]res, 3)
	done := make(chan int)
	for k := range rs {
		go func() {
			f := fmt.Sprintf("%s.order%d", c.Out, k)
			cmd := exec.Command(self, "-property", c.Prop, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-out", f, "-tables", c.tables, "-ucd", c.ucd, "-extra", fmt.Sprint(k), "order")
			rs[k].out, rs[k].err = cmd.CombinedOutput()
			if rs[k].err == nil {
				rs[k].b, rs[k].err = os.ReadFile(f + ".bin")
			}
			os.Remove(f + ".bin")
			done <- k
		}()
	}
	for range rs {
		<-done
	}
	for k := range rs {
		if rs[k].err != nil {
			os.Stderr.Write(rs[k].out)
			must(fmt.Errorf("order %d: %v", k, rs[k].err))
		}
	}
	n := p.size()
	names := []string{"ascending", "descending", "scattered"}
	for i := 0; i < n && !c.Enough(); i++ {
		a := binary.LittleEndian.Uint32(rs[0].b[4*i:])
		for k := 1; k < 3; k++ {
			if b := binary.LittleEndian.Uint32(rs[k].b[4*i:]); a != b {
				d, eof := p.call(nil, i)
				say := func(v uint32) string {
					return fmt.Sprintf("advance %d token %v error %v panic %v", int32(v)>>4, v&1 != 0, v&2 != 0, v&4 != 0)
				}
				c.Violate("history", fmt.Sprintf("in a process that makes its calls in %s order: %s; in %s order: %s (eof=%v)", names[0], say(a), names[k], say(b), eof),
					d, map[string]any{"call": i})
				break
			}
		}
	}
	c.Add("order_histories", 3)
	c.Add("calls_compared_across_orders", int64(n))
}
