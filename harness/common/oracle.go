// The conformance oracle: an interpreter of the transition tables that TLC
// writes from the specification (spec/Export.tla) and of the pinned Unicode 17
// class ranges (spec/data/ucd17.json). It contains no segmentation rules.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"unicode/utf8"
)

type feedEntry struct {
	errs, char int
	next       int
}

type Oracle struct {
	Units   []string
	ID      map[string]int
	Err     int
	Classes []int // all unit ids but Err
	GCB     map[string]string
	InCB    map[string]string
	closed  []bool
	brk     [][]bool
	next    [][]int
	bclass  [256]uint8
	feed    [][]feedEntry
	have    []int
	class   []uint8 // code point -> unit id
	members [][5][]rune
	coming  map[uint32]uint32 // incomplete character -> set of classes it can become
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(3)
	}
}

func LoadOracle(tables, ucd string) *Oracle {
	var t struct {
		Units     []string
		GCB       map[string]string
		InCB      map[string]string
		Closed    map[string]bool
		Automaton []struct {
			Trans map[string]struct {
				Brk  bool
				Next int
			}
		}
		ByteClass  []string
		Transducer []struct {
			Pending []int
			Feed    map[string]struct{ Errs, Char, Next int }
		}
	}
	b, err := os.ReadFile(tables)
	must(err)
	must(json.Unmarshal(b, &t))
	o := &Oracle{Units: t.Units, ID: map[string]int{}, GCB: t.GCB, InCB: t.InCB, Err: -1}
	for i, u := range t.Units {
		o.ID[u] = i
		if u == "Err" {
			o.Err = i
		} else {
			o.Classes = append(o.Classes, i)
		}
		o.closed = append(o.closed, t.Closed[u])
	}
	for _, s := range t.Automaton {
		br, nx := make([]bool, len(t.Units)), make([]int, len(t.Units))
		for u, tr := range s.Trans {
			br[o.ID[u]], nx[o.ID[u]] = tr.Brk, tr.Next
		}
		o.brk, o.next = append(o.brk, br), append(o.next, nx)
	}
	bcs := map[string]int{}
	for _, c := range []string{"ascii", "cont", "lead2", "lead3", "lead4", "bad"} {
		bcs[c] = len(bcs)
	}
	for i, c := range t.ByteClass {
		o.bclass[i] = uint8(bcs[c])
	}
	for _, p := range t.Transducer {
		fe := make([]feedEntry, len(bcs))
		for c, f := range p.Feed {
			fe[bcs[c]] = feedEntry{f.Errs, f.Char, f.Next}
		}
		o.feed, o.have = append(o.feed, fe), append(o.have, p.Pending[1])
	}
	var u struct{ Ranges [][]any }
	b, err = os.ReadFile(ucd)
	must(err)
	must(json.Unmarshal(b, &u))
	o.class = make([]uint8, 0x110000)
	o.members = make([][5][]rune, len(o.Units))
	for _, r := range u.Ranges {
		id := o.ID[r[2].(string)]
		for c := int(r[0].(float64)); c <= int(r[1].(float64)); c++ {
			o.class[c] = uint8(id)
			if n := utf8.RuneLen(rune(c)); n > 0 {
				o.members[id][n] = append(o.members[id][n], rune(c))
			}
		}
	}
	o.coming = map[uint32]uint32{}
	for n := 2; n <= 4; n++ {
		bits := [...]int{0, 0, 11, 16, 21}[n]
		for cp := 0; cp < 1<<bits; cp++ {
			u := uint32(o.ID["Other"])
			if cp < len(o.class) {
				u = uint32(o.class[cp])
			}
			for k := 1; k < n; k++ { // after the first k bytes
				o.coming[prefixKey(n, k, cp>>(6*(n-k)))] |= 1 << u
			}
		}
	}
	if len(o.class) != 0x110000 || o.Err < 0 || len(o.brk) == 0 || len(o.feed) == 0 {
		must(fmt.Errorf("bad tables"))
	}
	return o
}

func prefixKey(n, k, bits int) uint32 { return uint32(n)<<28 | uint32(k)<<24 | uint32(bits) }

// over says that a text in state st, followed by the incomplete character p,
// ends with what st has seen whatever p becomes.
func (o *Oracle) over(st int, p []byte) bool {
	n := 2
	switch {
	case p[0] >= 0xf0:
		n = 4
	case p[0] >= 0xe0:
		n = 3
	}
	bits := int(p[0] & (1<<(7-n) - 1))
	for _, b := range p[1:] {
		bits = bits<<6 | int(b&0x3f)
	}
	set := o.coming[prefixKey(n, len(p), bits)] | 1<<o.Err
	for u := range o.Units {
		if set>>u&1 != 0 && !o.brk[st][u] {
			return false
		}
	}
	return true
}

// Rep picks a code point of a class, every UTF-8 length equally likely.
func (o *Oracle) Rep(rng *rand.Rand, class int) rune {
	for {
		m := o.members[class][1+rng.Intn(4)]
		if len(m) > 0 {
			return m[rng.Intn(len(m))]
		}
	}
}

// Style says how the characters of one text are chosen from their classes.
type Style struct {
	ascii bool   // unclassified characters are ASCII
	fixed []rune // one character per class throughout the text
}

func (o *Oracle) NewStyle(rng *rand.Rand) (st Style) {
	k := rng.Intn(4)
	st.ascii = k == 1 || k == 2
	if k >= 2 {
		st.fixed = make([]rune, len(o.Units))
	}
	return
}

func (o *Oracle) RepStyle(rng *rand.Rand, st Style, class int) rune {
	if st.fixed != nil && st.fixed[class] != 0 {
		return st.fixed[class]
	}
	var r rune
	if m := o.members[class][1]; st.ascii && len(m) > 1 {
		r = m[rng.Intn(len(m))]
	} else {
		r = o.Rep(rng, class)
	}
	if st.fixed != nil {
		st.fixed[class] = r
	}
	return r
}

// First is the canonical representative of a class.
func (o *Oracle) First(class int) rune {
	for n := 1; n <= 4; n++ {
		if m := o.members[class][n]; len(m) > 0 {
			if class == o.ID["Other"] {
				return 'a'
			}
			return m[0]
		}
	}
	panic("empty class")
}

type Unit struct {
	U       int
	At, Len int
	Open    bool // handling left open by the documentation
}

func codePoint(d []byte) (cp int, open bool) {
	switch len(d) {
	case 1:
		return int(d[0]), false
	case 2:
		cp = int(d[0]&0x1f)<<6 | int(d[1]&0x3f)
		return cp, cp < 0x80
	case 3:
		cp = int(d[0]&0x0f)<<12 | int(d[1]&0x3f)<<6 | int(d[2]&0x3f)
		return cp, cp < 0x800 || (cp >= 0xd800 && cp < 0xe000)
	default:
		cp = int(d[0]&0x07)<<18 | int(d[1]&0x3f)<<12 | int(d[2]&0x3f)<<6 | int(d[3]&0x3f)
		return cp, cp < 0x10000 || cp > 0x10ffff
	}
}

// UnitsOf runs the transducer over d. pend is the number of bytes of an
// incomplete tail (0 when eof), openTail whether that tail can only become a
// sequence whose handling is left open.
func (o *Oracle) UnitsOf(dst []Unit, d []byte, eof bool) (us []Unit, pend int, openTail bool) {
	us = dst[:0]
	p, at := 0, 0
	for _, b := range d {
		f := o.feed[p][o.bclass[b]]
		for i := 0; i < f.errs; i++ {
			us = append(us, Unit{o.Err, at, 1, false})
			at++
		}
		if f.char > 0 {
			cp, open := codePoint(d[at : at+f.char])
			c := 0
			if open {
				c = o.ID["Other"]
			} else {
				c = int(o.class[cp])
			}
			us = append(us, Unit{c, at, f.char, open})
			at += f.char
		}
		p = f.next
	}
	pend = o.have[p]
	if eof {
		for i := 0; i < pend; i++ {
			us = append(us, Unit{o.Err, at, 1, false})
			at++
		}
		return us, 0, false
	}
	if pend > 0 {
		l := d[at]
		openTail = l == 0xc0 || l == 0xc1 || l >= 0xf5
		if pend > 1 {
			s := d[at+1]
			openTail = openTail || l == 0xe0 && s < 0xa0 || l == 0xed && s >= 0xa0 || l == 0xf0 && s < 0x90 || l == 0xf4 && s >= 0x90
		}
	}
	return us, pend, openTail
}

// Cuts returns the end offsets of all clusters of the whole input d, and
// whether it contains a sequence whose handling is left open.
func (o *Oracle) Cuts(cuts []int, us []Unit, d []byte) ([]int, []Unit, bool) {
	us, _, _ = o.UnitsOf(us, d, true)
	cuts = cuts[:0]
	st, open := 0, false
	for i, u := range us {
		if i > 0 && o.brk[st][u.U] {
			cuts = append(cuts, u.At)
		}
		st = o.next[st][u.U]
		open = open || u.Open
	}
	if len(d) > 0 {
		cuts = append(cuts, len(d))
	}
	return cuts, us, open
}

// CutsLean is Cuts without a record of the units, for very long inputs.
func (o *Oracle) CutsLean(cuts []int, d []byte) (_ []int, open bool) {
	cuts = cuts[:0]
	p, at, st, other := 0, 0, 0, o.ID["Other"]
	unit := func(u, n int) {
		if at > 0 && o.brk[st][u] {
			cuts = append(cuts, at)
		}
		st = o.next[st][u]
		at += n
	}
	for _, b := range d {
		f := &o.feed[p][o.bclass[b]]
		for i := 0; i < f.errs; i++ {
			unit(o.Err, 1)
		}
		if f.char > 0 {
			cp, op := codePoint(d[at : at+f.char])
			c := other
			if !op {
				c = int(o.class[cp])
			}
			open = open || op
			unit(c, f.char)
		}
		p = f.next
	}
	for i := 0; i < o.have[p]; i++ {
		unit(o.Err, 1)
	}
	if len(d) > 0 {
		cuts = append(cuts, len(d))
	}
	return cuts, open
}

// Answers is the specification's Answers(d, eof): must is the required advance
// (0: none), may an additionally allowed one (0: none).
func (o *Oracle) Answers(us []Unit, d []byte, eof bool) (must, may int, open bool, _ []Unit) {
	us, pend, openTail := o.UnitsOf(us, d, eof)
	open = openTail
	for _, u := range us {
		open = open || u.Open
	}
	if len(d) == 0 {
		return 0, 0, open, us
	}
	st := 0
	for i, u := range us {
		if i > 0 && o.brk[st][u.U] {
			return u.At, 0, open, us
		}
		st = o.next[st][u.U]
	}
	if eof {
		return len(d), 0, open, us
	}
	if len(us) == 0 {
		return 0, 0, open, us
	}
	l := us[len(us)-1]
	if l.U == o.Err {
		return l.At + 1, 0, open, us
	}
	if pend == 0 && o.closed[l.U] || pend > 0 && o.over(st, d[len(d)-pend:]) {
		return 0, l.At + l.Len, open, us
	}
	return 0, 0, open, us
}

// BreakOracle gives the boundaries of a sequence of classes.
func (o *Oracle) ClassBreaks(w []int) []bool {
	r := make([]bool, len(w))
	st := 0
	for i, c := range w {
		r[i] = o.brk[st][c] // r[0] is always true: start of text
		st = o.next[st][c]
	}
	return r
}
