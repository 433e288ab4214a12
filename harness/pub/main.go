// Conformance driver for the public API of the v17 module. Built with -overlay
// as a command inside the module; nothing is added to the repository.
package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/apparentlymart/go-textseg/v17/textseg"
)

func main() {
	Main(map[string]func(*Ctx){
		"c01": c01, "c02": c02, "c03": c03, "c04": c04, "c05": c05, "c06": c06, "c07": c07,
		"c08": c08, "order": orderChild, "c09": c09, "sig": sig,
	})
}

var splitFunc = textseg.ScanGraphemeClusters

// split calls the real code; a panic comes back as pan. Whether there is memory
// behind the data must not matter: for about half of all data there is none.
func split(d []byte, eof bool) (adv int, tok []byte, err error, pan any) {
	if n := len(d); n > 0 && (n+int(d[0]^d[n/2]^d[n-1]))&1 == 0 {
		d = d[:n:n]
	}
	return splitAsIs(d, eof)
}

func splitAsIs(d []byte, eof bool) (adv int, tok []byte, err error, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	adv, tok, err = splitFunc(d, eof)
	return
}

// sane checks what every call must satisfy.
func sane(d []byte, eof bool, adv int, tok []byte, err error, pan any) string {
	switch {
	case pan != nil:
		return fmt.Sprintf("panic: %v", pan)
	case err != nil:
		return fmt.Sprintf("error: %v", err)
	case adv < 0 || adv > len(d):
		return fmt.Sprintf("advance %d outside 0..%d", adv, len(d))
	case adv == 0 && tok != nil:
		return fmt.Sprintf("token %q without advance", tok)
	case adv > 0 && !bytes.Equal(tok, d[:adv]):
		return fmt.Sprintf("advance %d over %q but token %q", adv, d[:adv], tok)
	case eof && len(d) > 0 && adv == 0:
		return "no token at end of input"
	}
	return ""
}

// scanAll presents the whole input, at end of input (mode 0) or first as
// "more may follow" (mode 1, what a reader delivering everything at once
// causes), and returns the cuts.
func scanAll(cuts []int, d []byte, mode int) ([]int, string) {
	cuts = cuts[:0]
	at, eof := 0, mode == 0
	for at < len(d) {
		adv, tok, err, pan := split(d[at:], eof)
		if s := sane(d[at:], eof, adv, tok, err, pan); s != "" {
			return cuts, fmt.Sprintf("at offset %d (eof=%v): %s", at, eof, s)
		}
		if adv == 0 {
			eof = true
			continue
		}
		at += adv
		cuts = append(cuts, at)
	}
	adv, tok, err, pan := split(d[at:], true)
	if s := sane(d[at:], true, adv, tok, err, pan); s != "" || adv != 0 || tok != nil {
		return cuts, fmt.Sprintf("on empty data at end of input: advance %d token %q %s", adv, tok, s)
	}
	return cuts, ""
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// worker-local scratch
type scratch struct {
	us         []Unit
	want, got  []int
	buf        []byte
	word       []int
	rng        *rand.Rand
	texts      int64
	calls      int64
	boundaries int64
}

// checkText compares the real tokens of d with the specification's, in both
// presentation modes; it reports and returns false on a difference.
func (c *Ctx) checkText(s *scratch, d []byte) bool {
	var open bool
	if len(d) > 1<<16 {
		s.us = s.us[:0]
		s.want, open = c.O.CutsLean(s.want, d)
	} else {
		s.want, s.us, open = c.O.Cuts(s.want, s.us, d)
	}
	if open {
		return true
	}
	for mode := 0; mode < 2; mode++ {
		var bad string
		s.got, bad = scanAll(s.got, d, mode)
		s.texts++
		s.calls += int64(len(s.got)) + 1
		s.boundaries += int64(len(s.want))
		if bad != "" {
			c.Violate("call", bad, d, nil)
			return false
		}
		if !eq(s.got, s.want) {
			c.Violate("clusters", fmt.Sprintf("cluster ends %v, specification says %v (presentation mode %d)", clip(s.got), clip(s.want), mode), d,
				map[string]any{"text": fmt.Sprintf("%+q", clipB(d)), "units": c.unitNames(s.us)})
			return false
		}
	}
	return true
}

func (c *Ctx) unitNames(us []Unit) []string {
	var r []string
	for i, u := range us {
		if i >= 60 {
			return append(r, "...")
		}
		r = append(r, c.O.Units[u.U])
	}
	return r
}

func clip(a []int) []int {
	if len(a) > 60 {
		return a[:60]
	}
	return a
}
func clipB(a []byte) []byte {
	if len(a) > 200 {
		return a[:200]
	}
	return a
}

func (c *Ctx) scratches() []*scratch {
	r := make([]*scratch, workers())
	for i := range r {
		r[i] = &scratch{rng: c.Rng(100 + i)}
	}
	return r
}

func (c *Ctx) collect(ss []*scratch) {
	for _, s := range ss {
		c.Add("texts", s.texts)
		c.Add("split_calls", s.calls)
		c.Add("boundaries_compared", s.boundaries)
	}
}

// text renders a word of units with random representatives. Err units become
// a random malformed byte that cannot be absorbed by its neighbours.
func (c *Ctx) text(s *scratch, w []int) []byte {
	s.buf = s.buf[:0]
	st := c.O.NewStyle(s.rng)
	for _, u := range w {
		if u == c.O.Err {
			s.buf = append(s.buf, byte(0xf8+s.rng.Intn(8)))
			continue
		}
		s.buf = appendRune(s.buf, c.O.RepStyle(s.rng, st, u))
	}
	return s.buf
}

// traceCall records one call of the real split function for TLC.
func (c *Ctx) traceCall(d []byte, eof bool) {
	adv, tok, err, pan := split(d, eof)
	c.Trace(map[string]any{"ev": "call", "data": ints(d), "eof": eof, "adv": adv,
		"hasTok": tok != nil, "tok": ints(tok), "err": err != nil || pan != nil})
}
