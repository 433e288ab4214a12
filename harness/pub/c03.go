package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"sync/atomic"
)

// pieces: one representative of every class and every kind of malformed
// fragment. Fragments may combine with what follows; the specification's
// transducer says what the result is.
type piece struct {
	b    []byte
	name string
}

var fragments = []string{"\xff", "\x80", "\xc3", "\xe2", "\xe2\x82", "\xf0", "\xf0\x9f", "\xf0\x9f\x98",
	"\xf8", "\xbf", "\xed\x9f", "\xef\xbf", "\xf4\x8f\xbf", "\xe0", "\xcc", "\xe0\xa4"}

func pieces(o *Oracle) []piece {
	var r []piece
	for _, c := range o.Classes {
		r = append(r, piece{[]byte(string(o.First(c))), o.Units[c]})
	}
	for _, f := range fragments {
		r = append(r, piece{[]byte(f), fmt.Sprintf("% X", f)})
	}
	return r
}

// randomInput mixes characters of all classes, malformed fragments and raw
// bytes; n is the number of pieces.
func (c *Ctx) randomInput(s *scratch, n int) []byte {
	s.buf = s.buf[:0]
	s.word = append(s.word[:0], c.O.RandomWalk(s.rng, n, c.O.Classes)...)
	malformed := s.rng.Intn(3) > 0
	raw := s.rng.Intn(4) == 0
	st := c.O.NewStyle(s.rng)
	for _, u := range s.word {
		if malformed && s.rng.Intn(5) == 0 {
			s.buf = append(s.buf, fragments[s.rng.Intn(len(fragments))]...)
		}
		if raw && s.rng.Intn(6) == 0 {
			s.buf = append(s.buf, byte(s.rng.Intn(256)))
		}
		s.buf = appendRune(s.buf, c.O.RepStyle(s.rng, st, u))
	}
	if malformed && s.rng.Intn(3) == 0 {
		s.buf = append(s.buf, fragments[s.rng.Intn(len(fragments))]...)
	}
	return s.buf
}

// exhaustPieces calls f for every sequence of 1..maxLen elements of ps.
func (c *Ctx) exhaustPieces(ss []*scratch, ps []piece, maxLen int, f func(w int, s *scratch, d []byte) bool) int64 {
	var n atomic.Int64
	for l := 1; l <= maxLen; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(ps)
		}
		const chunk = 2048
		c.Parallel((total+chunk-1)/chunk, func(w, i int) {
			s := ss[w]
			for x := i * chunk; x < min(total, (i+1)*chunk); x++ {
				s.buf = s.buf[:0]
				for y, j := x, 0; j < l; j++ {
					s.buf = append(s.buf, ps[y%len(ps)].b...)
					y /= len(ps)
				}
				c.Begin(w, "scan", s.buf)
				if !f(w, s, s.buf) {
					break
				}
				n.Add(1)
			}
			c.End(w)
		})
	}
	return n.Load()
}

// c03: any bytes: terminates, no error, lossless.
func c03(c *Ctx) {
	ss := c.scratches()
	check := func(s *scratch, d []byte) bool {
		for mode := 0; mode < 2; mode++ {
			var bad string
			s.got, bad = scanAll(s.got, d, mode)
			s.texts++
			s.calls += int64(len(s.got)) + 1
			if bad != "" {
				c.Violate("scan", bad, d, map[string]any{"mode": mode})
				return false
			}
		}
		return true
	}
	// 1. Every byte string of up to 3 bytes.
	for l := 0; l <= 3; l++ {
		total := 1 << (8 * l)
		chunk := 4096
		c.Parallel((total+chunk-1)/chunk, func(w, i int) {
			s := ss[w]
			for x := i * chunk; x < min(total, (i+1)*chunk); x++ {
				s.buf = s.buf[:0]
				for j := 0; j < l; j++ {
					s.buf = append(s.buf, byte(x>>(8*j)))
				}
				if x%64 == 0 {
					c.Begin(w, "scan", s.buf)
				}
				if !check(s, s.buf) {
					break
				}
			}
			c.End(w)
		})
	}
	c.Add("exhaustive_byte_length", 3)
	// 2. Every byte string of 4 (5) bytes over the bytes where the UTF-8 layer
	// or the tables' structure change behaviour.
	alpha := []byte{0x00, 0x0a, 0x0d, 'a', 0x7f, 0x80, 0x8d, 0x94, 0x9f, 0xa0, 0xa5, 0xbf, 0xc0, 0xc2, 0xcc, 0xdf,
		0xe0, 0xe1, 0xe2, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff}
	L := Pick(c, 5, 5)
	total := 1
	for i := 0; i < L; i++ {
		total *= len(alpha)
	}
	const chunk = 4096
	c.Parallel((total+chunk-1)/chunk, func(w, i int) {
		s := ss[w]
		for x := i * chunk; x < min(total, (i+1)*chunk); x++ {
			s.buf = s.buf[:0]
			for y, j := x, 0; j < L; j++ {
				s.buf = append(s.buf, alpha[y%len(alpha)])
				y /= len(alpha)
			}
			if x%64 == 0 {
				c.Begin(w, "scan", s.buf)
			}
			if !check(s, s.buf) {
				break
			}
		}
		c.End(w)
	})
	c.Add("exhaustive_special_byte_length", int64(L))
	// 3. Every sequence of up to 3 (4) pieces: characters of every class and
	// malformed fragments.
	c.Add("exhaustive_piece_texts", c.exhaustPieces(ss, pieces(c.O), Pick(c, 4, 5), func(w int, s *scratch, d []byte) bool { return check(s, d) }))
	// 4. Long mixtures, also through bufio.Scanner.
	N := Pick(c, 200000, 4000000)
	c.Parallel(N/50, func(w, i int) {
		s := ss[w]
		for j := 0; j < 50; j++ {
			var d []byte
			if j%10 == 0 {
				d = s.buf[:0]
				for k := 1 + s.rng.Intn(300); k > 0; k-- {
					d = append(d, byte(s.rng.Intn(256)))
				}
				s.buf = d
			} else {
				d = c.randomInput(s, 1+s.rng.Intn(150))
			}
			c.Begin(w, "scan", d)
			if !check(s, d) {
				break
			}
			sc := bufio.NewScanner(bytes.NewReader(d))
			sc.Buffer(nil, 1<<24)
			if !c.lossless(d, sc) {
				break
			}
		}
		c.End(w)
	})
	c.Add("random_texts", int64(N))
	// 5. Large inputs through bufio.Scanner: the buffer is moved and grown.
	c.Parallel(Pick(c, 200, 4000), func(w, i int) {
		s := ss[w]
		var d []byte
		for len(d) < 20000+s.rng.Intn(60000) {
			if s.rng.Intn(3) == 0 {
				d = append(d, bytes.Repeat([]byte(string(c.O.Rep(s.rng, c.O.ID["Extend"]))), s.rng.Intn(4000))...)
			}
			d = append(d, c.randomInput(s, 40)...)
		}
		c.Begin(w, "bufio scan", d)
		sc := bufio.NewScanner(bytes.NewReader(d))
		sc.Buffer(nil, 1<<24)
		c.lossless(d, sc)
		c.End(w)
	})
	// 6. Single clusters of every length up to a quarter of a million bytes.
	c.longClusters(ss, Pick(c, 1<<18, 1<<22)+100, 1, func(w int, s *scratch, d []byte, end int) {
		if check(s, d) {
			sc := bufio.NewScanner(bytes.NewReader(d))
			sc.Buffer(nil, 1<<24)
			c.lossless(d, sc)
		}
	})
	c.pumped(ss, Pick(c, 64, 1000), func(w int, s *scratch, d []byte) bool { return check(s, d) })
	c.everyCodePoint(ss, Pick(c, 4, 40), true, func(w int, s *scratch, d []byte) bool { return check(s, d) })
	c.families(ss, 12, Pick(c, 4, 1), func(w int, s *scratch, d []byte) bool { return check(s, d) })
	c.foreign(ss, Pick(c, 4, 40), func(w int, s *scratch, d []byte) bool { return check(s, d) })
	// 7. Long inputs, presented at once: data of every length.
	c.sweeps(ss, Pick(c, 70000, 280000), func(w int, s *scratch, d []byte) { check(s, d) })
	// 8. Recorded sessions for TLC.
	s := ss[0]
	for i := 0; i < Pick(c, 60, 400); i++ {
		d := append([]byte{}, c.randomInput(s, 1+s.rng.Intn(8))...)
		c.recordSession(s, d)
	}
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 12))})
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", c.randomInput(s, 12))})
	c.collect(ss)
}

func (c *Ctx) lossless(d []byte, sc *bufio.Scanner) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("scan", fmt.Sprintf("panic through bufio.Scanner: %v", r), d, nil)
			ok = false
		}
	}()
	sc.Split(splitFunc)
	at, n := 0, 0
	for sc.Scan() {
		t := sc.Bytes()
		if len(t) == 0 || at+len(t) > len(d) || !bytes.Equal(t, d[at:at+len(t)]) {
			c.Violate("lossless", fmt.Sprintf("through bufio.Scanner: token %d is %q at offset %d", n, clipB(t), at), d, nil)
			return false
		}
		at += len(t)
		n++
	}
	if sc.Err() != nil || at != len(d) {
		c.Violate("lossless", fmt.Sprintf("through bufio.Scanner: ended after %d of %d bytes, error %v", at, len(d), sc.Err()), d, nil)
		return false
	}
	return true
}

// step of a scripted reader: deliver n bytes, optionally with end of input.
type step struct {
	n   int
	eof bool
}

type scriptedReader struct {
	d     []byte
	steps []step
	rec   func(ev map[string]any)
}

func (r *scriptedReader) Read(p []byte) (int, error) {
	if len(r.steps) == 0 {
		if r.rec != nil {
			r.rec(map[string]any{"ev": "read", "n": 0, "eof": true})
		}
		return 0, io.EOF
	}
	st := &r.steps[0]
	n := min(st.n, len(p), len(r.d))
	copy(p, r.d[:n])
	r.d = r.d[n:]
	st.n -= n
	eof := false
	if st.n <= 0 {
		eof = st.eof
		r.steps = r.steps[1:]
	}
	if r.rec != nil {
		r.rec(map[string]any{"ev": "read", "n": n, "eof": eof})
	}
	if eof {
		r.steps = nil
		return n, io.EOF
	}
	return n, nil
}

// session scans d through bufio.Scanner and a scripted reader; returns the cuts.
func session(cuts []int, d []byte, steps []step, initial int, rec func(ev map[string]any)) (_ []int, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	cuts = cuts[:0]
	sc := bufio.NewScanner(&scriptedReader{d, steps, rec})
	sc.Buffer(make([]byte, 0, initial), 1<<26)
	if rec == nil {
		sc.Split(splitFunc)
	} else {
		sc.Split(func(data []byte, eof bool) (int, []byte, error) {
			adv, tok, err := splitFunc(data, eof)
			rec(map[string]any{"ev": "call", "data": ints(data), "eof": eof, "adv": adv,
				"hasTok": tok != nil, "tok": ints(tok), "err": err != nil})
			return adv, tok, err
		})
	}
	at := 0
	for sc.Scan() {
		t := sc.Bytes()
		if len(t) == 0 || at+len(t) > len(d) || !bytes.Equal(t, d[at:at+len(t)]) {
			return cuts, fmt.Sprintf("token %q at offset %d", clipB(t), at)
		}
		at += len(t)
		cuts = append(cuts, at)
	}
	if sc.Err() != nil {
		return cuts, fmt.Sprintf("error %v after %d bytes", sc.Err(), at)
	}
	return cuts, ""
}

func (s *scratch) randomSteps(n int) []step {
	var st []step
	for n > 0 {
		if s.rng.Intn(5) == 0 {
			st = append(st, step{0, false})
		}
		k := 1 + s.rng.Intn(4)
		if s.rng.Intn(4) == 0 {
			k = 1 + s.rng.Intn(n)
		}
		k = min(k, n)
		st = append(st, step{k, false})
		n -= k
	}
	if len(st) > 0 && s.rng.Intn(2) == 0 {
		st[len(st)-1].eof = true
	} else if s.rng.Intn(4) == 0 {
		st = append(st, step{0, false})
	}
	return st
}

func (c *Ctx) recordSession(s *scratch, d []byte) {
	c.Trace(map[string]any{"ev": "open", "input": ints(d)})
	_, bad := session(nil, d, s.randomSteps(len(d)), 1+s.rng.Intn(8), func(ev map[string]any) { c.Trace(ev) })
	if bad != "" {
		c.Violate("session", bad, d, nil)
	}
	c.Trace(map[string]any{"ev": "close"})
	c.Add("recorded_sessions", 1)
}
