// Conformance driver for the autoversion package.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"
)

func main() { Main(map[string]func(*Ctx){"c13": c13, "c14": c14}) }

// impl is one selection of the package's files; the list is generated.
type impl struct {
	Name       string
	Releases   []int
	Version    int
	Scan       bufio.SplitFunc
	AllTokens  func([]byte, bufio.SplitFunc) ([][]byte, error)
	TokenCount func([]byte, bufio.SplitFunc) (int, error)
	ScanUTF8   bufio.SplitFunc
}

var modules = map[int]bufio.SplitFunc{15: v15.ScanGraphemeClusters, 17: v17.ScanGraphemeClusters}

type answer struct {
	Adv    int    `json:"adv"`
	HasTok bool   `json:"hasTok"`
	Tok    []int  `json:"tok"`
	Err    string `json:"err"`
}

func call(f bufio.SplitFunc, d []byte, eof bool) (a answer, tok []byte) {
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprintf("panic: %v", r)
		}
	}()
	adv, tok, err := f(d, eof)
	a = answer{Adv: adv, HasTok: tok != nil}
	if err != nil {
		a.Err = err.Error()
	}
	return a, tok
}

// c13: each implementation answers as the module of the release's Unicode
// version does.
func c13(c *Ctx) {
	var cfg struct {
		UnicodeOf []int // by release - 1
		Real      bool  // the implementation is the one this toolchain selects
		Release   int
	}
	must(json.Unmarshal([]byte(c.Extra), &cfg))
	if cfg.Real {
		major, err := strconv.Atoi(strings.SplitN(unicode.Version, ".", 2)[0])
		must(err)
		impls[0].Releases = []int{cfg.Release}
		c.Trace(map[string]any{"ev": "toolchain", "release": cfg.Release, "unicode": major, "built": true, "version": impls[0].Version})
		c.Add("real_toolchains", 1)
	}
	for k, im := range impls {
		for _, r := range im.Releases {
			if want := cfg.UnicodeOf[r-1]; want != im.Version {
				c.Violate("version", fmt.Sprintf("with Go 1.%d, whose Unicode version is %d, version %d is advertised (%s)", r, want, im.Version, im.Name), nil, nil)
				return
			}
		}
		if len(im.Releases) == 0 {
			continue
		}
		u := cfg.UnicodeOf[im.Releases[0]-1]
		ref := modules[u]
		if ref == nil {
			must(fmt.Errorf("no module for Unicode %d", u))
		}
		differ := func(d []byte, eof bool) bool {
			a, at := call(im.Scan, d, eof)
			b, bt := call(ref, d, eof)
			if a.Adv != b.Adv || a.HasTok != b.HasTok || a.Err != b.Err || !bytes.Equal(at, bt) {
				c.Violate("differs", fmt.Sprintf("with Go 1.%d (%s): advance %d token %q error %q; module v%d: advance %d token %q error %q (eof=%v)",
					im.Releases[0], im.Name, a.Adv, at, a.Err, u, b.Adv, bt, b.Err, eof), d, nil)
				return true
			}
			return false
		}
		// every scalar value, between probes
		probes := [][2]string{{"", ""}, {"", "a"}, {"a", ""}, {"\u1100", "\u1161"}, {"\U0001f469\u200d", ""}, {"\U0001f1e6", "\U0001f1e7"}, {"\u0915\u094d", "\u0915"}, {"\u0600", "\u0301"}}
		c.Parallel(0x110000/256, func(w, i int) {
			var buf []byte
			for r := rune(i * 256); r < rune(i*256+256); r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				for _, p := range probes {
					buf = append(append(buf[:0], p[0]...), string(r)...)
					buf = append(buf, p[1]...)
					if differ(buf, false) || differ(buf, true) {
						return
					}
				}
			}
		})
		c.Add("scalar_values", 0x110000-2048)
		// texts of all combinations of classes, whole and cut anywhere
		n := Pick(c, 60000, 1500000)
		c.Parallel(n/100, func(w, i int) {
			rng := rand.New(rand.NewSource(c.Seed*9001 + int64(i) + int64(k)*1e6))
			for j := 0; j < 100; j++ {
				d := c.input(rng, rng.Intn(1+rng.Intn(12)))
				for at := 0; ; {
					eof := rng.Intn(2) == 0
					if differ(d[at:], eof) {
						return
					}
					a, _ := call(ref, d[at:], true)
					if a.Adv <= 0 || at+a.Adv >= len(d) {
						break
					}
					at += a.Adv
				}
				differ(d[:rng.Intn(len(d)+1)], rng.Intn(2) == 0)
			}
		})
		all := func(w int, rng *rand.Rand, d []byte) bool {
			for at := 0; at < len(d); {
				if differ(d[at:], rng.Intn(4) > 0) {
					return false
				}
				a, _ := call(ref, d[at:], true)
				if a.Adv <= 0 {
					return true
				}
				at += a.Adv
			}
			return true
		}
		c.Families(12, Pick(c, 8, 1), all)
		c.Foreign(Pick(c, 4, 40), all)
		// every short byte string
		c.Parallel(256*256, func(w, i int) {
			rng := rand.New(rand.NewSource(c.Seed*31 + int64(i)))
			for b := 0; b < 256; b++ {
				if b%4 == int(c.Seed+int64(i))&3 || c.Thorough() {
					d := []byte{byte(i >> 8), byte(i), byte(b)}
					if !all(w, rng, d[:1+b%3]) || !all(w, rng, d) {
						return
					}
				}
			}
		})
		// data of every length up to a size, with tails of all kinds
		sizes := Sizes(Pick(c, 70000, 140000))
		longest := sizes[len(sizes)-1]
		m := Pick(c, 160, 1600)
		c.Parallel(m+3*len(sizes), func(w, i int) {
			rng := rand.New(rand.NewSource(c.Seed*5003 + int64(i) + int64(k)*1e6))
			size, style := longest, 0
			if i >= m {
				size, style = sizes[(i-m)/3], rng.Intn(FillerStyles)
			}
			tail := c.input(rng, rng.Intn(5))
			if i >= m && (i-m)%3 == 0 {
				style, tail = 5, nil // one cluster
			}
			d := c.O.Filler(rng, nil, max(0, size-len(tail)), style)
			d = append(d, tail...)
			c.Begin(w, "scan", d)
			defer c.End(w)
			for at := 0; at < len(d); {
				if differ(d[at:], i%2 == 0) || i >= m && differ(d[at:len(d):len(d)], i%2 == 1) {
					return
				}
				a, _ := call(ref, d[at:], true)
				if a.Adv <= 0 {
					return
				}
				at += a.Adv
			}
		})
		c.Add("texts_presented_at_all_lengths", int64(m+3*len(sizes)))
		differ(nil, false)
		differ(nil, true)
		differ([]byte{}, true)
		for _, unit := range []string{"\u0301", "\U0001f1e6", "\u200d\U0001f469", "\u094d\u0915", "\u1161", "\xff", "\xe2", "\r"} {
			for _, m := range []int{100, 5000, 70000} {
				d := []byte("\u0915" + strings.Repeat(unit, m))
				differ(d, false)
				differ(d, true)
			}
		}
		c.Add("texts", int64(n))
		// recorded calls
		rng := c.Rng(5 + k)
		for j := 0; j < Pick(c, 150, 1500) && !c.Enough(); j++ {
			d := c.input(rng, rng.Intn(5))
			eof := rng.Intn(2) == 0
			a, at := call(im.Scan, d, eof)
			b, bt := call(ref, d, eof)
			a.Tok, b.Tok = ints(at), ints(bt)
			for _, r := range im.Releases {
				c.Trace(map[string]any{"ev": "call", "release": r, "of": u, "data": ints(d), "eof": eof, "got": a, "want": b})
			}
		}
		c.Sample(map[string]any{"implementation": im.Name, "releases": im.Releases, "advertises": im.Version})
	}
}

// input makes a text of n characters of random classes, or broken bytes.
func (c *Ctx) input(rng *rand.Rand, n int) (d []byte) {
	for k := 0; k < n; k++ {
		u := rng.Intn(len(c.O.Units))
		switch {
		case u == c.O.Err || rng.Intn(25) == 0:
			d = append(d, byte(rng.Intn(256)))
		case rng.Intn(12) == 0:
			d = append(d, string(rune(rng.Intn(0x110000)))...)
		default:
			d = append(d, string(c.O.Rep(rng, u))...)
		}
	}
	if len(d) > 0 && rng.Intn(6) == 0 {
		d = d[:len(d)-1]
	}
	return
}

// ---------------------------------------------------------------- C14

var errSplit = errors.New("split function failed")

// splitter makes a deterministic split function.
type splitter struct {
	name string
	make func() bufio.SplitFunc // answers do not depend on how much is presented at a time
}

func fixed(n int) func() bufio.SplitFunc {
	return func() bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) >= n {
				return n, d[:n], nil
			}
			if eof && len(d) > 0 {
				return len(d), d, nil
			}
			return 0, nil, nil
		}
	}
}

func splitters(rng *rand.Rand) []splitter {
	plain := func(f bufio.SplitFunc) func() bufio.SplitFunc { return func() bufio.SplitFunc { return f } }
	limit := 1 + rng.Intn(40)
	width := 1 + rng.Intn(3000)
	inner := fixed(width)
	after := func(n int, then func(d []byte) (int, []byte, error)) func() bufio.SplitFunc {
		return func() bufio.SplitFunc {
			k, f := 0, inner()
			return func(d []byte, eof bool) (int, []byte, error) {
				if k >= n {
					return then(d)
				}
				a, t, err := f(d, eof)
				if t != nil {
					k++
				}
				return a, t, err
			}
		}
	}
	return []splitter{
		{"words", plain(bufio.ScanWords)},
		{"lines", plain(bufio.ScanLines)},
		{"runes", plain(bufio.ScanRunes)},
		{"bytes", plain(bufio.ScanBytes)},
		{"grapheme clusters", plain(impls[0].Scan)},
		{"UTF-8 sequences", plain(impls[0].ScanUTF8)},
		{fmt.Sprintf("fixed %d", width), inner},
		{"skipping", func() bufio.SplitFunc { // two bytes skipped, then a token
			return func(d []byte, eof bool) (int, []byte, error) {
				if len(d) > 7 {
					return 7, d[2:6], nil
				}
				if eof {
					return len(d), nil, nil
				}
				return 0, nil, nil
			}
		}},
		{"empty tokens", func() bufio.SplitFunc {
			return func(d []byte, eof bool) (int, []byte, error) {
				if len(d) == 0 {
					return 0, nil, nil
				}
				if d[0]%3 == 0 {
					return 1, []byte{}, nil
				}
				return 1, d[:1], nil
			}
		}},
		{"own storage", func() bufio.SplitFunc { // every token in the same scratch buffer
			scratch := make([]byte, 8)
			return func(d []byte, eof bool) (int, []byte, error) {
				if len(d) == 0 {
					return 0, nil, nil
				}
				n := min(len(d), 1+int(d[0])%5)
				if n < 5 && !eof && len(d) < 5 {
					return 0, nil, nil
				}
				copy(scratch, d[:n])
				return n, scratch[:n], nil
			}
		}},
		{fmt.Sprintf("error after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return 0, nil, errSplit })},
		{fmt.Sprintf("error with token after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return 0, []byte("x"), errSplit })},
		{fmt.Sprintf("final token after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return 0, []byte("end"), bufio.ErrFinalToken })},
		{fmt.Sprintf("final without token after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return 0, nil, bufio.ErrFinalToken })},
		{fmt.Sprintf("negative advance after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return -1, []byte("x"), nil })},
		{fmt.Sprintf("advance too far after %d", limit), after(limit, func(d []byte) (int, []byte, error) { return len(d) + 1, []byte("x"), nil })},
	}
}

// recognized is what the split function recognizes in buf: everything is
// presented at once, as the end of the input.
func recognized(buf []byte, f bufio.SplitFunc) (toks []string, fails bool) {
	at := 0
	for {
		a, t, err := f(buf[at:], true)
		if err == bufio.ErrFinalToken {
			if t != nil {
				toks = append(toks, string(t))
			}
			return toks, false
		}
		if err != nil || a < 0 || a > len(buf)-at {
			return toks, true
		}
		if t != nil {
			toks = append(toks, string(t))
		} else if a == 0 || at+a == len(buf) {
			return toks, false
		}
		at += a
		if at == len(buf) && a == 0 {
			return toks, false
		}
	}
}

func (c *Ctx) buffer(rng *rand.Rand, n int) []byte {
	var b []byte
	switch rng.Intn(4) {
	case 0:
		b = make([]byte, n)
		rng.Read(b)
	case 1:
		for len(b) < n {
			b = append(b, strconv.Itoa(rng.Int())...)
			b = append(b, " \n\t  \r\n"[rng.Intn(7)])
		}
	case 2:
		for len(b) < n {
			b = append(b, c.input(rng, 50)...)
			if rng.Intn(3) == 0 {
				b = append(b, ' ')
			}
			if rng.Intn(5) == 0 {
				b = append(b, '\n')
			}
		}
	default:
		for k := 0; len(b) < n; k++ {
			b = append(b, fmt.Sprintf("token-%d ", k)...)
			if k%50 == 0 {
				b = append(b, '\n')
			}
		}
	}
	return b[:n]
}

// guard turns a panic of the utilities into an error text.
func guard(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	f()
	return
}

func c14(c *Ctx) {
	var cfg struct{ Strict string }
	must(json.Unmarshal([]byte(c.Extra), &cfg))
	im := impls[0]
	c.strict(cfg.Strict, im.ScanUTF8)

	n := Pick(c, 1500, 30000)
	sizes := append(Sizes(140000), 0)
	c.Parallel(n, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*7919 + int64(i)))
		ss := splitters(rng)
		sp := ss[i%len(ss)]
		size := rng.Intn(1 << rng.Intn(15))
		switch i / len(ss) % 6 {
		case 0:
			size = sizes[rng.Intn(len(sizes))]
		case 1:
			size = 60000 + rng.Intn(80000)
		}
		buf := c.buffer(rng, size)
		c.Begin(w, "collecting tokens ("+sp.name+")", buf)
		defer c.End(w)
		want, fails := recognized(buf, sp.make())
		longest := 0
		for _, t := range want {
			longest = max(longest, len(t))
		}
		// a line or word can need more of the stream than its token shows
		unsure := longest > 32000
		before := string(buf)
		var got [][]byte
		var cnt int
		var err, err2 error
		if p := guard(func() { got, err = im.AllTokens(buf, sp.make()) }); p != "" {
			c.Violate("panic", sp.name+": AllTokens: "+p, buf, nil)
			return
		}
		if p := guard(func() { cnt, err2 = im.TokenCount(buf, sp.make()) }); p != "" {
			c.Violate("panic", sp.name+": TokenCount: "+p, buf, nil)
			return
		}
		if string(buf) != before {
			c.Violate("modified", sp.name+": the buffer was modified", []byte(before), nil)
			return
		}
		if unsure && (err != nil || err2 != nil) {
			return
		}
		if (err != nil) != fails || (err2 != nil) != fails {
			c.Violate("error", fmt.Sprintf("%s on %d bytes: AllTokens error %v, TokenCount error %v, but the split function fails: %v", sp.name, size, err, err2, fails), buf, nil)
			return
		}
		if fails {
			c.Add("failing_collections", 1)
			return
		}
		if len(got) != len(want) {
			c.Violate("tokens", fmt.Sprintf("%s on %d bytes: %d tokens collected, the split function recognizes %d", sp.name, size, len(got), len(want)), buf, nil)
			return
		}
		for k := range got {
			if string(got[k]) != want[k] {
				c.Violate("tokens", fmt.Sprintf("%s on %d bytes: token %d is %q, the split function recognizes %q", sp.name, size, k, clip(got[k]), clip([]byte(want[k]))), buf, nil)
				return
			}
		}
		if cnt != len(want) {
			c.Violate("count", fmt.Sprintf("%s on %d bytes: %d tokens counted, the split function recognizes %d", sp.name, size, cnt, len(want)), buf, nil)
			return
		}
		c.Add("tokens_compared", int64(len(want)))
		// still intact after other calls, and after the buffer is reused
		im.AllTokens(c.buffer(rng, 5000), bufio.ScanBytes)
		for k := range got {
			if string(got[k]) != want[k] {
				c.Violate("tokens", fmt.Sprintf("%s on %d bytes: token %d changed to %q after another call, it was %q", sp.name, size, k, clip(got[k]), clip([]byte(want[k]))), buf, nil)
				return
			}
		}
	})
	c.Add("collections", int64(n))

	// Tokens at and beyond the limit of the stream.
	for _, size := range []int{30000, 60000, 65000, 65537, 65536 + 4096, 100000, 1 << 20} {
		for _, pre := range []int{0, 1, 5000, 100000} {
			buf := append([]byte(strings.Repeat("ab ", (pre+2)/3)), bytes.Repeat([]byte("x"), size)...)
			buf = append(buf, " tail"...)
			var got [][]byte
			var err, err2 error
			var cnt int
			p := guard(func() { got, err = im.AllTokens(buf, bufio.ScanWords); cnt, err2 = im.TokenCount(buf, bufio.ScanWords) })
			want := (pre+2)/3 + 2
			switch {
			case p != "":
				c.Violate("panic", "long token: "+p, nil, nil)
			case size > 65536 && (err == nil || err2 == nil):
				c.Violate("limit", fmt.Sprintf("a token of %d bytes after %d others exceeds the stream's limit: AllTokens error %v, TokenCount error %v", size, (pre+2)/3, err, err2), nil, nil)
			case size <= 65000 && (err != nil || err2 != nil || len(got) != want || cnt != want):
				c.Violate("limit", fmt.Sprintf("a token of %d bytes after %d others: errors %v, %v, %d and %d tokens, expected %d", size, (pre+2)/3, err, err2, len(got), cnt, want), nil, nil)
			}
			c.Add("long_token_cases", 1)
		}
	}

	// Recorded collections.
	rng := c.Rng(9)
	for j := 0; j < Pick(c, 96, 640) && !c.Enough(); j++ {
		ss := splitters(rng)
		sp := ss[j%len(ss)]
		size := rng.Intn(120)
		if j%3 == 0 && (strings.HasPrefix(sp.name, "fixed") || strings.HasSuffix(sp.name, fmt.Sprint(" ", 1)) || strings.Contains(sp.name, "after")) {
			size = 4000 + rng.Intn(9000)
		}
		buf := c.buffer(rng, size)
		kind := []string{"all", "count"}[j/len(ss)%2]
		c.Trace(map[string]any{"ev": "open", "kind": kind, "len": len(buf)})
		inner := sp.make()
		at := 0
		rec := func(d []byte, eof bool) (int, []byte, error) {
			n := len(d)
			match := at+n <= len(buf) && bytes.Equal(d, buf[at:at+n])
			a, t, err := inner(d, eof)
			final := err == bufio.ErrFinalToken
			c.Trace(map[string]any{"ev": "split", "off": at, "match": match, "n": n, "eof": eof, "adv": a, "hasTok": t != nil, "tok": ints(t), "err": err != nil, "final": final})
			if err == nil && a >= 0 && a <= n {
				at += a
			}
			return a, t, err
		}
		ev := map[string]any{"ev": "result", "tokens": [][]int{}, "count": 0}
		p := guard(func() {
			if kind == "all" {
				toks, err := im.AllTokens(buf, rec)
				tt := [][]int{}
				for _, t := range toks {
					tt = append(tt, ints(t))
				}
				ev["tokens"], ev["err"] = tt, err != nil
			} else {
				n, err := im.TokenCount(buf, rec)
				ev["count"], ev["err"] = n, err != nil
			}
		})
		if p != "" {
			c.Violate("panic", sp.name+": "+p, buf, nil)
			return
		}
		c.Trace(ev)
		if j < 8 {
			c.Sample(map[string]any{"split": sp.name, "bytes": len(buf), "kind": kind})
		}
	}
}

func clip(b []byte) []byte { return b[:min(len(b), 60)] }

// strict drives the UTF-8 sequence splitter against the automaton that TLC
// exported.
func (c *Ctx) strict(table string, f bufio.SplitFunc) {
	var step [][]int
	must(json.Unmarshal([]byte(readFile(table)), &step))
	const acc, rej = 100, 101
	want := func(d []byte, eof bool) int {
		q := 0
		for k, b := range d {
			switch q = step[q][b]; q {
			case acc:
				return k + 1
			case rej:
				return 1
			}
		}
		if len(d) == 0 || !eof {
			return 0
		}
		return 1
	}
	try := func(d []byte, eof bool) bool {
		var a int
		var t []byte
		var err error
		p := guard(func() { a, t, err = f(d, eof) })
		w := want(d, eof)
		if p != "" || err != nil || a != w || (t != nil) != (w > 0) || !bytes.Equal(t, d[:w]) {
			c.Violate("utf8", fmt.Sprintf("UTF-8 sequence splitter on % x (eof=%v): advance %d token % x error %v %s, the specification says %d bytes", d, eof, a, t, err, p, w), append([]byte{}, d...), nil)
			return false
		}
		return true
	}
	all := make([]byte, 256)
	for k := range all {
		all[k] = byte(k)
	}
	// every string of up to three bytes, and of four that may be a character
	try(nil, false)
	try(nil, true)
	c.Parallel(256, func(w, x int) {
		d := make([]byte, 5)
		d[0] = byte(x)
		both := func(n int) bool {
			return try(d[:n], false) && try(d[:n:n], true) && try(d[:n:n], false) && try(d[:n], true)
		}
		if !both(1) {
			return
		}
		for y := 0; y < 256; y++ {
			d[1] = byte(y)
			if !both(2) {
				return
			}
			for z := 0; z < 256; z++ {
				d[2] = byte(z)
				if !both(3) {
					return
				}
				last := []byte{0, 0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0xff}
				if x >= 0xf0 && x < 0xf8 && y&0xc0 == 0x80 && z&0xc0 == 0x80 {
					last = all
				}
				if x >= 0xee && y&0xc0 == 0x80 {
					for _, v := range last {
						d[3], d[4] = v, byte(17*x+y+z)
						if !both(4) || !both(5) {
							return
						}
					}
				}
			}
		}
	})
	c.Add("utf8_strings", 2*(1+256+65536+1<<24))
	// data of every length
	c.Parallel(Pick(c, 160, 1600), func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*6007 + int64(i)))
		d := c.O.Filler(rng, nil, 70000, []int{0, 0, 0, 1, 3}[i%5])
		d = append(d, c.input(rng, 1+rng.Intn(3))...)
		for at := 0; at < len(d); {
			if eof := i/2%2 == 0; !try(d[at:], eof) {
				return
			}
			at += want(d[at:], true)
		}
	})
	whole := func(_ int, rng *rand.Rand, d []byte) bool {
		for at := 0; at < len(d); at += want(d[at:], true) {
			to := at + rng.Intn(len(d)-at+1)
			if !try(d[at:], rng.Intn(2) == 0) || !try(d[at:to], rng.Intn(2) == 0) {
				return false
			}
		}
		return true
	}
	c.Families(12, Pick(c, 8, 1), whole)
	c.Foreign(Pick(c, 4, 40), whole)
	// whole strings under all kinds of delivery
	n := Pick(c, 3000, 60000)
	c.Parallel(n, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*104729 + int64(i)))
		d := c.input(rng, rng.Intn(1<<rng.Intn(9)))
		var exp []int
		for at := 0; at < len(d); {
			at += want(d[at:], true)
			exp = append(exp, at)
		}
		sc := bufio.NewScanner(&chunks{d, rng})
		sc.Split(f)
		c.Begin(w, "scanning UTF-8 sequences", d)
		defer c.End(w)
		at, k := 0, 0
		p := guard(func() {
			for sc.Scan() {
				at += len(sc.Bytes())
				if k >= len(exp) || at != exp[k] || !bytes.Equal(sc.Bytes(), d[at-len(sc.Bytes()):at]) {
					return
				}
				k++
			}
		})
		if p != "" || k != len(exp) || sc.Err() != nil {
			c.Violate("utf8-stream", fmt.Sprintf("delivered in chunks, sequence %d of %d ends at %d, error %v %s", k, len(exp), at, sc.Err(), p), d, nil)
		}
	})
	c.Add("utf8_streams", int64(n))
	rng := c.Rng(4)
	for j := 0; j < Pick(c, 600, 6000) && !c.Enough(); j++ {
		d := c.input(rng, rng.Intn(3))
		if rng.Intn(2) == 0 {
			d = make([]byte, rng.Intn(5))
			for k := range d {
				d[k] = []byte{0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff}[rng.Intn(22)]
			}
		}
		eof := rng.Intn(2) == 0
		a, t, err := f(d, eof)
		c.Trace(map[string]any{"ev": "utf8", "data": ints(d), "eof": eof, "adv": a, "hasTok": t != nil, "tok": ints(t), "err": err != nil})
	}
}

type chunks struct {
	b   []byte
	rng *rand.Rand
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b[:min(len(r.b), r.rng.Intn(1<<r.rng.Intn(6)))])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.rng.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}
