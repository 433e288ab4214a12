// Conformance driver for the two readers of Unicode data files.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"
)

func main() { Main(map[string]func(*Ctx){"c11": c11, "c12": c12, "bundled": bundled}) }

// rec is one record of either format.
type rec struct {
	Start, Last int
	Fields      []string
	Input       []int
	Segments    [][]int
}

func (r rec) String() string {
	if r.Fields != nil {
		return fmt.Sprintf("%04X..%04X %+q", r.Start, r.Last, r.Fields)
	}
	return fmt.Sprintf("% x %x", r.Input, r.Segments)
}

// vector is a line with its outcome under the specification.
type vector struct {
	Line []int
	Want struct {
		Kind        string
		Start, Last int
		Fields      [][]int
		Input       []int
		Segments    [][]int
	}
	line []byte
	rec  rec
}

func bytesOf(a []int) []byte {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return b
}

func load(c *Ctx) (r []*vector) {
	var cfg struct{ Vectors string }
	must(json.Unmarshal([]byte(c.Extra), &cfg))
	b, err := os.ReadFile(cfg.Vectors)
	must(err)
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		v := &vector{}
		must(json.Unmarshal([]byte(l), v))
		v.line = bytesOf(v.Line)
		// A carriage return elsewhere than at the end has no meaning in the formats.
		if k := bytes.IndexByte(v.line, '\r'); k >= 0 && k < len(v.line)-1 {
			continue
		}
		v.rec = rec{Start: v.Want.Start, Last: v.Want.Last, Input: v.Want.Input, Segments: v.Want.Segments}
		if c.Prop == "C11" {
			v.rec.Fields = []string{}
			for _, f := range v.Want.Fields {
				v.rec.Fields = append(v.rec.Fields, string(bytesOf(f)))
			}
		}
		c.Add("vectors_"+v.Want.Kind, 1)
		r = append(r, v)
	}
	return
}

// reader is either format's reader; got returns the record of the last entry,
// read again every time it is called.
type reader func() (got func() rec, err error)

func ucdReader(r io.Reader) reader {
	sc := ucdparse.NewScanner(r)
	return func() (func() rec, error) {
		e, err := sc.NextEntry()
		return func() rec {
			fs := []string{}
			for f := range e.AllFields() {
				fs = append(fs, f)
			}
			if e.FirstField() != fs[0] {
				fs = append([]string{"FirstField:" + e.FirstField()}, fs...)
			}
			for f := range e.AllFields() { // abandoned iteration
				if f != fs[0] && !strings.HasPrefix(fs[0], "FirstField:") {
					fs = append(fs, "second iteration:"+f)
				}
				break
			}
			return rec{Start: int(e.Start), Last: int(e.End) - 1, Fields: fs}
		}, err
	}
}

func testReader(r io.Reader) reader {
	sc := ucdparse.NewTestDataScanner(r)
	return func() (func() rec, error) {
		e, err := sc.NextEntry()
		return func() rec {
			x := rec{Input: ints(e.Input), Segments: [][]int{}}
			for _, s := range e.WantSegments {
				x.Segments = append(x.Segments, ints(s))
			}
			return x
		}, err
	}
}

func same(a, b rec) bool {
	if a.Start != b.Start || a.Last != b.Last || len(a.Fields) != len(b.Fields) || !eqInts(a.Input, b.Input) || len(a.Segments) != len(b.Segments) {
		return false
	}
	for i := range a.Fields {
		if a.Fields[i] != b.Fields[i] {
			return false
		}
	}
	for i := range a.Segments {
		if !eqInts(a.Segments[i], b.Segments[i]) {
			return false
		}
	}
	return true
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var errReader = errors.New("reader failed")

// delivery of a file: in random chunks, possibly failing at the end.
type delivery struct {
	b    []byte
	rng  *rand.Rand
	mode int // 0 everything, 1 one byte, 2 random, 3 random with empty reads, 4 end of file with the last bytes
	fail bool
}

func (d *delivery) end() error {
	if d.fail {
		return errReader
	}
	return io.EOF
}
func (d *delivery) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, d.end()
	}
	n := len(d.b)
	switch d.mode {
	case 1:
		n = 1
	case 2, 4:
		n = 1 + d.rng.Intn(1<<d.rng.Intn(13))
	case 3:
		if n = d.rng.Intn(1 << d.rng.Intn(10)); n > 1 && d.rng.Intn(2) == 0 {
			n = 0
		}
	}
	n = copy(p, d.b[:min(n, len(d.b))])
	d.b = d.b[n:]
	if d.mode == 4 && len(d.b) == 0 {
		return n, d.end()
	}
	return n, nil
}

// counted counts the bytes read.
type counted struct {
	io.Reader
	n int
}

func (c *counted) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	c.n += n
	return n, err
}

type session struct {
	recs []rec
	err  error // what ended it; nil: io.EOF
	bad  string
}

// readAll reads until the first error, then checks that everything returned
// earlier is still what it was.
func (c *Ctx) readAll(open func(io.Reader) reader, r io.Reader) (s session) {
	defer func() {
		if p := recover(); p != nil {
			s.bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	n := &counted{Reader: r}
	next := open(n)
	var again []func() rec
	for {
		got, err := next()
		if err == io.EOF {
			break
		}
		if err != nil {
			s.err = err
			break
		}
		again = append(again, got)
		if s.recs = append(s.recs, got()); len(s.recs) > n.n+1 {
			s.bad = fmt.Sprintf("%d entries (the last: %v) from %d bytes", len(s.recs), got(), n.n)
			return
		}
	}
	if s.err == nil {
		for k := 0; k < 2; k++ {
			if _, err := next(); err != io.EOF {
				s.bad = fmt.Sprintf("call %d after end of file returns %v", k+1, err)
			}
		}
	}
	for i, g := range again {
		if x := g(); !same(x, s.recs[i]) {
			s.bad = fmt.Sprintf("entry %d changed from %v to %v while further ones were read", i, s.recs[i], x)
		}
	}
	c.Add("files_read", 1)
	c.Add("records_compared", int64(len(s.recs)))
	return
}

// check compares a session with the records wanted (all of them, then an error
// or end of file).
func (c *Ctx) check(s session, want []*vector, wantErr bool, what string, file []byte) {
	switch {
	case s.bad != "":
		c.Violate("session", what+": "+s.bad, file, nil)
		return
	case len(s.recs) < len(want) && s.err != nil:
		c.Violate("refused", fmt.Sprintf("%s: line %+q is refused: %v", what, want[len(s.recs)].line, s.err), file, nil)
		return
	}
	for i := range want {
		if i >= len(s.recs) {
			c.Violate("skipped", fmt.Sprintf("%s: nothing is read from line %+q, expected %v", what, want[i].line, want[i].rec), file, nil)
			return
		}
		if !same(s.recs[i], want[i].rec) {
			c.Violate("misread", fmt.Sprintf("%s: line %+q is read as %v, expected %v", what, want[i].line, s.recs[i], want[i].rec), file, nil)
			return
		}
	}
	switch {
	case len(s.recs) > len(want):
		c.Violate("extra", fmt.Sprintf("%s: unexpected %v", what, s.recs[len(want)]), file, nil)
	case wantErr && s.err == nil:
		c.Violate("no-error", what+": no error is reported", file, nil)
	case !wantErr && s.err != nil:
		c.Violate("error", fmt.Sprintf("%s: unexpected error %v", what, s.err), file, nil)
	}
}

func c11(c *Ctx) { drive(c, ucdReader, ucdLine, ucdLong) }
func c12(c *Ctx) { drive(c, testReader, testLine, testLong) }

func drive(c *Ctx, open func(io.Reader) reader, randomLine func(*rand.Rand) string, long func(*rand.Rand, int, int) *vector) {
	vs := load(c)
	var none, good, bad, opn []*vector
	for _, v := range vs {
		switch v.Want.Kind {
		case "none":
			none = append(none, v)
		case "error":
			bad = append(bad, v)
		case "open":
			opn = append(opn, v)
		default:
			good = append(good, v)
		}
	}
	if len(none) < 20 || len(good) < 20 || len(bad) < 20 {
		must(fmt.Errorf("too few vectors: %d %d %d", len(none), len(good), len(bad)))
	}
	eols := []string{"\n", "\r\n"}
	withEOL := func(v *vector, eol string) []byte {
		// a line that itself ends in CR would be a CR LF line
		return append(append([]byte{}, bytes.TrimSuffix(v.line, []byte("\r"))...), eol...)
	}
	// 1. Every vector as a file of its own: with LF, CR LF and no line ending,
	// and between two other lines.
	first, last := good[0], good[len(good)-1]
	for _, v := range vs {
		if c.Enough() {
			return
		}
		var w []*vector
		if v.Want.Kind == "entry" || v.Want.Kind == "sample" {
			w = []*vector{v}
		}
		if v.Want.Kind == "open" {
			s := c.readAll(open, bytes.NewReader(v.line))
			if s.bad != "" {
				c.Violate("session", s.bad, v.line, nil)
			}
			continue
		}
		isErr := v.Want.Kind == "error"
		for _, eol := range append(eols, "") {
			f := withEOL(v, eol)
			c.check(c.readAll(open, bytes.NewReader(f)), w, isErr, "file of one line", f)
			f = append(append(withEOL(first, "\n"), f...), withEOL(last, eol)...)
			if eol != "" {
				ww := append([]*vector{first}, w...)
				if !isErr {
					ww = append(ww, last)
				}
				c.check(c.readAll(open, bytes.NewReader(f)), ww, isErr, "line between two others", f)
			}
		}
	}
	// 2. Files of many lines, of all sizes, under all kinds of delivery.
	n := Pick(c, 400, 6000)
	c.Parallel(n, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*7001 + int64(i)))
		lines := rng.Intn(1 << rng.Intn(13))
		if i%10 == 0 {
			lines = 2000 + rng.Intn(20000) // beyond any buffer
		}
		pg := []float64{0.9, 0.5, 0.1, 1, 0}[rng.Intn(5)]
		var f []byte
		var want []*vector
		var after []int // number of records wanted from the first k bytes
		eol := rng.Intn(3)
		again := rng.Intn(4) == 0 // lines are repeated
		var v *vector
		for k := 0; k < lines; k++ {
			if !again || v == nil || rng.Intn(2) == 0 {
				v = none[rng.Intn(len(none))]
				if rng.Float64() < pg {
					v = good[rng.Intn(len(good))]
				}
				if again && rng.Intn(4) == 0 {
					v = long(rng, rng.Intn(8), 1+rng.Intn(1+rng.Intn(300)))
				}
			}
			if v.Want.Kind != "none" {
				want = append(want, v)
			}
			e := eols[eol&1]
			if eol == 2 {
				e = eols[rng.Intn(2)]
			}
			f = append(f, withEOL(v, e)...)
			after = append(after, len(f))
		}
		if len(f) > 0 && rng.Intn(3) == 0 { // no final line ending
			f = bytes.TrimRight(f, "\r\n")
		}
		d := &delivery{b: f, rng: rng, mode: rng.Intn(5)}
		if len(f) > 20000 && d.mode == 1 {
			d.mode = 2
		}
		c.Begin(w, "reading a file", f)
		s := c.readAll(open, d)
		c.check(s, want, false, fmt.Sprintf("file of %d lines, delivery %d", lines, d.mode), f)
		// the same with a malformed line at the end
		b := bad[rng.Intn(len(bad))]
		if len(f) > 0 && f[len(f)-1] != '\n' {
			f = append(f, '\n')
		}
		g := append(f[:len(f):len(f)], withEOL(b, eols[rng.Intn(2)])...)
		g = append(g, withEOL(first, "\n")...)
		s = c.readAll(open, &delivery{b: g, rng: rng, mode: []int{0, 2, 3, 4}[rng.Intn(4)]})
		c.check(s, want, true, "malformed line "+fmt.Sprintf("%+q", b.line), g)
		// the reader fails: that is not the end of the file
		cut := rng.Intn(len(f) + 1)
		s = c.readAll(open, &delivery{b: f[:cut:cut], rng: rng, mode: []int{0, 2, 3, 4}[rng.Intn(4)], fail: true})
		if s.bad != "" {
			c.Violate("session", s.bad, f[:cut], nil)
		} else if s.err == nil {
			c.Violate("read-error", "a read error is taken for the end of the file", f[:cut], nil)
		} else {
			// every complete line before the failure has been read
			full, k := 0, 0
			for ; k < len(after) && after[k] <= cut; k++ {
			}
			for _, v := range splitRecords(f[:cut], want) {
				_ = v
				full++
			}
			m := min(full, len(s.recs))
			if len(s.recs) < full {
				c.Violate("read-error", fmt.Sprintf("%d records read before the reader failed, there were %d", len(s.recs), full), f[:cut], nil)
			} else {
				s.recs = s.recs[:m]
				c.check(session{recs: s.recs}, want[:m], false, "records before the reader failed", f[:cut])
			}
		}
		c.End(w)
		c.Add("big_file_bytes", int64(len(f)))
	})
	// 3. Long lines, below the limit of a line scanner.
	rng := c.Rng(3)
	for _, n := range []int{200, 1000, 4090, 4097, 8200, 16390, 32770, 60000, 65000} {
		for kind := 0; kind < 8; kind++ {
			v := long(rng, kind, n)
			var want []*vector
			var f []byte
			add := func(v *vector, eol string) {
				f = append(f, withEOL(v, eol)...)
				if v.Want.Kind != "none" {
					want = append(want, v)
				}
			}
			add(first, "\n")
			add(v, eols[rng.Intn(2)])
			add(good[rng.Intn(len(good))], "\n")
			for k := rng.Intn(3); k > 0; k-- {
				add(long(rng, rng.Intn(8), 1+rng.Intn(n)), eols[rng.Intn(2)])
			}
			add(last, []string{"\n", ""}[rng.Intn(2)])
			mode := []int{0, 2, 3, 4}[rng.Intn(4)]
			c.check(c.readAll(open, &delivery{b: f, rng: rng, mode: mode}), want, false, fmt.Sprintf("file with lines of up to %d bytes", len(v.line)), f)
			c.Add("long_lines", 1)
		}
		if c.Enough() {
			return
		}
	}
	// A line too long to be held is read or refused, never lost.
	for k := 0; k < 6; k++ {
		pre := withEOL(first, "\n")
		long := append(append([]byte{}, first.line...), bytes.Repeat([]byte(" "), []int{65000, 65530, 65536, 70000, 200000, 1 << 20}[k])...)
		f := append(append(pre, long...), '\n')
		f = append(f, withEOL(last, "\n")...)
		s := c.readAll(open, &delivery{b: f, rng: rng, mode: 2})
		if s.bad != "" {
			c.Violate("session", s.bad, nil, nil)
		} else if s.err == nil {
			c.check(s, []*vector{first, first, last}, false, "file with a very long line", nil)
		} else if len(s.recs) < 1 || len(s.recs) > 2 || !same(s.recs[0], first.rec) || !same(s.recs[len(s.recs)-1], first.rec) {
			c.Violate("misread", fmt.Sprintf("file with a line of %d bytes: %d records before the error %v", len(long), len(s.recs), s.err), nil, nil)
		}
	}
	// Files of more lines, and of more records, than small counters hold.
	counts := []int{300, 33000, 66000, 131100}
	if c.Thorough() {
		counts = append(counts, 600000, 2200000)
	}
	c.Parallel(2*len(counts), func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*919 + int64(i)))
		var f []byte
		var want []*vector
		for k := 0; k < counts[i/2]; k++ {
			v := good[rng.Intn(len(good))]
			if i&1 == 1 && rng.Intn(2) == 0 {
				v = none[rng.Intn(len(none))]
			} else {
				want = append(want, v)
			}
			f = append(f, withEOL(v, eols[rng.Intn(2)])...)
		}
		c.Begin(w, "reading a file", f[:200])
		s := c.readAll(open, &delivery{b: f, rng: rng, mode: 2})
		c.End(w)
		c.check(s, want, false, fmt.Sprintf("file of %d lines", counts[i/2]), nil)
		// malformed lines are seen wherever they are
		f = append(f, withEOL(bad[rng.Intn(len(bad))], "\n")...)
		c.check(c.readAll(open, &delivery{b: f, rng: rng}), want, true, fmt.Sprintf("malformed line after %d lines", counts[i/2]), nil)
		c.Add("many_line_files", 1)
	})
	// 4. Random files, recorded for TLC, which reads them itself.
	sessions := Pick(c, 300, 3000)
	for i := 0; i < sessions; i++ {
		var f []byte
		for k := rng.Intn(8); k >= 0; k-- {
			l := randomLine(rng)
			switch rng.Intn(10) {
			case 0:
				l = string(none[rng.Intn(len(none))].line)
			case 1:
				l = string(bad[rng.Intn(len(bad))].line)
			case 2:
				if len(opn) > 0 {
					l = string(opn[rng.Intn(len(opn))].line)
				}
			case 3:
				l = string(good[rng.Intn(len(good))].line)
			}
			l = strings.TrimRight(l, "\r") // CR only as part of the line ending
			f = append(f, l...)
			if k > 0 || rng.Intn(3) > 0 {
				f = append(f, eols[rng.Intn(2)]...)
			}
		}
		c.Trace(map[string]any{"ev": "open", "file": ints(f)})
		s := c.readAll(open, &delivery{b: f, rng: rng, mode: rng.Intn(5)})
		if s.bad != "" {
			c.Violate("session", s.bad, f, nil)
			return
		}
		c.record(s)
		if i < 6 {
			c.Sample(map[string]any{"file": string(f), "records": fmt.Sprint(s.recs), "error": fmt.Sprint(s.err)})
		}
	}
	c.Add("traced_files", int64(sessions))
}

// record writes what a session got.
func (c *Ctx) record(s session) {
	for _, r := range s.recs {
		if c.Prop == "C11" {
			fs := [][]int{}
			for _, x := range r.Fields {
				fs = append(fs, ints([]byte(x)))
			}
			c.Trace(map[string]any{"ev": "record", "rec": map[string]any{"kind": "entry", "start": r.Start, "last": r.Last, "fields": fs}})
		} else {
			c.Trace(map[string]any{"ev": "record", "rec": map[string]any{"kind": "sample", "input": r.Input, "segments": r.Segments}})
		}
	}
	if s.err != nil {
		c.Trace(map[string]any{"ev": "error"})
	} else {
		c.Trace(map[string]any{"ev": "eof"})
	}
}

// bundled reads one whole file; TLC compares every line with what was got.
func bundled(c *Ctx) {
	b, err := os.ReadFile(c.Extra)
	must(err)
	open := ucdReader
	if c.Prop == "C12" {
		open = testReader
	}
	s := c.readAll(open, &delivery{b: b, rng: c.Rng(17), mode: 2})
	if s.bad != "" {
		c.Violate("session", c.Extra+": "+s.bad, nil, nil)
		return
	}
	c.record(s)
	// the same file with the other line ending
	crlf := bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
	t := c.readAll(open, &delivery{b: crlf, rng: c.Rng(18), mode: 3})
	n := 0
	for n < len(s.recs) && n < len(t.recs) && same(s.recs[n], t.recs[n]) {
		n++
	}
	if t.bad != "" || n != len(s.recs) || n != len(t.recs) || (s.err == nil) != (t.err == nil) {
		c.Violate("line-endings", fmt.Sprintf("%s with CR LF line endings is read differently from record %d on (%v, %v; %s)", c.Extra, n, s.err, t.err, t.bad), nil, nil)
	}
}

// ucdLong makes a line of about n bytes.
func ucdLong(rng *rand.Rand, kind, n int) *vector {
	v := &vector{}
	v.Want.Kind = "entry"
	v.rec = rec{Start: 0xE000, Last: 0xE000 + rng.Intn(0x1000), Fields: []string{"A"}}
	head := fmt.Sprintf("%04X..%04X", v.rec.Start, v.rec.Last)
	fill := func(k int) string { return strings.Repeat("x", max(k, 1)) }
	switch kind {
	case 0: // comment
		v.line = []byte(head + " ; A # " + fill(n-16))
	case 1: // one field
		v.rec.Fields = []string{fill(n - 12)}
		v.line = []byte(head + ";" + v.rec.Fields[0])
	case 2: // many fields
		v.rec.Fields = nil
		for k := 0; len(v.rec.Fields) == 0 || k < n-20; k += 6 {
			v.rec.Fields = append(v.rec.Fields, fmt.Sprintf("f%d", len(v.rec.Fields)%1000))
		}
		v.line = []byte(head + ";" + strings.Join(v.rec.Fields, " ;"))
	case 3: // blanks in front
		v.line = []byte(strings.Repeat(" ", max(n-16, 0)) + head + " ; A")
	case 4: // blanks before the separator
		v.line = []byte(head + strings.Repeat("\t", max(n-16, 0)) + ";A")
	case 5: // blanks at the end
		v.line = []byte(head + ";A" + strings.Repeat(" ", max(n-16, 0)))
	case 6: // a long first field and a second
		v.rec.Fields = []string{fill(n - 20), "z"}
		v.line = []byte(head + "; " + v.rec.Fields[0] + " ; z # c")
	case 7: // only a comment
		v.Want.Kind = "none"
		v.line = []byte("# 0041 ; " + fill(n-10))
	}
	return v
}

// testLong makes a line of about n bytes.
func testLong(rng *rand.Rand, kind, n int) *vector {
	v := &vector{}
	v.Want.Kind = "sample"
	switch kind {
	case 0:
		v.line = []byte("÷ 0041 ÷ # " + strings.Repeat("x", max(n-14, 0)))
		v.rec = rec{Input: []int{0x41}, Segments: [][]int{{0x41}}}
		return v
	case 7:
		v.Want.Kind = "none"
		v.line = []byte("# ÷ 0041 ÷ " + strings.Repeat("x", max(n-14, 0)))
		return v
	case 6:
		v.line = []byte("÷ 0041 " + strings.Repeat(" ", max(n-24, 0)) + " × 0042 ÷")
		v.rec = rec{Input: []int{0x41, 0x42}, Segments: [][]int{{0x41, 0x42}}}
		return v
	}
	l := "÷ "
	var seg []int
	for {
		x := rune(cp(rng))
		if !utf8.ValidRune(x) {
			x = 'A'
		}
		l += fmt.Sprintf("%04X", x)
		b := ints([]byte(string(x)))
		seg = append(seg, b...)
		v.rec.Input = append(v.rec.Input, b...)
		done := len(l) >= n-12
		// 1: all in one segment, 2: each alone, otherwise mixed
		if done || kind == 2 || kind > 2 && rng.Intn(kind*kind) == 0 {
			v.rec.Segments = append(v.rec.Segments, seg)
			seg = nil
			l += " ÷"
		} else {
			l += " ×"
		}
		if done {
			break
		}
		l += " "
	}
	v.line = []byte(l)
	return v
}

// splitRecords returns the records of the complete lines of f, whose records
// in order are want.
func splitRecords(f []byte, want []*vector) []*vector {
	n := 0
	for len(f) > 0 && n < len(want) {
		k := bytes.IndexByte(f, '\n')
		if k < 0 {
			break
		}
		if bytes.Equal(bytes.TrimSuffix(f[:k], []byte("\r")), bytes.TrimSuffix(want[n].line, []byte("\r"))) {
			n++
		}
		f = f[k+1:]
	}
	return want[:n]
}

func pick(rng *rand.Rand, a ...string) string { return a[rng.Intn(len(a))] }

func cp(rng *rand.Rand) int {
	switch rng.Intn(6) {
	case 0:
		return []int{0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x10fffe}[rng.Intn(11)]
	case 1:
		return rng.Intn(0x110000)
	case 2:
		return rng.Intn(0x10000)
	}
	return rng.Intn(0x2000)
}

func hexa(rng *rand.Rand, x int) string {
	return fmt.Sprintf(pick(rng, "%04X", "%04X", "%04X", "%X", "%04x", "%06X", "%05x"), x)
}

// ucdLine makes a line of a property file, mostly a proper one.
func ucdLine(rng *rand.Rand) string {
	a, b := cp(rng), cp(rng)
	if a > b && rng.Intn(12) > 0 {
		a, b = b, a
	}
	r := hexa(rng, a)
	if rng.Intn(2) == 0 {
		r += ".." + hexa(rng, b)
	}
	if rng.Intn(25) == 0 {
		r = pick(rng, r+"..", ".."+r, r+"."+r, "-"+r, "+"+r, "0x"+r, "U+"+r, r+"_0", "", "110000", r+"..110000", r+"...."+r, r+"h", "FFFFFFFFFF", "0_1")
	}
	blank := func() string { return strings.Repeat(pick(rng, " ", "\t"), rng.Intn(3)) }
	name := func() string {
		return pick(rng, "CR", "LF", "Control", "Extend", "ZWJ", "InCB", "Linker", "Grapheme_Cluster_Break", "L", "Other Name", "a.b", "a..b", "é ö", "日本", "", "x=1", "\"q\"", "0041", "00DC..00FF")
	}
	l := blank() + r + blank()
	for k := rng.Intn(4); k >= 0; k-- {
		l += ";" + blank() + name() + blank()
	}
	if rng.Intn(2) == 0 {
		l += pick(rng, "#", "# comment", "# Mn  [4] A..B; c", "#; x # y", "# 0041 ; CR")
	}
	return l
}

// testLine makes a line of GraphemeBreakTest.txt, mostly a proper one.
func testLine(rng *rand.Rand) string {
	sp := func() string {
		if rng.Intn(8) > 0 {
			return " "
		}
		return pick(rng, "", "  ", "\t", " \t ")
	}
	l := pick(rng, "", "", "", " ", "\t") + "÷"
	for k := rng.Intn(6); k >= 0; k-- {
		x := cp(rng)
		if !utf8.ValidRune(rune(x)) && rng.Intn(10) > 0 {
			x = 0x41
		}
		h := hexa(rng, x)
		if rng.Intn(40) == 0 {
			h = pick(rng, "00G1", "-0041", "+0041", "110000", "1FFFFF", "U+0041", "0x41", "0041 0042", "FFFFFFFFFF", "80000041", "?")
		}
		l += sp() + h + sp() + pick(rng, "÷", "×")
	}
	l = strings.TrimSuffix(strings.TrimSuffix(l, "÷"), "×") + "÷" + sp()
	if rng.Intn(2) == 0 {
		l += pick(rng, "#", "# ÷ [0.2] SPACE (Other) ÷ [0.3]", "\t#  × [9.0]", "# ÷ 0041 ÷")
	}
	if rng.Intn(30) == 0 {
		l = pick(rng, "", " ", "#", "÷", "÷ ÷", "0041", "÷ 0041", "0041 ÷", "÷ × 0041 ÷", "÷ 0041 × ÷")
	}
	return l
}
