// Conformance driver for the property table generator.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

func main() { Main(map[string]func(*Ctx){"c10": c10, "mkdata": mkdata}) }

const maxCP = 0x110000

var gcbNames = []string{"CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}
var incbNames = []string{"Consonant", "Extend", "Linker"}

// A data set: per code point 0 = nothing, 1..13 = gcbNames, 14 = pictographic;
// and 0 = nothing, 1..3 = incbNames.
type dataset struct {
	name string
	brk  []uint8
	conj []uint8
}

const pict = 14

func newSet(name string) *dataset {
	return &dataset{name, make([]uint8, maxCP), make([]uint8, maxCP)}
}

func (d *dataset) fill(lo, hi int, v uint8) {
	for c := max(lo, 0); c <= min(hi, maxCP-1); c++ {
		d.brk[c] = v
	}
}
func (d *dataset) fillConj(lo, hi int, v uint8) {
	for c := max(lo, 0); c <= min(hi, maxCP-1); c++ {
		d.conj[c] = v
	}
}

type line struct {
	lo, hi int
	field  string
}

func ranges(a []uint8, want func(uint8) string, rng *rand.Rand, split float64) (r []line) {
	for lo := 0; lo < maxCP; {
		hi := lo
		for hi+1 < maxCP && a[hi+1] == a[lo] && (rng == nil || a[lo] == 0 || rng.Float64() >= split) {
			hi++
		}
		if f := want(a[lo]); f != "" {
			r = append(r, line{lo, hi, f})
		}
		lo = hi + 1
	}
	return
}

// again lists parts of some of the ranges a second time, with the same value.
func again(ls []line, rng *rand.Rand) []line {
	if len(ls) == 0 || rng.Intn(3) == 0 {
		return ls
	}
	for n, k := len(ls), 1+rng.Intn(6); k > 0; k-- {
		l := ls[rng.Intn(n)]
		l.lo += rng.Intn(l.hi - l.lo + 1)
		l.hi -= rng.Intn(l.hi - l.lo + 1)
		ls = append(ls, l)
	}
	return ls
}

// write renders the data files; order, spacing, comments and the cutting of
// ranges are random, since none of it means anything.
func (d *dataset) write(dir string, rng *rand.Rand) {
	must(os.MkdirAll(filepath.Join(dir, "auxiliary"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "emoji"), 0o755))
	split := []float64{0, 0, 0.02, 0.3}[rng.Intn(4)]
	shuffle := rng.Intn(3) > 0
	render := func(ls []line, extra func() string) []byte {
		if shuffle {
			rng.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "# Synthetic-%s.txt\n#\n\n", d.name)
		for _, l := range ls {
			r := fmt.Sprintf("%04X", l.lo)
			if l.hi > l.lo {
				r = fmt.Sprintf("%04X..%04X", l.lo, l.hi)
			}
			switch rng.Intn(4) {
			case 0:
				fmt.Fprintf(&b, "%s;%s\n", r, strings.ReplaceAll(l.field, "; ", ";"))
			case 1:
				fmt.Fprintf(&b, "%-14s; %s\n", r, l.field)
			default:
				fmt.Fprintf(&b, "%-14s; %s # Xx  [%d] SOME; NAME..OTHER NAME\n", r, l.field, l.hi-l.lo+1)
			}
			if rng.Intn(20) == 0 {
				b.WriteString([]string{"\n", "# comment\n", "# 0041; CR\n", "   \n", "#\n"}[rng.Intn(5)])
			}
			if rng.Intn(30) == 0 {
				b.WriteString(extra())
			}
		}
		b.WriteString("\n# EOF\n")
		return b.Bytes()
	}
	none := func() string { return "" }
	cpRange := func() string {
		lo := rng.Intn(maxCP)
		return fmt.Sprintf("%04X..%04X", lo, min(maxCP-1, lo+rng.Intn(3000)))
	}
	g := ranges(d.brk, func(v uint8) string {
		if v == 0 || v == pict {
			return ""
		}
		return gcbNames[v-1]
	}, rng, split)
	g = again(g, rng)
	for i := rng.Intn(4); i > 0; i-- { // a value that the rules do not know
		if x := rng.Intn(maxCP); d.brk[x] == 0 {
			g = append(g, line{x, x, []string{"Other", "E_Base", "XX"}[rng.Intn(3)]})
		}
	}
	must(os.WriteFile(filepath.Join(dir, "auxiliary", "GraphemeBreakProperty.txt"), render(g, none), 0o644))
	e := ranges(d.brk, func(v uint8) string {
		if v == pict {
			return "Extended_Pictographic"
		}
		return ""
	}, rng, split)
	// properties of no interest, also of the same characters
	for n, i := len(e), rng.Intn(8); i > 0; i-- {
		lo, w := rng.Intn(maxCP), 1<<rng.Intn(9)
		if l := rng.Intn(3); n > 0 && l > 0 {
			x := e[rng.Intn(n)]
			lo, w = x.lo+rng.Intn(x.hi-x.lo+1), rng.Intn(x.hi-x.lo+1)+1
			if l > 1 {
				w = 1
			}
		}
		e = append(e, line{lo, min(maxCP-1, lo+w-1), []string{"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Component"}[rng.Intn(4)]})
	}
	must(os.WriteFile(filepath.Join(dir, "emoji", "emoji-data.txt"), render(e, func() string { return cpRange() + " ; Emoji\n" }), 0o644))
	k := ranges(d.conj, func(v uint8) string {
		if v == 0 {
			return ""
		}
		return "InCB; " + incbNames[v-1]
	}, rng, split)
	k = again(k, rng)
	must(os.WriteFile(filepath.Join(dir, "DerivedCoreProperties.txt"), render(k, func() string {
		return cpRange() + []string{" ; Math\n", " ; Alphabetic # InCB; Linker\n", "; Lowercase; Extend\n"}[rng.Intn(3)]
	}), 0o644))
}

// plain renders the grapheme break data only, in order.
func (d *dataset) plain(dir string) {
	must(os.MkdirAll(filepath.Join(dir, "auxiliary"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "emoji"), 0o755))
	var b bytes.Buffer
	for _, l := range ranges(d.brk, func(v uint8) string {
		if v == 0 {
			return ""
		}
		return gcbNames[v-1]
	}, nil, 0) {
		fmt.Fprintf(&b, "%04X..%04X ; %s # Xx\n", l.lo, l.hi, l.field)
	}
	must(os.WriteFile(filepath.Join(dir, "auxiliary", "GraphemeBreakProperty.txt"), b.Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, "emoji", "emoji-data.txt"), nil, 0o644))
	must(os.WriteFile(filepath.Join(dir, "DerivedCoreProperties.txt"), nil, 0o644))
}

// want is the packed value of every combination, by name.
func packed(b, j uint8) uint8 {
	var g, p charprops.GCBProperty
	var n charprops.InCBProperty
	if b == pict {
		p = charprops.LookupEmojiProperty("Extended_Pictographic")
	} else if b > 0 {
		g = charprops.LookupGCBProperty(gcbNames[b-1])
	}
	if j > 0 {
		n = charprops.LookupInCBProperty(incbNames[j-1])
	}
	return uint8(charprops.MakeCharProperties(g, p, n))
}

var pk [15][4]uint8

func (c *Ctx) compare(t *table, d *dataset) string {
	var buf [4]byte
	for r := rune(0); r < maxCP; r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		n := utf8.EncodeRune(buf[:], r)
		v, ok := lookup(t, buf[:n])
		w := pk[d.brk[r]][d.conj[r]]
		if !ok {
			return fmt.Sprintf("looking up U+%04X fails", r)
		}
		if v != w {
			return fmt.Sprintf("U+%04X has properties %s (0x%02x), the data says %s (0x%02x)", r, charprops.CharProperties(v), v, charprops.CharProperties(w), w)
		}
	}
	// bytes that only occur in other sequences must not break the lookup
	for _, l := range []byte{0xc0, 0xc1, 0xf5, 0xf6, 0xf7} {
		for _, k := range []byte{0x80, 0xbf} {
			e := []byte{l, k}
			if l >= 0xf0 {
				e = []byte{l, k, k, k}
			}
			if _, ok := lookup(t, e); !ok {
				return fmt.Sprintf("looking up bytes % x fails", e)
			}
		}
	}
	return ""
}

func c10(c *Ctx) {
	var cfg struct{ UCD, Behaviours, Scratch string }
	must(json.Unmarshal([]byte(c.Extra), &cfg))
	for b := range pk {
		for j := range pk[b] {
			pk[b][j] = packed(uint8(b), uint8(j))
		}
	}
	if !tablesReadable {
		c.Add("layout_unknown", 1)
		return
	}
	if o := build(cfg.UCD); o.refused != "" {
		c.Violate("bundled", "the bundled data is refused: "+o.refused, nil, nil)
		return
	}
	// Calibration: does the harness read tables as they are laid out now? If
	// plain data sets read right at every scalar value, it does.
	agree := true
	for i := 0; i < 3 && agree; i++ {
		rng := rand.New(rand.NewSource(int64(i)))
		dir := filepath.Join(cfg.Scratch, fmt.Sprintf("calibration%d", i))
		d := newSet("calibration")
		for k := 0; k < 20*i; k++ {
			d.brk[[]int{rng.Intn(0x80), rng.Intn(0x800), rng.Intn(0x10000), rng.Intn(maxCP)}[k%4]] = uint8(1 + rng.Intn(13))
		}
		d.fill(0x41, 0x42, 3)
		d.fill(0x400, 0x40f, 3)
		d.fill(0x4000, 0x5000, 5)
		d.fill(0x1f000, 0x1f0ff, 8)
		d.plain(dir)
		o := build(dir)
		agree = o.refused == "" && c.compare(&o.tree, d) == ""
		must(os.RemoveAll(dir))
	}
	if !agree {
		// Either the table is laid out differently now, or it is wrong even for
		// plain data; the end-to-end part decides, which does not depend on the
		// layout.
		c.Add("layout_unknown", 1)
		return
	}
	c.Add("calibration_lookups", 3*(maxCP-2048))

	var mu sync.Mutex
	seq := 0
	dirFor := func() string {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return filepath.Join(cfg.Scratch, fmt.Sprintf("set%d", seq))
	}
	judge := func(w int, d *dataset, refusable bool, dir string) {
		c.Begin(w, "table generation for data set "+d.name, nil)
		o := build(dir)
		c.End(w)
		switch {
		case o.refused != "" && refusable:
			return
		case o.refused != "":
			c.Violate("refused", fmt.Sprintf("data set %s is refused: %s", d.name, o.refused), nil, map[string]any{"files": excerpt(dir)})
		default:
			if bad := c.compare(&o.tree, d); bad != "" {
				c.Violate("unfaithful", fmt.Sprintf("data set %s: %s", d.name, bad), nil, map[string]any{"files": excerpt(dir)})
			}
			c.Add("lookups_compared", maxCP-2048)
		}
	}
	// 1. Behaviours of the specification (PropTable), embedded into UTF-8.
	if cfg.Behaviours != "" {
		b, err := os.ReadFile(cfg.Behaviours)
		must(err)
		ls := strings.Split(strings.TrimSpace(string(b)), "\n")
		c.Parallel(len(ls), func(w, i int) {
			dir := dirFor()
			c.behaviour(w, ls[i], rand.New(rand.NewSource(c.Seed*31+int64(i))), dir)
			os.RemoveAll(dir)
		})
		c.Add("spec_behaviours_replayed", int64(len(ls)))
	}
	// 2. Generated data sets.
	n := Pick(c, 320, 6000)
	c.Parallel(n, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*6007 + int64(i)))
		d := generate(rng, i)
		dir := dirFor()
		d.write(dir, rng)
		judge(w, d, false, dir)
		must(os.RemoveAll(dir))
		if i < 8 {
			c.Sample(map[string]any{"data_set": d.name})
		}
	})
	c.Add("data_sets", int64(n))
	// 3. Data that must be refused.
	c.refusals(dirFor)
	// 4. Small data sets, recorded for TLC, which works out itself what each
	// character's properties are and whether the data contradicts itself.
	names := map[uint8][2]string{}
	for b := range pk {
		for j := range pk[b] {
			n := [2]string{"", ""}
			switch {
			case b == pict:
				n[0] = "Extended_Pictographic"
			case b > 0:
				n[0] = gcbNames[b-1]
			}
			if j > 0 {
				n[1] = incbNames[j-1]
			}
			names[pk[b][j]] = n
		}
	}
	rng := c.Rng(41)
	for i := Pick(c, 60, 500); i > 0 && !c.Enough(); i-- {
		c.recorded(rng, dirFor(), names)
	}
}

// recorded makes a data set of a few ranges and records it with the outcome.
func (c *Ctx) recorded(rng *rand.Rand, dir string, names map[uint8][2]string) {
	type entry struct {
		Kind string `json:"kind"`
		Lo   int    `json:"lo"`
		Hi   int    `json:"hi"`
		Name string `json:"name"`
	}
	entries := []entry{}
	free := func(kind, name string, lo, hi int) bool { // at most one value of each kind
		for _, e := range entries {
			if e.Kind == kind && e.Lo <= hi && lo <= e.Hi && (e.Name != name || kind == "pict") {
				return false
			}
		}
		return true
	}
	overlapping := rng.Intn(4) == 0 // allow contradictions
	for k := rng.Intn(14); k > 0; k-- {
		lo := somewhere(rng)
		if len(entries) > 0 && rng.Intn(2) == 0 { // near another one
			lo = max(0, min(maxCP-1, entries[rng.Intn(len(entries))].Hi+rng.Intn(80)-40))
		}
		hi := min(maxCP-1, lo+rng.Intn(1<<rng.Intn(9)))
		e := entry{[]string{"brk", "pict", "conj"}[rng.Intn(3)], lo, hi, "Extended_Pictographic"}
		switch e.Kind {
		case "brk":
			e.Name = gcbNames[rng.Intn(len(gcbNames))]
		case "conj":
			e.Name = incbNames[rng.Intn(3)]
		}
		if len(entries) > 0 && rng.Intn(5) == 0 { // listed again
			if x := entries[rng.Intn(len(entries))]; x.Kind != "pict" {
				e.Kind, e.Name = x.Kind, x.Name
			}
		}
		if lo <= 0xdfff && hi >= 0xd800 || !free(e.Kind, e.Name, lo, hi) {
			continue
		}
		if !overlapping && (e.Kind == "brk" && !free("pict", "", lo, hi) || e.Kind == "pict" && !free("brk", "", lo, hi)) {
			continue
		}
		entries = append(entries, e)
	}
	var f [3]bytes.Buffer
	for _, e := range entries {
		r := fmt.Sprintf("%04X..%04X", e.Lo, e.Hi)
		if e.Lo == e.Hi {
			r = fmt.Sprintf("%04X", e.Lo)
		}
		switch e.Kind {
		case "brk":
			fmt.Fprintf(&f[0], "%s ; %s\n", r, e.Name)
		case "pict":
			fmt.Fprintf(&f[1], "%s ; %s# E1.0\n", r, e.Name)
		default:
			fmt.Fprintf(&f[2], "%s; InCB; %s\n", r, e.Name)
		}
	}
	must(os.MkdirAll(filepath.Join(dir, "auxiliary"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "emoji"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "auxiliary", "GraphemeBreakProperty.txt"), f[0].Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, "emoji", "emoji-data.txt"), f[1].Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, "DerivedCoreProperties.txt"), f[2].Bytes(), 0o644))
	o := build(dir)
	c.Trace(map[string]any{"ev": "dataset", "entries": entries, "refused": o.refused != ""})
	if o.refused == "" {
		probe := func(x int) {
			if x < 0 || x >= maxCP || !utf8.ValidRune(rune(x)) {
				return
			}
			v, ok := lookup(&o.tree, []byte(string(rune(x))))
			n, known := names[v]
			c.Trace(map[string]any{"ev": "lookup", "cp": x, "ok": ok && known, "brk": n[0], "conj": n[1]})
		}
		for _, e := range entries {
			for _, x := range []int{e.Lo - 1, e.Lo, e.Hi, e.Hi + 1, e.Lo ^ 64, e.Lo ^ 4096, e.Lo % 64, e.Lo + rng.Intn(e.Hi-e.Lo+1)} {
				probe(x)
			}
		}
		for k := 0; k < 4; k++ {
			probe(somewhere(rng))
		}
	}
	must(os.RemoveAll(dir))
	c.Add("recorded_data_sets", 1)
}

func excerpt(dir string) map[string]string {
	r := map[string]string{}
	for _, f := range []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"} {
		b, _ := os.ReadFile(filepath.Join(dir, f))
		if len(b) > 1500 {
			b = append(b[:1500], "..."...)
		}
		r[f] = string(b)
	}
	return r
}

var pathRE = regexp.MustCompile(`\d+`)

func (c *Ctx) behaviour(w int, js string, rng *rand.Rand, dir string) {
	var bh struct {
		Log []struct {
			Kind string
			Path []int
		}
		Phase string
		Want  json.RawMessage
	}
	must(json.Unmarshal([]byte(js), &bh))
	want := map[string]int{}
	if !bytes.HasPrefix(bytes.TrimSpace(bh.Want), []byte("[")) { // an empty function is printed as []
		must(json.Unmarshal(bh.Want, &want))
	}
	// embedding
	var leads [4]int
	leads[0] = 0xc2 + rng.Intn(30)
	for leads[1] = leads[0]; leads[1] == leads[0]; {
		leads[1] = 0xc2 + rng.Intn(30)
	}
	leads[2] = []int{0xe1, 0xe2, 0xe5, 0xec, 0xee, 0xef}[rng.Intn(6)]
	leads[3] = []int{0xf1, 0xf2, 0xf3}[rng.Intn(3)]
	var cont [3][2]int // by distance from the end
	for k := range cont {
		cont[k][0] = rng.Intn(64)
		for cont[k][1] = cont[k][0]; cont[k][1] == cont[k][0]; {
			cont[k][1] = rng.Intn(64)
		}
	}
	cp := func(p []int) int {
		if len(p) == 1 {
			return p[0]/2*64 + cont[0][p[0]%2]
		}
		e := []byte{byte(leads[p[0]])}
		for k := 1; k < len(p); k++ {
			e = append(e, byte(0x80|cont[len(p)-1-k][p[k]]))
		}
		r, n := utf8.DecodeRune(e)
		if n != len(e) {
			must(fmt.Errorf("embedding % x", e))
		}
		return int(r)
	}
	g, j := uint8(1+rng.Intn(13)), uint8(1+rng.Intn(3))
	d := newSet("spec behaviour " + bh.Phase)
	for k, v := range want {
		var p []int
		for _, x := range pathRE.FindAllString(k, -1) {
			n, _ := strconv.Atoi(x)
			p = append(p, n)
		}
		x := cp(p)
		switch v % 4 {
		case 1:
			d.brk[x] = g
		case 2:
			d.brk[x] = pict
		}
		if v >= 4 {
			d.conj[x] = j
		}
	}
	// the data files list the insertions in the behaviour's order
	var f [3]bytes.Buffer
	for _, l := range bh.Log {
		x := cp(l.Path)
		switch l.Kind {
		case "brk":
			fmt.Fprintf(&f[0], "%04X ; %s\n", x, gcbNames[g-1])
		case "emoji":
			fmt.Fprintf(&f[1], "%04X ; Extended_Pictographic# E0.0\n", x)
		default:
			fmt.Fprintf(&f[2], "%04X ; InCB; %s # Mn\n", x, incbNames[j-1])
		}
	}
	must(os.MkdirAll(filepath.Join(dir, "auxiliary"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "emoji"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "auxiliary", "GraphemeBreakProperty.txt"), f[0].Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, "emoji", "emoji-data.txt"), f[1].Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(dir, "DerivedCoreProperties.txt"), f[2].Bytes(), 0o644))
	c.Begin(w, "table generation for "+js, nil)
	o := build(dir)
	c.End(w)
	switch {
	case bh.Phase == "refused" && o.refused == "":
		c.Violate("contradiction", "contradictory data (a character that is both pictographic and has a break property) is accepted", nil, map[string]any{"files": excerpt(dir)})
	case bh.Phase == "done" && o.refused != "":
		c.Violate("refused", "data is refused: "+o.refused, nil, map[string]any{"files": excerpt(dir), "behaviour": js})
	case bh.Phase == "done":
		if bad := c.compare(&o.tree, d); bad != "" {
			c.Violate("unfaithful", bad, nil, map[string]any{"files": excerpt(dir), "behaviour": js})
		}
	}
}

// interesting borders of the encoding and of the table's blocks
var borders = []int{0, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000,
	0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}

func somewhere(rng *rand.Rand) int {
	switch rng.Intn(5) {
	case 0:
		return min(maxCP-1, max(0, borders[rng.Intn(len(borders))]+rng.Intn(5)-2))
	case 1:
		return rng.Intn(0x800)
	case 2:
		return rng.Intn(0x10000)
	case 3:
		return rng.Intn(maxCP/64)*64 + []int{0, 63}[rng.Intn(2)]
	}
	return rng.Intn(maxCP)
}

func generate(rng *rand.Rand, i int) *dataset {
	kinds := []string{"empty", "sparse", "ranges", "borders", "copies", "distinct-blocks", "one-slot", "regions", "full", "dense", "pict", "mixed", "ascii-copies", "last", "supplementary", "lengths"}
	kind := kinds[i%len(kinds)]
	d := newSet(kind)
	val := func() uint8 { return uint8(1 + rng.Intn(14)) }
	logn := func(m int) int { return rng.Intn(1 << rng.Intn(m)) }
	switch kind {
	case "empty":
		if rng.Intn(2) == 0 {
			d.fillConj(somewhere(rng), somewhere(rng), 1)
		}
	case "sparse":
		for k := 1 + logn(10); k > 0; k-- {
			d.brk[somewhere(rng)] = val()
		}
	case "ranges":
		for k := 1 + logn(9); k > 0; k-- {
			lo := somewhere(rng)
			d.fill(lo, lo+logn(18), val())
		}
	case "borders":
		for _, b := range borders {
			if rng.Intn(2) == 0 {
				d.fill(b-rng.Intn(3), b+rng.Intn(3), val())
			}
		}
	case "copies":
		blk := make([]uint8, 64)
		for k := range blk {
			blk[k] = uint8(rng.Intn(15))
		}
		for k := 1 + logn(11); k > 0; k-- {
			b := rng.Intn(maxCP / 64)
			copy(d.brk[b*64:], blk)
			if rng.Intn(8) == 0 {
				d.brk[b*64+rng.Intn(64)] = val()
			}
		}
	case "distinct-blocks":
		n := []int{10, 250, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 1100, 2000, 4100}[rng.Intn(13)]
		start := rng.Intn(maxCP/64 - n)
		for b := 0; b < n; b++ {
			for k, x := 0, b+1; x > 0; k, x = k+1, x/15 {
				d.brk[(start+b)*64+(k*7)%64] = uint8(x % 15)
			}
		}
	case "one-slot":
		base := make([]uint8, 64)
		for k := range base {
			base[k] = uint8(rng.Intn(3))
		}
		start := rng.Intn(maxCP/64 - 70)
		for b := 0; b < 66; b++ {
			copy(d.brk[(start+b)*64:], base)
			if b < 64 {
				d.brk[(start+b)*64+b] = uint8(3 + rng.Intn(12))
			}
		}
	case "regions":
		src := rng.Intn(200) * 4096
		for k := 1 + logn(8); k > 0; k-- {
			lo := src + rng.Intn(4096)
			d.fill(lo, min(lo+logn(10), src+4095), val())
		}
		for k := 1 + rng.Intn(6); k > 0; k-- {
			dst := rng.Intn(272) * 4096
			copy(d.brk[dst:dst+4096], append([]uint8{}, d.brk[src:src+4096]...))
			if rng.Intn(3) == 0 {
				d.brk[dst+rng.Intn(4096)] = val()
			}
		}
	case "full":
		d.fill(0, maxCP-1, val())
		for k := rng.Intn(4); k > 0; k-- {
			lo := somewhere(rng)
			d.fill(lo, lo+logn(16), 0)
		}
	case "dense":
		lo := rng.Intn(maxCP - 70000)
		for c := lo; c < lo+70000; c++ {
			d.brk[c] = uint8(rng.Intn(15))
		}
	case "pict":
		for k := 1 + logn(9); k > 0; k-- {
			lo := somewhere(rng)
			d.fill(lo, lo+logn(14), pict)
		}
	case "mixed":
		for k := 1 + logn(10); k > 0; k-- {
			lo := somewhere(rng)
			d.fill(lo, lo+logn(12), uint8(rng.Intn(15)))
		}
	case "ascii-copies":
		for c := 0; c < 128; c++ {
			if rng.Intn(3) == 0 {
				d.brk[c] = val()
			}
		}
		for k := 1 + logn(8); k > 0; k-- {
			b := rng.Intn(maxCP / 64)
			s := rng.Intn(2) * 64
			copy(d.brk[b*64:b*64+64], append([]uint8{}, d.brk[s:s+64]...))
		}
	case "last":
		d.brk[maxCP-1] = val()
		d.brk[[]int{0xffff, 0x7ff, 0x7f, 0x10000, 0x800, 0x80}[rng.Intn(6)]] = val()
	case "lengths":
		// Long ranges, which end at every place within a block, one after another.
		values := []uint8{uint8(1 + rng.Intn(14)), []uint8{0, uint8(1 + rng.Intn(14))}[rng.Intn(2)]}
		conjs := []uint8{uint8(1 + rng.Intn(3)), uint8(rng.Intn(4))}
		which := (i / len(kinds)) % 3
		lo, size := rng.Intn(100), []int{300, 2000, 5000, 9000, 17000}[rng.Intn(5)]
		for k, at := range rng.Perm(64) {
			hi := lo + size - rng.Intn(1+size/3)
			hi = min(hi&^63+at, maxCP-1)
			if lo > hi {
				break
			}
			switch {
			case which == 0:
				d.fill(lo, hi, values[k%2])
			case which == 1 && k%2 == 0:
				d.fill(lo, hi, pict)
			case which == 2:
				d.fillConj(lo, hi, conjs[k%2])
			}
			lo = hi + 1
		}
		return d
	case "supplementary":
		for k := 1 + logn(8); k > 0; k-- {
			p := 1 + rng.Intn(16)
			lo := p<<16 + rng.Intn(1<<16)
			d.fill(lo, lo+logn(13), val())
		}
	}
	// conjunct values on top of (and beside) whatever is there
	if rng.Intn(4) > 0 {
		for k := logn(9); k > 0; k-- {
			lo := somewhere(rng)
			d.fillConj(lo, lo+logn(14), uint8(rng.Intn(4)))
		}
		if rng.Intn(5) == 0 {
			for c := 0; c < maxCP; c++ {
				if d.brk[c] != 0 && d.brk[c]%2 == 0 {
					d.conj[c] = 1 + d.brk[c]%3
				}
			}
		}
	}
	return d
}

func (c *Ctx) refusals(dirFor func() string) {
	rng := c.Rng(77)
	files := []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"}
	suffix := []string{"; CR", "; Extended_Pictographic", "; InCB; Linker"}
	type bad struct {
		what string
		do   func(dir string, k int)
	}
	appendLine := func(mk func() string) func(string, int) {
		return func(dir string, k int) {
			p := filepath.Join(dir, files[k])
			b, err := os.ReadFile(p)
			must(err)
			l := mk() + suffix[k] + "\n"
			if rng.Intn(2) == 0 {
				b = append(b, l...)
			} else {
				b = append([]byte(l), b...)
			}
			must(os.WriteFile(p, b, 0o644))
		}
	}
	konst := func(s string) func() string { return func() string { return s } }
	bads := []bad{
		{"missing file", func(dir string, k int) { must(os.Remove(filepath.Join(dir, files[k]))) }},
		{"a directory in place of the file", func(dir string, k int) {
			must(os.Remove(filepath.Join(dir, files[k])))
			must(os.Mkdir(filepath.Join(dir, files[k]), 0o755))
		}},
		{"empty range", appendLine(konst(" "))},
		{"not hexadecimal", appendLine(konst("00G1"))},
		{"signed", appendLine(konst("-0041"))},
		{"prefixed", appendLine(konst("U+0041"))},
		{"bad end", appendLine(konst("0041..00Z1"))},
		{"missing end", appendLine(konst("0041.."))},
		{"missing start", appendLine(konst("..0041"))},
		{"reversed", appendLine(func() string { return fmt.Sprintf("%04X..%04X", 0x500+rng.Intn(9), 0x4ff-rng.Intn(9)) })},
		{"beyond U+10FFFF", appendLine(konst("110000"))},
		{"range beyond U+10FFFF", appendLine(konst("10FFF0..110000"))},
		{"beyond 32 bits", appendLine(konst("100000041"))},
		{"negative as 32 bits", appendLine(konst("FFFFFFFF"))},
	}
	n := int64(0)
	for rep := 0; rep < Pick(c, 1, 6); rep++ {
		for _, b := range bads {
			for k := range files {
				d := generate(rng, 1)
				dir := dirFor()
				d.write(dir, rng)
				b.do(dir, k)
				c.Begin(0, "table generation for malformed data: "+b.what, nil)
				if o := build(dir); o.refused == "" {
					c.Violate("accepted", fmt.Sprintf("%s in %s is accepted", b.what, files[k]), nil, nil)
				}
				c.End(0)
				n++
				must(os.RemoveAll(dir))
			}
		}
		// contradictions: single characters and overlapping ranges
		for t := 0; t < 12; t++ {
			d := generate(rng, []int{1, 2, 3, 11}[t%4])
			dir := dirFor()
			x := somewhere(rng)
			for !utf8.ValidRune(rune(x)) {
				x = somewhere(rng)
			}
			d.brk[x] = uint8(1 + rng.Intn(13))
			d.write(dir, rng)
			lo, hi := x, x
			if t%2 == 0 {
				lo, hi = max(0, x-rng.Intn(5)), min(maxCP-1, x+rng.Intn(5))
			}
			p := filepath.Join(dir, files[1])
			b, err := os.ReadFile(p)
			must(err)
			b = append(b, fmt.Sprintf("%04X..%04X ; Extended_Pictographic# E1.0 [1]\n", lo, hi)...)
			must(os.WriteFile(p, b, 0o644))
			c.Begin(0, "table generation for contradictory data", nil)
			if o := build(dir); o.refused == "" {
				c.Violate("contradiction", fmt.Sprintf("U+%04X is both %s and Extended_Pictographic, and is accepted", x, gcbNames[d.brk[x]-1]), nil, nil)
			}
			c.End(0)
			n++
			must(os.RemoveAll(dir))
		}
		// a very long line is either read correctly or refused
		for k := range files {
			d := generate(rng, 2)
			dir := dirFor()
			d.write(dir, rng)
			p := filepath.Join(dir, files[k])
			b, err := os.ReadFile(p)
			must(err)
			b = append([]byte("# "+strings.Repeat("x", 70000)+"\n"), b...)
			must(os.WriteFile(p, b, 0o644))
			if o := build(dir); o.refused == "" {
				if bad := c.compare(&o.tree, d); bad != "" {
					c.Violate("unfaithful", "after a very long line: "+bad, nil, nil)
				}
			}
			n++
			must(os.RemoveAll(dir))
		}
	}
	c.Add("refusal_cases", n)
}

// mkdata writes data sets with few blocks for the end-to-end runs.
func mkdata(c *Ctx) {
	var cfg struct {
		Dir     string
		N, Skip int
	}
	must(json.Unmarshal([]byte(c.Extra), &cfg))
	for i := 0; i < cfg.N+3; i++ {
		rng := rand.New(rand.NewSource(c.Seed*911 + int64(i+cfg.Skip)))
		kinds := []int{1, 2, 3, 7, 8, 10, 11, 12, 13, 14, 4, 6, 0}
		var d *dataset
		for i < cfg.N {
			d = generate(rng, kinds[(i+cfg.Skip+int(c.Seed)*5)%len(kinds)])
			if blocks(d) <= 200 {
				break
			}
		}
		switch i - cfg.N {
		case 0: // just within a byte's worth of blocks
			d = manyBlocks(rng, 240)
		case 1: // beyond
			d = manyBlocks(rng, 260+rng.Intn(300))
		case 2: // few kinds of blocks, in very many arrangements
			d = manyArrangements(rng)
		}
		dir := filepath.Join(cfg.Dir, fmt.Sprintf("e2e%d", i))
		d.write(filepath.Join(dir, "ucd"), rng)
		var out [][]any
		for lo := 0; lo < maxCP; {
			hi := lo
			for hi+1 < maxCP && d.brk[hi+1] == d.brk[lo] && d.conj[hi+1] == d.conj[lo] {
				hi++
			}
			g, p, j := "", "", ""
			if d.brk[lo] == pict {
				p = "Extended_Pictographic"
			} else if d.brk[lo] > 0 {
				g = gcbNames[d.brk[lo]-1]
			}
			if d.conj[lo] > 0 {
				j = incbNames[d.conj[lo]-1]
			}
			out = append(out, []any{lo, hi, g, p, j})
			lo = hi + 1
		}
		b, err := json.Marshal(map[string]any{"name": d.name, "ranges": out})
		must(err)
		must(os.WriteFile(filepath.Join(dir, "want.json"), b, 0o644))
	}
	c.Add("data_sets", int64(cfg.N))
}

// manyBlocks has n different blocks of 64 characters.
func manyBlocks(rng *rand.Rand, n int) *dataset {
	d := newSet(fmt.Sprintf("%d different blocks", n))
	start := 0x1000 + rng.Intn(0x8000)&^63
	for b := 0; b < n; b++ {
		lo := start + b*64
		d.brk[lo] = uint8(1 + rng.Intn(13))
		for k := 0; k < 10; k++ { // the block's number, in binary
			if b>>k&1 == 1 {
				d.brk[lo+5*k+1] = uint8(1 + rng.Intn(13))
				d.conj[lo+5*k+1] = uint8(rng.Intn(4))
			}
		}
		d.fill(lo+60, lo+63, uint8(rng.Intn(15)))
	}
	return d
}

// manyArrangements arranges two kinds of blocks differently in every 4096
// characters.
func manyArrangements(rng *rand.Rand) *dataset {
	d := newSet("many arrangements of few blocks")
	v, j := uint8(1+rng.Intn(13)), uint8(rng.Intn(4))
	for b := 1; b < maxCP/4096; b++ {
		if b*4096 >= 0xd000 && b*4096 < 0xe000 {
			continue
		}
		for k := 0; k < 9; k++ {
			if b>>k&1 == 1 {
				lo := b*4096 + (7*k+1)*64
				d.fill(lo, lo+63, v)
				d.fillConj(lo, lo+63, j)
			}
		}
	}
	return d
}

func blocks(d *dataset) int {
	m := map[string]bool{}
	for b := 0; b < maxCP/64; b++ {
		m[string(d.brk[b*64:b*64+64])+string(d.conj[b*64:b*64+64])] = true
	}
	return len(m)
}
