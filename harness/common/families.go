package main

import (
	"encoding/binary"
	"math/rand"
	"sync/atomic"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
)

// Families calls f for texts made of things that occur together in real text,
// and that code may treat specially for that: all short ASCII strings, all
// pairs of characters of one block, all pairs of an ASCII character and one of
// a class of its own, letters of a block with its marks and joiners, Hangul
// syllables, flags, keycaps, emoji sequences. A text has up to group
// of them, each on a line; one in every is taken.
func (c *Ctx) Families(group, every int, f func(w int, rng *rand.Rand, d []byte) bool) {
	o := c.O
	other := uint8(o.ID["Other"])
	ri, zwj, pict := o.ID["RI"], o.ID["ZWJ"], o.ID["ExtPict"]
	var n atomic.Int64
	type job func(emit func(r ...rune))
	var jobs []job
	whole := map[int]bool{} // the jobs of which nothing is left out
	for a := rune(0); a < 128; a++ {
		jobs = append(jobs, func(emit func(r ...rune)) {
			for b := rune(0); b < 128; b++ {
				for x := rune(0); x < 128; x++ {
					emit(a, b, x)
				}
			}
		})
	}
	for b := rune(0); b < 0x110000; b += 128 {
		var special []rune
		for r := b; r < b+128; r++ {
			if o.class[r] != other && utf8.ValidRune(r) {
				special = append(special, r)
			}
		}
		if b < 0x3000 || len(special) > 0 {
			jobs = append(jobs, func(emit func(r ...rune)) {
				for x := b; x < b+128; x++ {
					for y := b; y < b+128; y++ {
						emit(x, y)
					}
				}
			})
		}
		if len(special) > 0 && (b < 0xac00 || b >= 0xd7b0) && b < 0xe1000 {
			jobs = append(jobs, func(emit func(r ...rune)) {
				for _, r := range special {
					for a := rune(0); a < 128; a++ {
						emit(a, r)
						emit(r, a)
					}
				}
			})
		}
	}
	// Within a block: letters around the characters that stack or join them,
	// with the two joiners, and pairs of marks on a letter.
	for b := rune(0); b < 0x20000; b += 128 {
		var marks, letters, links []rune
		for r := b; r < b+128; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			switch {
			case unicode.In(r, unicode.Mn, unicode.Mc) && o.class[r] != other:
				marks = append(marks, r)
				if o.class[r] != uint8(o.ID["SpacingMark"]) {
					links = append(links, r)
				}
			case unicode.IsLetter(r):
				letters = append(letters, r)
			}
		}
		if len(marks) == 0 || len(letters) == 0 || b < 0x300 {
			continue
		}
		jobs = append(jobs, func(emit func(r ...rune)) {
			for i, m := range marks {
				for j, k := range marks {
					a, z := letters[(i*31+j*7)%len(letters)], letters[(i+j*13)%len(letters)]
					emit(a, m, k, z)
					emit(a, marks[(i*7+j*3)%len(marks)], m, k, z)
				}
			}
			for i, v := range links {
				for j, a := range letters {
					for k, z := range letters {
						switch (i + j + k) % 8 {
						case 0:
							emit(a, v, 0x200d, z)
						case 1:
							emit(a, v, 0x200c, z)
						case 2:
							emit(a, 0x200d, v, z)
						default:
							emit(a, v, z)
						}
					}
				}
			}
		})
	}
	// Conjuncts: all pairs of letters of a block around its viramas.
	for _, v := range viramas {
		b := v &^ 127
		jobs = append(jobs, func(emit func(r ...rune)) {
			for a := b; a < b+128; a++ {
				for z := b; unicode.IsLetter(a) && z < b+128; z++ {
					if unicode.IsLetter(z) {
						emit(a, v, z)
					}
				}
			}
		})
		whole[len(jobs)-1] = true
	}
	// Syllables of conjoining jamo, modern and old, and of a syllable and jamo.
	for l := rune(0x1100); l < 0x1160; l++ {
		jobs = append(jobs, func(emit func(r ...rune)) {
			for v := rune(0x1160); v < 0x11a8; v++ {
				emit(l, v)
				emit(l, v, 0xac00+(l&31)*588+(v&15)*28)
				for t := rune(0x11a8); t < 0x1200; t++ {
					emit(l, v, t)
				}
			}
			for t := rune(0x11a8); t < 0x1200; t++ {
				emit(0xac00+(l-0x1100)*28, t)
				emit(0xac00+(l-0x1100)*28+1+t%27, t)
			}
		})
	}
	// Families of three and four, and flags of subdivisions, whole and not.
	jobs = append(jobs, func(emit func(r ...rune)) {
		people := []rune{0x1f468, 0x1f469, 0x1f466, 0x1f467, 0x1f9d1, 0x1f9d2, 0x2764, 0x1f48b, 0x1f91d, 0x1f3f3, 0x1f308, 0x26a7}
		for _, a := range people {
			for _, b := range people {
				for _, x := range people {
					emit(a, 0x200d, b, 0x200d, x)
					emit(a, 0xfe0f, 0x200d, b, 0x200d, x)
					emit(a, 0x1f3fb+x%5, 0x200d, b, 0x200d, x, 0x1f3fb+b%5)
					emit(a, 0x200d, b, x)
					for _, y := range people[:4] {
						emit(a, 0x200d, b, 0x200d, x, 0x200d, y)
						emit(a, 0x200d, b, 0xfe0f, 0x200d, x, 0x200d, y)
					}
				}
			}
		}
		for _, region := range []string{"gbeng", "gbsct", "gbwls", "ustx", "usca", "gbx", "zz9999"} {
			for _, flag := range []rune{0x1f3f4, 0x1f3f3, 'a'} {
				text := []rune{flag}
				for _, l := range region {
					text = append(text, 0xe0000+l)
				}
				emit(append(text, 0xe007f)...)
				emit(append(text, 0xe007f, 0xe007f)...)
				emit(append(text, 0x200d, 0x1f308)...)
				emit(text...)
				emit(append(text, 0xe007f, 0x200d, 0x2620, 0xfe0f)...)
				emit(append(text, 0xe007f, 0x1f1e6, 0x1f1e8)...)
			}
		}
	})
	ris := o.members[ri][4]
	for _, a := range ris {
		jobs = append(jobs, func(emit func(r ...rune)) {
			for _, b := range ris {
				emit(a, b)
				for _, x := range ris {
					emit(a, b, x)
				}
			}
		})
	}
	picts := append(append([]rune{}, o.members[pict][3]...), o.members[pict][4]...)
	const per = 100
	for at := 0; at < len(picts); at += per {
		some := picts[at:min(len(picts), at+per)]
		jobs = append(jobs, func(emit func(r ...rune)) {
			for _, p := range some {
				for m := rune(0x1f3fb); m <= 0x1f3ff; m++ {
					emit(p, m)
					emit(p, m, rune(o.members[zwj][3][0]), p, m)
				}
				emit(p, 0xfe0f)
				emit(p, 0xfe0e)
				emit(p, 0xfe0f, 0x20e3)
				for k := 0; k < len(picts); k += 37 {
					emit(p, 0x200d, picts[(k+int(p))%len(picts)])
					emit(p, 0xfe0f, 0x200d, picts[(k+int(p))%len(picts)], 0xfe0f)
				}
			}
		})
	}
	jobs = append(jobs, func(emit func(r ...rune)) {
		for a := rune(0); a < 128; a++ {
			emit(a, 0xfe0f, 0x20e3)
			emit(a, 0x20e3)
			for b := rune(0); b < 128; b++ {
				emit(0x1f3f4, 0xe0000+a, 0xe0000+b, 0xe007f)
			}
		}
	})
	c.Parallel(len(jobs), func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*7919 + int64(i)))
		defer c.End(w)
		var d []byte
		k, stop, all := 0, false, whole[i]
		flush := func() {
			if k > 0 {
				c.Begin(w, "scan", d)
				stop = !f(w, rng, d)
				n.Add(1)
			}
			d, k = d[:0], 0
		}
		size := 1 + rng.Intn(group)
		jobs[i](func(rs ...rune) {
			if stop || every > 1 && !all && rng.Intn(every) > 0 {
				return
			}
			for _, r := range rs {
				if !utf8.ValidRune(r) {
					return
				}
			}
			if k > 0 {
				d = append(d, '\n')
			}
			for _, r := range rs {
				d = appendRune(d, r)
			}
			if k++; k == size {
				flush()
				size = 1 + rng.Intn(group)
			}
		})
		if !stop {
			flush()
		}
	})
	c.Add("texts_of_companions", n.Load())
}

// Foreign calls f for texts in other encodings than UTF-8, as scanners meet
// them: with or without byte order mark, cut off or not.
func (c *Ctx) Foreign(passes int, f func(w int, rng *rand.Rand, d []byte) bool) {
	o := c.O
	const styles = 12
	bom := []string{"\xff\xfe", "\xfe\xff", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "\xef\xbb\xbf"}
	enc := func(d []byte, style int, r rune) []byte {
		switch style {
		case 0:
			for _, u := range utf16.AppendRune(nil, r) {
				d = binary.LittleEndian.AppendUint16(d, u)
			}
		case 1:
			for _, u := range utf16.AppendRune(nil, r) {
				d = binary.BigEndian.AppendUint16(d, u)
			}
		case 2:
			d = binary.LittleEndian.AppendUint32(d, uint32(r))
		case 3:
			d = binary.BigEndian.AppendUint32(d, uint32(r))
		case 4: // UTF-8, with a mark
			d = appendRune(d, r)
		case 5, 6: // CESU-8, and Java's kind
			if r == 0 {
				return append(d, 0xc0, 0x80)
			}
			for _, u := range utf16.AppendRune(nil, r) {
				switch {
				case u < 0x80:
					d = append(d, byte(u))
				case u < 0x800:
					d = append(d, 0xc0|byte(u>>6), 0x80|byte(u&63))
				default:
					d = append(d, 0xe0|byte(u>>12), 0x80|byte(u>>6&63), 0x80|byte(u&63))
				}
			}
		case 7: // one byte each
			d = append(d, byte(r))
		case 8: // twice
			for _, b := range []byte(string(r)) {
				d = appendRune(d, rune(b))
			}
		case 9: // two bytes with the high bit
			if r < 0x80 {
				return append(d, byte(r))
			}
			d = append(d, 0x81+byte(r%0x7e), 0x40+byte(r/0x7e%0xbf))
		case 10: // the old forms of five and six bytes
			if r < 0x10000 {
				return append(d, 0xf8, 0x88|byte(r>>18&3), 0x80|byte(r>>12&63), 0x80|byte(r>>6&63), 0x80|byte(r&63))
			}
			d = append(d, 0xfc, 0x84, 0x80|byte(r>>18&63), 0x80|byte(r>>12&63), 0x80|byte(r>>6&63), 0x80|byte(r&63))
		case 11: // the last byte of each is lost
			if b := []byte(string(r)); len(b) > 1 {
				return append(d, b[:len(b)-1]...)
			}
			d = append(d, byte(r))
		}
		return d
	}
	var n atomic.Int64
	c.Parallel(styles*128*passes, func(w, i int) {
		rng := rand.New(rand.NewSource(c.Seed*6151 + int64(i)))
		defer c.End(w)
		var d []byte
		style, first := i%styles, rune(i/styles%128)
		for k := 0; k < 8; k++ {
			d = d[:0]
			if style < len(bom) && k < 5 {
				d = append(d, bom[style]...)
			} else if k == 5 {
				d = append(d, bom[rng.Intn(len(bom))]...)
			}
			d = enc(d, style, first)
			for l := rng.Intn(12); l > 0; l-- {
				if k < 3 {
					d = enc(d, style, rune(rng.Intn(128)))
				} else {
					d = enc(d, style, o.Rep(rng, o.Classes[rng.Intn(len(o.Classes))]))
				}
			}
			if rng.Intn(4) == 0 && len(d) > 1 {
				d = d[:len(d)-1]
			}
			c.Begin(w, "scan", d)
			if !f(w, rng, d) {
				return
			}
			n.Add(1)
		}
	})
	c.Add("texts_in_other_encodings", n.Load())
}

func appendRune(b []byte, r rune) []byte { return append(b, string(r)...) }

// The characters with canonical combining class 9 (Virama).
var viramas = []rune{0x094d, 0x09cd, 0x0a4d, 0x0acd, 0x0b4d, 0x0bcd, 0x0c4d, 0x0ccd, 0x0d3b, 0x0d3c, 0x0d4d, 0x0dca, 0x0e3a, 0x0eba, 0x0f84, 0x1039, 0x103a,
	0x1714, 0x1715, 0x1734, 0x17d2, 0x1a60, 0x1b44, 0x1baa, 0x1bab, 0x1bf2, 0x1bf3, 0x2d7f, 0xa806, 0xa82c, 0xa8c4, 0xa953, 0xa9c0, 0xaaf6, 0xabed,
	0x10a3f, 0x11046, 0x11070, 0x1107f, 0x110b9, 0x11133, 0x11134, 0x111c0, 0x11235, 0x112ea, 0x1134d, 0x113ce, 0x113cf, 0x113d0, 0x11442, 0x114c2, 0x115bf,
	0x1163f, 0x116b6, 0x1172b, 0x11839, 0x1193d, 0x1193e, 0x119e0, 0x11a34, 0x11a47, 0x11a99, 0x11c3f, 0x11d44, 0x11d45, 0x11d97, 0x1612f}
