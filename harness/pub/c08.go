package main

import (
	"fmt"
	"runtime/debug"
	"sync"
	"syscall"
	"unsafe"
)

type result struct {
	adv    int
	hasTok bool
	tok    string
	err    bool
}

func call(d []byte, eof bool) (r result, tok []byte, pan any) {
	adv, tok, err, pan := splitAsIs(d, eof)
	return result{adv, tok != nil, string(tok), err != nil}, tok, pan
}

// guarded is memory that is read-only for its first half and inaccessible for
// its second.
func guarded(data []byte) ([]byte, func()) {
	const page = 1 << 14
	m, err := syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	copy(m[page-len(data):], data)
	must(syscall.Mprotect(m[:page], syscall.PROT_READ))
	must(syscall.Mprotect(m[page:], syscall.PROT_NONE))
	// the slice's capacity reaches into the inaccessible half
	d := unsafe.Slice(&m[page-len(data)], len(data)+page)[:len(data)]
	return d, func() { syscall.Munmap(m) }
}

// c08: a call is a function of the presented bytes and flag only.
func c08(c *Ctx) {
	s := c.scratches()[0]
	race := c.Extra == "race"
	type kase struct {
		d    []byte
		want [2]result
	}
	var cases []kase
	N := Pick(c, 12000, 60000)
	if race {
		N /= 4
	}
	ps := pieces(c.O)
	sizes := Sizes(8000)
	const behind = "\u0301\u200d\u0301\u200d\u0301\u200d\u0301"
	for i := 0; i < N; i++ {
		var d []byte
		if i < len(ps)*len(ps) {
			d = append(append(d, ps[i%len(ps)].b...), ps[i/len(ps)].b...)
		} else {
			d = append(d, c.randomInput(s, s.rng.Intn(14))...)
		}
		if i%10 == 9 {
			d = c.sized(s, 1+s.rng.Intn(1<<(3+s.rng.Intn(10))))
			if s.rng.Intn(4) == 0 {
				d = c.sized(s, sizes[s.rng.Intn(len(sizes))])
			}
		}
		// some have memory behind them
		k := kase{d: append(make([]byte, 0, len(d)+i%3*8), d...)}
		copy(k.d[:cap(k.d)][len(d):], behind)
		for e := 0; e < 2; e++ {
			var pan any
			before := string(k.d)
			k.want[e], _, pan = call(k.d[:len(k.d):len(k.d)], e == 1)
			if pan != nil {
				c.Violate("panic", fmt.Sprint(pan), k.d, nil)
			}
			if before != string(k.d) {
				c.Violate("modified", "the presented data was modified", []byte(before), map[string]any{"eof": e == 1})
				copy(k.d, before)
			}
		}
		cases = append(cases, k)
	}
	c.Add("inputs", int64(N))
	bad := func(k kase, e int, got result, how string) {
		c.Violate("impure", fmt.Sprintf("%s: %+v, alone it was %+v (eof=%v)", how, got, k.want[e], e == 1), k.d, nil)
	}
	debug.SetPanicOnFault(true)
	defer func() {
		for _, k := range cases {
			if rest := k.d[:cap(k.d)][len(k.d):]; string(rest[:min(len(rest), len(behind))]) != behind[:min(len(rest), len(behind))] {
				c.Violate("modified", fmt.Sprintf("the memory behind the presented data was modified: % x", rest), k.d, nil)
			}
		}
	}()

	// 1. Any order and history, repeated; both flags in both orders.
	for rep := 0; rep < Pick(c, 3, 10); rep++ {
		for _, i := range s.rng.Perm(len(cases)) {
			e := s.rng.Intn(2)
			got, _, _ := call(cases[i].d, e == 1)
			if got != cases[i].want[e] {
				bad(cases[i], e, got, "after a different history of calls")
			}
			got, _, _ = call(cases[i].d, e == 0)
			if got != cases[i].want[1-e] {
				bad(cases[i], 1-e, got, "right after the other flag on the same buffer")
			}
			if c.Enough() {
				return
			}
		}
		c.Add("history_calls", int64(2*len(cases)))
	}
	// 2. The same buffer with changing contents, followed by foreign bytes that
	// must neither matter nor be touched; previously returned tokens stay.
	shared := make([]byte, 8192)
	type kept struct {
		tok  []byte
		want string
	}
	var keep []kept
	for n := 0; n < Pick(c, 400000, 4000000) && !race; n++ {
		k := cases[s.rng.Intn(len(cases))]
		off := s.rng.Intn(64)
		copy(shared[off:], k.d)
		tail := shared[off+len(k.d) : off+len(k.d)+16]
		switch s.rng.Intn(4) {
		case 0: // a continuation that would change the answer if it were seen
			copy(tail, "\u0301\u200d\U0001F600\u0301x")
		case 1:
			copy(tail, "\r\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n")
		case 2:
			copy(tail, "\x80\x80\x80\x80\xbf\xbf\xbf\xbf\x80\x80\x80\x80\x80\x80\x80\x80")
		default:
			copy(tail, "\U0001F1E6\U0001F1E7\u0915\u094d\u0915")
		}
		before := string(shared[off : off+len(k.d)+16])
		e := s.rng.Intn(2)
		got, _, _ := call(shared[off:off+len(k.d)], e == 1)
		if got != k.want[e] {
			bad(k, e, got, fmt.Sprintf("in a reused buffer at offset %d followed by % x", off, tail))
		}
		if before != string(shared[off:off+len(k.d)+16]) {
			c.Violate("modified", "the call modified the buffer", []byte(before), map[string]any{"presented_bytes": len(k.d), "eof": e == 1})
		}
		if n%16 == 0 {
			own := append([]byte{}, k.d...)
			r, tok, _ := call(own, e == 1)
			if tok != nil {
				keep = append(keep, kept{tok, r.tok})
			}
		}
		if c.Enough() {
			return
		}
	}
	for _, k := range keep {
		if string(k.tok) != k.want {
			c.Violate("token", fmt.Sprintf("a token returned as %q later reads %q", k.want, k.tok), nil, nil)
		}
	}
	c.Add("retained_tokens", int64(len(keep)))
	// 3. Read-only memory that ends where the data ends.
	if !race {
		for n := 0; n < Pick(c, 20000, 100000); n++ {
			k := cases[s.rng.Intn(len(cases))]
			d, free := guarded(k.d)
			for e := 0; e < 2; e++ {
				got, _, pan := call(d, e == 1)
				if pan != nil {
					c.Violate("memory", fmt.Sprintf("in read-only memory with nothing accessible behind it: %v", pan), k.d, map[string]any{"eof": e == 1})
				} else if got != k.want[e] {
					bad(k, e, got, "in read-only memory")
				}
			}
			free()
			if c.Enough() {
				return
			}
		}
		c.Add("guarded_memory_calls", int64(2*Pick(c, 20000, 100000)))
	}
	// 4. Concurrent scanning of shared and of own data.
	rounds := Pick(c, 200, 2000)
	per := 2000
	if race {
		rounds, per = Pick(c, 4, 20), 1000
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		rng := c.Rng(900 + g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			own := make([]byte, 0, 1024)
			for r := 0; r < rounds && !c.Enough(); r++ {
				hot := rng.Intn(len(cases))
				for j := 0; j < per; j++ {
					i := hot
					if j%2 == 0 {
						i = rng.Intn(len(cases))
					}
					k := cases[i]
					d := k.d
					if j%4 == 1 {
						own = append(own[:0], k.d...)
						d = own
					}
					e := rng.Intn(2)
					got, tok, pan := call(d, e == 1)
					if pan != nil {
						c.Violate("panic", fmt.Sprintf("in concurrent use: %v", pan), k.d, nil)
					} else if got != k.want[e] || string(tok) != got.tok {
						bad(k, e, got, "in concurrent use")
					}
				}
			}
			c.Add("concurrent_calls", int64(rounds*per))
		}()
	}
	wg.Wait()
	// 5. The same calls in other orders, in processes of their own.
	if !race {
		c.orders()
	}
	// 6. Recorded interleaved calls for TLC.
	if !race {
		hot := make([]kase, 0, 12)
		for len(hot) < 12 {
			k := cases[s.rng.Intn(len(cases))]
			if len(k.d) <= 24 && len(k.d) > 0 {
				hot = append(hot, k)
			}
		}
		G := 6
		for g := 0; g < G; g++ {
			rng := c.Rng(1900 + g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < Pick(c, 50, 300); j++ {
					k := hot[rng.Intn(len(hot))]
					own := append(make([]byte, 0, len(k.d)+8), k.d...)
					if j%2 == 0 {
						own = k.d
					}
					e := rng.Intn(2)
					c.Trace(map[string]any{"ev": "start", "g": g, "data": ints(own), "eof": e == 1})
					r, tok, _ := call(own, e == 1)
					c.Trace(map[string]any{"ev": "return", "g": g, "data": ints(own), "adv": r.adv, "hasTok": r.hasTok, "tok": ints(tok), "err": r.err})
				}
			}()
		}
		wg.Wait()
	}
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", cases[len(cases)-1].d), "result": fmt.Sprintf("%+v", cases[len(cases)-1].want)})
	c.Sample(map[string]any{"input_hex": fmt.Sprintf("%x", cases[len(cases)/2].d), "result": fmt.Sprintf("%+v", cases[len(cases)/2].want)})
}
