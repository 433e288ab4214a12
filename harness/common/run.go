package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed failure of the real code.
type Violation struct {
	Property string         `json:"property"`
	Kind     string         `json:"kind"`
	Detail   string         `json:"detail"`
	DataHex  string         `json:"data_hex,omitempty"`
	Extra    map[string]any `json:"extra,omitempty"`
}

type Ctx struct {
	Prop, Tier string
	Seed       int64
	Out        string
	O          *Oracle
	Extra      string
	tables     string
	ucd        string

	mu      sync.Mutex
	viol    []Violation
	nviol   int64
	stats   map[string]int64
	samples []any
	trace   *os.File
	traceN  int
	current []atomic.Pointer[inflight]
}

type inflight struct {
	data  []byte
	what  string
	since time.Time
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) Rng(stream int) *rand.Rand {
	return rand.New(rand.NewSource(c.Seed*1000003 + int64(stream)))
}

func (c *Ctx) Violate(kind, detail string, data []byte, extra map[string]any) {
	atomic.AddInt64(&c.nviol, 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) >= 20 {
		return
	}
	v := Violation{Property: c.Prop, Kind: kind, Detail: detail, Extra: extra}
	if data != nil {
		if len(data) > 4096 {
			v.DataHex = hex.EncodeToString(data[:4096]) + "..."
		} else {
			v.DataHex = hex.EncodeToString(data)
		}
	}
	c.viol = append(c.viol, v)
}

// Enough says that there is no point in looking further.
func (c *Ctx) Enough() bool { return atomic.LoadInt64(&c.nviol) >= 20 }

func (c *Ctx) Add(name string, n int64) {
	c.mu.Lock()
	c.stats[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Trace appends one event to the trace that TLC validates afterwards.
func (c *Ctx) Trace(ev any) {
	b, err := json.Marshal(ev)
	must(err)
	c.mu.Lock()
	if c.trace == nil {
		c.trace, err = os.Create(c.Out + ".trace.ndjson")
		must(err)
	}
	_, err = c.trace.Write(append(b, '\n'))
	c.traceN++
	c.mu.Unlock()
	must(err)
}

// Begin/End bracket a stretch of work on one input for the hang watchdog.
func (c *Ctx) Begin(worker int, what string, data []byte) {
	c.current[worker].Store(&inflight{data, what, time.Now()})
}
func (c *Ctx) End(worker int) { c.current[worker].Store(nil) }

// hangAfter is how long one piece of work may take: far longer than it can.
func hangAfter(n int) time.Duration { return 90*time.Second + time.Duration(n>>22)*time.Second }

func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		for i := range c.current {
			if f := c.current[i].Load(); f != nil && time.Since(f.since) > hangAfter(len(f.data)) {
				c.Violate("hang", fmt.Sprintf("%s did not finish within %v", f.what, hangAfter(len(f.data))), f.data, nil)
				c.finish()
				os.Exit(0)
			}
		}
	}
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.trace != nil {
		c.trace.Close()
	}
	c.stats["trace_events"] = int64(c.traceN)
	b, err := json.Marshal(map[string]any{"violations": c.viol, "violation_count": c.nviol, "stats": c.stats, "samples": c.samples})
	must(err)
	must(os.WriteFile(c.Out, b, 0o644))
}

func workers() int { return max(2, min(8, runtime.NumCPU())) }

// Parallel runs f(worker, i) for i in [0,n), in chunks.
func (c *Ctx) Parallel(n int, f func(w, i int)) {
	var nextI atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(nextI.Add(1) - 1)
				if i >= n || c.Enough() {
					return
				}
				f(w, i)
			}
		}()
	}
	wg.Wait()
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func Main(cmds map[string]func(*Ctx)) {
	c := &Ctx{stats: map[string]int64{}, current: make([]atomic.Pointer[inflight], 64)}
	flag.StringVar(&c.Prop, "property", "", "")
	flag.StringVar(&c.Tier, "tier", "quick", "")
	flag.Int64Var(&c.Seed, "seed", 1, "")
	flag.StringVar(&c.Out, "out", "", "")
	flag.StringVar(&c.tables, "tables", "", "")
	flag.StringVar(&c.ucd, "ucd", "", "")
	flag.StringVar(&c.Extra, "extra", "", "")
	flag.Parse()
	debug.SetGCPercent(400)
	c.O = LoadOracle(c.tables, c.ucd)
	f := cmds[flag.Arg(0)]
	if f == nil {
		must(fmt.Errorf("unknown command %q", flag.Arg(0)))
	}
	go c.watchdog()
	f(c)
	c.finish()
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	must(err)
	return string(b)
}
