package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// ---------------------------------------------------------------- choices

// Choices is everything the simulator decided in one run: the choices made while
// setting up, those of each step, those after the last step, and (concurrent worlds)
// the points at which the scheduler switched goroutines.
type Choices struct {
	Setup []uint64   `json:"setup"`
	Steps [][]uint64 `json:"steps"`
	Tail  []uint64   `json:"tail"`
}

func (ch *Choices) clone() *Choices {
	n := &Choices{Setup: append([]uint64(nil), ch.Setup...), Tail: append([]uint64(nil), ch.Tail...)}
	for _, s := range ch.Steps {
		n.Steps = append(n.Steps, append([]uint64(nil), s...))
	}
	return n
}

func (ch *Choices) size() (n int) {
	n = len(ch.Setup) + len(ch.Tail)
	for _, s := range ch.Steps {
		n += len(s) + 1
	}
	return
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

func hashStr(h uint64, s string) uint64 {
	h ^= 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return mix(h, uint64(len(s)))
}

// ---------------------------------------------------------------- run context

type Violation struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

type runEnd struct{ why string }

// Ctx is one simulated run.
type Ctx struct {
	Prop string
	Tier string
	Seed uint64
	Run  uint64

	sets   []keptSet
	gen    *rng // nil: replaying
	replay *Choices
	Rec    Choices
	where  int // 0 setup, 1 steps, 2 tail
	pos    int
	left   int

	tracing bool
	Trace   []string
	hash    uint64
	nEv     int

	Faults  map[string]int64
	Probes  map[string]int64
	Known   map[string]int64
	States  map[uint64]struct{}
	SimTime time.Duration
	Ops     int64
	Aband   string
	Nontriv bool

	cleanup []func()

	play    []uint64 // choices being played back (a replicated operation)
	playing bool
	capt    *[]uint64
}

// Capture runs f and returns the choices it drew.
func (c *Ctx) Capture(f func()) []uint64 {
	var got []uint64
	c.capt = &got
	f()
	c.capt = nil
	return got
}

// Playback runs f with the given choices instead of new ones.
func (c *Ctx) Playback(choices []uint64, f func()) {
	c.play, c.playing = choices, true
	defer func() { c.playing = false }()
	f()
}

func newCtx(prop, tier string, seed, run uint64, replay *Choices, tracing bool) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Run: run, replay: replay, tracing: tracing,
		Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}, States: map[uint64]struct{}{}}
	base := mix(mix(hashStr(0, prop), seed), run)
	if replay == nil {
		c.gen = &rng{s: base}
	}
	c.hash = 0x1234
	return c
}

func (c *Ctx) runtimeSeed() uint64 { return mix(mix(hashStr(7, c.Prop), c.Seed), c.Run^0x5555) }

// N returns a choice in [0,n). Choice 0 is meant to be the simplest.
func (c *Ctx) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.U(uint64(n)))
}

func (c *Ctx) U(n uint64) uint64 {
	var v uint64
	if c.playing {
		if len(c.play) > 0 {
			v, c.play = c.play[0], c.play[1:]
			if n != 0 {
				v %= n
			}
		}
		return v
	}
	if c.gen != nil {
		v = c.gen.next()
		if n != 0 {
			v %= n
		}
	} else {
		var src []uint64
		switch c.where {
		case 0:
			src = c.replay.Setup
		case 1:
			if k := len(c.Rec.Steps) - 1; k < len(c.replay.Steps) {
				src = c.replay.Steps[k]
			}
		case 2:
			src = c.replay.Tail
		}
		if c.pos < len(src) {
			v = src[c.pos]
			if n != 0 {
				v %= n
			}
		}
		c.pos++
	}
	if c.capt != nil {
		*c.capt = append(*c.capt, v)
	}
	switch c.where {
	case 0:
		c.Rec.Setup = append(c.Rec.Setup, v)
	case 1:
		k := len(c.Rec.Steps) - 1
		c.Rec.Steps[k] = append(c.Rec.Steps[k], v)
	case 2:
		c.Rec.Tail = append(c.Rec.Tail, v)
	}
	return v
}

// Chance is true in num of den cases; false is the simple outcome.
func (c *Ctx) Chance(num, den int) bool { return c.N(den) >= den-num }

// Range returns a value in [lo,hi].
func (c *Ctx) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + c.N(hi-lo+1)
}

func pick[T any](c *Ctx, xs []T) T { return xs[c.N(len(xs))] }

// Weighted picks an index with the given weights.
func (c *Ctx) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Plan fixes how many steps a generated run takes (a replayed run takes as many as it has).
func (c *Ctx) Plan(lo, hi int) {
	if c.gen != nil {
		c.left = lo + int(c.gen.next()%uint64(hi-lo+1))
	} else {
		c.left = len(c.replay.Steps)
	}
}

// Step moves to the next step, or to the tail.
func (c *Ctx) Step() bool {
	c.pos = 0
	if c.left <= 0 {
		c.where = 2
		return false
	}
	c.left--
	c.where = 1
	c.Rec.Steps = append(c.Rec.Steps, nil)
	return true
}

var dumpRun = os.Getenv("SIM_DUMP")

// Ev records an event: it enters the run's hash, and the trace when one is kept.
func (c *Ctx) Ev(format string, args ...interface{}) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	c.nEv++
	c.hash = hashStr(c.hash, s)
	if dumpRun == fmt.Sprint(c.Run) { // a development aid
		fmt.Fprintf(os.Stderr, "DUMP %s\n", s)
	}
	if c.tracing {
		if len(s) > 1500 {
			s = s[:1500] + fmt.Sprintf("... (%d bytes)", len(s))
		}
		c.Trace = append(c.Trace, s)
	}
}

func (c *Ctx) Fault(kind string) { c.Faults[kind]++ }
func (c *Ctx) Probe(name string) { c.Probes[name]++ }
func (c *Ctx) State(h uint64) {
	if len(c.States) < 512 {
		c.States[h] = struct{}{}
	}
}

// Fail ends the run with a violation, unless it is a listed finding.
func (c *Ctx) Fail(sig, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if survey(sig, msg) || isKnown(c.Prop, sig) {
		c.Known[sig]++
		panic(runEnd{"known finding"})
	}
	panic(&Violation{Sig: sig, Msg: msg})
}

// Abandon ends the run without a verdict (counted).
func (c *Ctx) Abandon(why string) {
	c.Aband = why
	panic(runEnd{why})
}

func (c *Ctx) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

// Try calls f and returns the panic value and stack, if it panicked.
// Simulator panics pass through.
func Try(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *Violation, runEnd:
				panic(r)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// panicSite names the first gotables function in a panic's stack.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "urban-wombat/gotables.") {
			f := l[strings.Index(l, "gotables.")+len("gotables."):]
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
	}
	return ""
}

func panicClass(p interface{}) string {
	s := fmt.Sprint(p)
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			if len(out) == 0 || out[len(out)-1] != '#' {
				out = append(out, '#')
			}
			continue
		}
		out = append(out, s[i])
	}
	if len(out) > 80 {
		out = out[:80]
	}
	return string(out)
}

type RunResult struct {
	Run     uint64
	Hash    uint64
	Viol    *Violation
	Harness string // a fault of the harness itself
	C       *Ctx
}

func runOne(def *PropDef, tier string, seed, run uint64, replay *Choices, tracing bool) (res RunResult) {
	c := newCtx(def.ID, tier, seed, run, replay, tracing)
	res.Run, res.C = run, c
	simSeedRuntime(c.runtimeSeed())
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case *Violation:
					res.Viol = v
				case runEnd:
				default:
					st := string(debug.Stack())
					if site := panicSite(st); site != "" {
						sig := "panic in " + site + ": " + panicClass(r)
						if survey(sig, fmt.Sprintf("%v\n%s", r, trimStack(st))) || isKnown(def.ID, sig) {
							c.Known[sig]++
						} else {
							res.Viol = &Violation{Sig: sig, Msg: fmt.Sprintf("the library panicked: %v\n%s", r, trimStack(st))}
						}
					} else {
						res.Harness = fmt.Sprintf("%v\n%s", r, st)
					}
				}
			}
		}()
		def.Run(c)
	}()
	for i := len(c.cleanup) - 1; i >= 0; i-- {
		c.cleanup[i]()
	}
	if res.Viol != nil {
		c.Ev("VIOLATION %s", res.Viol.Sig)
	}
	res.Hash = c.hash
	return
}

func trimStack(st string) string {
	l := strings.Split(st, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func simSeedRuntime(s uint64) { runtime.SimSeedRand(s) }

// ---------------------------------------------------------------- findings

type finding struct{ prop, sig, what string }

var findings []finding

// loadFindings reads lines "known: property=P01 sig=<signature> :: <what fails>".
func loadFindings(path string) error {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		sp := strings.SplitN(l, " sig=", 2)
		if len(sp) != 2 {
			return fmt.Errorf("bad findings line: %s", l)
		}
		rest := strings.SplitN(sp[1], " :: ", 2)
		if len(rest) != 2 {
			return fmt.Errorf("bad findings line: %s", l)
		}
		findings = append(findings, finding{strings.TrimSpace(sp[0]), rest[0], rest[1]})
	}
	return nil
}

// survey, a development aid: with SIM_SURVEY naming a directory, one sample of each
// different violation goes to a file there and the search carries on.
func survey(sig, msg string) bool {
	dir := os.Getenv("SIM_SURVEY")
	if dir == "" {
		return false
	}
	name := fmt.Sprintf("%s/%016x", dir, hashStr(0, sig))
	f, err := os.OpenFile(name, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
	if err == nil {
		fmt.Fprintf(f, "%s\n%s\n", sig, msg)
		f.Close()
	}
	return true
}

func isKnown(prop, sig string) bool {
	for _, f := range findings {
		if f.prop == prop && f.sig == sig {
			return true
		}
	}
	return false
}

type PropDef struct {
	ID       string
	Mode     string // "plain" or "race"
	Run      func(c *Ctx)
	Quick    int // runs
	Thorough int
	Batch    int // runs per worker process
	Rule     string
	Real     string
	Stub     string
	Assume   []string
	Hang     time.Duration
}

var props = map[string]*PropDef{}

func register(d *PropDef) { props[d.ID] = d }
