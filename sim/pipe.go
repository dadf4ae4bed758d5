//go:build simrace

package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// The other end of standard input: a writer that sends streams in chunks with delays in
// simulated time, each stream closed, or broken by a read error, or (the last) left open.

type pipeChunk struct {
	at   time.Duration // since the start of the run
	data string
	kind string // "data", "close", "error"
}

type pipeSim struct {
	feed  chan pipeChunk
	rest  string // delivered, not yet read
	eintr uint64 // every eintr-th read is interrupted first
	max   int    // longest single read
	reads uint64
	over  bool
	inBub bool
}

func (p *pipeSim) read(fd int, b []byte) (int, error, bool) {
	if fd != 0 || p == nil {
		return 0, nil, false
	}
	if len(b) == 0 {
		return 0, nil, true
	}
	p.reads++
	if p.eintr > 0 && p.reads%p.eintr == 0 {
		return 0, syscall.EINTR, true
	}
	if p.rest == "" {
		ch, ok := <-p.feed
		if !ok { // the run is over
			return 0, syscall.EIO, true
		}
		switch ch.kind {
		case "close":
			return 0, nil, true
		case "error":
			return 0, syscall.EIO, true
		}
		p.rest = ch.data
	}
	if p.max > 0 && len(b) > p.max {
		b = b[:p.max]
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil, true
}

// Statement-level interleaving of the caller and the reading goroutine: at planned
// statements the running goroutine lets the others go first.
var gosched struct {
	on    bool
	pace  uint64
	off   uint64
	count uint64
}

//go:norace
func goschedYield() {
	if !gosched.on {
		return
	}
	gosched.count++
	if gosched.pace > 0 && (gosched.count+gosched.off)%gosched.pace == 0 {
		runtime.Gosched()
	}
}

//go:norace
func goschedSet(on bool, pace, off uint64) {
	gosched.on, gosched.pace, gosched.off, gosched.count = on, pace, off, 0
}

type pipeStream struct {
	data string
	end  time.Duration // when it is complete; never: 1<<62
	bad  bool
}

func genInput(c *Ctx) string {
	switch c.N(6) {
	case 0:
		return ""
	case 1: // not UTF-8
		b := make([]byte, 1+c.N(40))
		for i := range b {
			b[i] = byte(c.N(256))
		}
		return string(b)
	case 2: // more than any buffer
		return strings.Repeat(genString(c, genOpt{})+"wombat\n", 300+c.N(1500))
	}
	a := genAbs(c, newName(c, nil), genOpt{}, 4, 4, concFlat)
	t, err := build(a)
	if err != nil {
		return "x"
	}
	return t.String()
}

type pipeCall struct {
	wait    time.Duration // before the call
	timeout time.Duration // < 0: no timeout
	double  bool          // two callers at once
}

func runPipe(c *Ctx) {
	runtime.SimFixRand(c.U(0))
	gt.SimYield = goschedYield
	ns := 1 + c.N(3)
	var streams []pipeStream
	var feed []pipeChunk
	now := time.Duration(0)
	unit := pick(c, []time.Duration{time.Millisecond, time.Second, time.Microsecond})
	delay := func() time.Duration { return time.Duration(c.N(16)) * unit / 2 }
	for i := 0; i < ns; i++ {
		s := pipeStream{data: genInput(c)}
		rest := s.data
		pieces := c.N(6)
		for k := 0; k < pieces && rest != ""; k++ {
			n := 1 + c.N(len(rest))
			now += delay()
			feed = append(feed, pipeChunk{now, rest[:n], "data"})
			rest = rest[n:]
		}
		if rest != "" {
			now += delay()
			feed = append(feed, pipeChunk{now, rest, "data"})
		}
		now += delay()
		switch c.N(5) {
		case 4:
			s.bad = true
			c.Fault("read error")
			feed = append(feed, pipeChunk{now, "", "error"})
		case 3:
			if i == ns-1 {
				c.Fault("writer never closes")
				s.end = 1 << 62
				break
			}
			fallthrough
		default:
			feed = append(feed, pipeChunk{now, "", "close"})
		}
		if s.end == 0 {
			s.end = now
		}
		streams = append(streams, s)
	}
	p := &pipeSim{feed: nil}
	if c.N(3) == 0 {
		p.max = 1 + c.N(64)
		c.Fault("short read")
	}
	if c.N(3) == 0 {
		p.eintr = 2 + c.U(5)
		c.Fault("read interrupted (EINTR)")
	}
	var calls []pipeCall
	c.Plan(1, 5)
	for c.Step() {
		k := pipeCall{wait: time.Duration(c.N(30)) * unit / 2, timeout: time.Duration(c.N(60)) * unit / 2}
		if c.N(2) == 0 {
			k.timeout++ // no tie
		}
		if c.N(8) == 0 {
			k.timeout = -1
		}
		k.double = c.N(6) == 0
		calls = append(calls, k)
	}
	pace, off := c.U(6), c.U(50)
	type outcome struct {
		start, end time.Duration
		call       pipeCall
		s          string
		err        error
	}
	var outs [][]outcome
	var mu sync.Mutex
	panicked := ""
	errs := raceErrors()
	var simEnd time.Duration
	gc := debug.SetGCPercent(-1) // the collector would move goroutines about; unless memory gets short
	limit := debug.SetMemoryLimit(768 << 20)
	runtime.SimStill(true)
	dead, _ := Try(func() {
		synctest.SimRun(func() {
			p.feed = make(chan pipeChunk, len(feed)) // a pipe that holds everything
			syscall.SimRead = p.read
			goschedSet(true, pace, off)
			t0 := time.Now()
			stop := make(chan struct{})
			go func() { // the writer
				for _, ch := range feed {
					select {
					case <-time.After(time.Until(t0.Add(ch.at))):
						p.feed <- ch
					case <-stop:
						return
					}
				}
			}()
			one := func(k pipeCall) (o outcome) {
				o.call, o.start = k, time.Since(t0)
				pv, st := Try(func() {
					if k.timeout < 0 {
						o.s, o.err = gt.UtilGulpFromPipe()
					} else {
						o.s, o.err = gt.UtilGulpFromPipeWithTimeout(k.timeout)
					}
				})
				o.end = time.Since(t0)
				if pv != nil {
					mu.Lock()
					panicked = fmt.Sprintf("%v\n%s", pv, trimStack(st))
					mu.Unlock()
				}
				return
			}
			for _, k := range calls {
				time.Sleep(k.wait)
				if k.timeout < 0 {
					// Only when there is something that will end.
					last := streams[len(streams)-1]
					if last.end == 1<<62 || last.end <= time.Since(t0) {
						k.timeout = 0
					}
					k.double = false
				}
				n := 1
				if k.double {
					n = 2
				}
				res := make([]outcome, n)
				var wg sync.WaitGroup
				for j := 1; j < n; j++ {
					wg.Add(1)
					go func() { defer wg.Done(); res[j] = one(k) }()
				}
				res[0] = one(k)
				wg.Wait()
				// A reader that has timed out must let the program work on.
				gt.IsValidColName("x")
				outs = append(outs, res)
			}
			simEnd = time.Since(t0)
			close(stop)
			synctest.Wait()
			goschedSet(false, 0, 0)
			close(p.feed)
			gt.UtilGulpFromPipe() // takes what is left (or an error)
			synctest.Wait()
		})
	})
	runtime.SimStill(false)
	debug.SetMemoryLimit(limit)
	debug.SetGCPercent(gc)
	syscall.SimRead = nil
	c.SimTime += simEnd
	c.Ops += int64(len(calls))

	// The reference: streams are handed out one after the other.
	describe := func() string {
		var b strings.Builder
		for _, ch := range feed {
			fmt.Fprintf(&b, "at %v the writer: %s %q\n", ch.at, ch.kind, head(ch.data, 60))
		}
		for _, os := range outs {
			for _, o := range os {
				fmt.Fprintf(&b, "at %v a call with timeout %v returned at %v: %d bytes %q, error %v\n", o.start, o.call.timeout, o.end, len(o.s), head(o.s, 60), o.err)
			}
		}
		return b.String()
	}
	if dead != nil {
		c.Fail("blocked for ever", "%v\n%s", dead, describe())
	}
	if panicked != "" {
		c.Fail("panic", "%s\n%s", panicked, describe())
	}
	if raceErrors() != errs {
		sig, text := raceReport()
		c.Fail("data race "+sig, "%s\n%s", text, describe())
	}
	next, ambiguous := 0, false
	stream := func(i int) pipeStream {
		if i < len(streams) {
			return streams[i]
		}
		return pipeStream{end: 1 << 62}
	}
	// judge checks one call against the stream it should have got: sig is "" if it is right
	// in the way asked for (with the stream complete, or timed out).
	judge := func(o outcome, cur pipeStream) (sig, msg string, ways []bool) {
		limit := o.start + o.call.timeout
		never := o.call.timeout < 0
		at := max(cur.end, o.start)
		complete := func() (string, string) {
			switch {
			case o.end != at:
				return "returns at the wrong time", fmt.Sprintf("returned at %v, the input was complete at %v", o.end, at)
			case cur.bad && o.err == nil:
				return "read error not reported", fmt.Sprintf("reading fails but the call returns %q and no error", head(o.s, 60))
			case !cur.bad && o.err != nil:
				return "complete input refused", fmt.Sprintf("the input was complete at %v but: %v", cur.end, o.err)
			case !cur.bad && o.s != cur.data:
				return "input not delivered whole", firstDiff(cur.data, o.s)
			}
			return "", ""
		}
		timeout := func() (string, string) {
			switch {
			case o.err == nil:
				return "no timeout error", "the input is not complete before the timeout but there is no error"
			case o.end != limit:
				return "timeout at the wrong time", fmt.Sprintf("returned at %v, should be %v", o.end, limit)
			case o.s != "":
				return "a timeout with input", fmt.Sprintf("%q along with %v", head(o.s, 60), o.err)
			}
			return "", ""
		}
		if never || at <= limit {
			if sig, msg = complete(); sig == "" {
				ways = append(ways, true)
			}
		}
		if !never && at >= limit {
			s, m := timeout()
			if s == "" {
				ways = append(ways, false)
			} else if sig == "" && ways == nil {
				sig, msg = s, m
			}
		}
		if at == limit { // complete exactly at the timeout: either is right
			ambiguous = true
			c.Probe("input complete exactly at the timeout")
		}
		return
	}
	possible := map[int]bool{0: true} // how many streams may have been handed out
	for ci, os := range outs {
		after := map[int]bool{}
		sig, msg := "", ""
		note := func(s, m string) {
			if sig == "" {
				sig, msg = s, m
			}
		}
		for n := 0; n <= len(streams); n++ {
			if !possible[n] {
				continue
			}
			cur := stream(n)
			s0, m0, w0 := judge(os[0], cur)
			note(s0, m0)
			if len(os) == 1 {
				for _, w := range w0 {
					after[n+btoi(w)] = true
				}
				continue
			}
			// Two at once: both wait for the same input...
			s1, m1, w1 := judge(os[1], cur)
			note(s1, m1)
			for _, x := range w0 {
				for _, y := range w1 {
					after[n+btoi(x || y)] = true
				}
			}
			// ... or one begins after the other has had its input.
			if cur.end <= os[0].start {
				for k := 0; k < 2; k++ {
					_, _, wa := judge(os[k], cur)
					_, _, wb := judge(os[1-k], stream(n+1))
					for _, x := range wa {
						for _, y := range wb {
							if x {
								after[n+1+btoi(y)] = true
							}
						}
					}
				}
			}
		}
		if len(after) == 0 {
			c.Fail(sig, "call %d (at %v, timeout %v): %s\n%s", ci, os[0].start, os[0].call.timeout, msg, describe())
		}
		switch {
		case len(after) > 1:
		case after[len(streams)] && !possible[len(streams)] && streams[len(streams)-1].bad:
			c.Probe("read error reported")
		case len(possible) == 1 && sameKeys(after, possible):
			c.Probe("timeout")
		default:
			c.Probe("input complete")
		}
		possible = after
	}
	next = len(possible)
	if !ambiguous {
		c.Ev("%s", describe())
	}
	c.Nontriv = len(feed) > 1
	c.State(hashStr(uint64(next), fmt.Sprint(len(calls), ns, len(feed), p.max > 0, p.eintr, ambiguous)))
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sameKeys(a, b map[int]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func init() {
	register(&PropDef{ID: "P19", Mode: "race", Quick: 60000, Thorough: 4000000, Batch: 500, Hang: 20 * time.Second,
		Run:  runPipe,
		Rule: "a writer sends seeded streams in seeded chunks and delays; a client calls the gulp functions with seeded timeouts, one after another and two at once",
		Real: "UtilGulpFromPipe, UtilGulpFromPipeWithTimeout, os.Stdin, goroutines, channels, the Go race detector",
		Stub: "the read system call on descriptor 0, time (a synctest bubble), which goroutine goes first at statements",
	})
	_ = os.Stdin
}
