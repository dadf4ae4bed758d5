package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- worker side

type wireRun struct {
	Run     uint64     `json:"run"`
	Hash    uint64     `json:"hash"`
	Viol    *Violation `json:"viol,omitempty"`
	Harness string     `json:"harness,omitempty"`
	Choices *Choices   `json:"choices,omitempty"`
	Trace   []string   `json:"trace,omitempty"`
}

type wireSummary struct {
	Hashes  []uint64         `json:"hashes"`
	Runs    int64            `json:"runs"`
	Ops     int64            `json:"ops"`
	Faults  map[string]int64 `json:"faults"`
	Probes  map[string]int64 `json:"probes"`
	Known   map[string]int64 `json:"known"`
	Aband   map[string]int64 `json:"aband"`
	States  []uint64         `json:"states"`
	SimNs   int64            `json:"simns"`
	Events  int64            `json:"events"`
	Nontriv []uint64         `json:"nontriv"` // hashes of non-trivial runs
	Sample  []string         `json:"sample,omitempty"`
}

var wire *bufio.Writer

func wireOut(tag string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	wire.WriteString(tag)
	wire.WriteByte(' ')
	wire.Write(b)
	wire.WriteByte('\n')
	wire.Flush()
}

var realOut *os.File

func workerSetup(def *PropDef) {
	wire = bufio.NewWriter(os.NewFile(3, "wire"))
	devnull, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	syscall.Dup2(int(devnull.Fd()), 0)
	syscall.Dup2(int(devnull.Fd()), 1)
	devnull.Close()
	debug.SetMaxStack(64 << 20)
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(400)
	startWatchdog(def)
}

var watchMu sync.Mutex
var watchStart time.Time
var watchOn bool
var watchCPU time.Duration

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// startWatchdog ends the process when one run takes absurdly long in real time: on a busy machine, only
// when it has also used that much processor time, or waits for ever.
func startWatchdog(def *PropDef) {
	limit := def.Hang
	if limit == 0 {
		limit = 60 * time.Second
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			watchMu.Lock()
			on, st, cpu := watchOn, watchStart, watchCPU
			watchMu.Unlock()
			if wall := time.Since(st); on && wall > limit && (cpuTime()-cpu > limit || wall > 3*limit) {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "fatal error: simulated run hangs\n%s\n", buf[:n])
				os.Exit(97)
			}
		}
	}()
}

// slowRun (SIM_SLOW, say 2s) notes in the file SIM_SLOW_LOG the runs that take longer.
var slowRun, _ = time.ParseDuration(os.Getenv("SIM_SLOW"))

func watch(on bool) {
	watchMu.Lock()
	if !on && slowRun > 0 && time.Since(watchStart) > slowRun {
		if f, err := os.OpenFile(os.Getenv("SIM_SLOW_LOG"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644); err == nil {
			fmt.Fprintf(f, "%s %v\n", os.Args[2], time.Since(watchStart))
			f.Close()
		}
	}
	watchOn, watchStart, watchCPU = on, time.Now(), cpuTime()
	watchMu.Unlock()
}

func workerMain(args []string) {
	def := props[args[0]]
	tier := args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	start, _ := strconv.ParseUint(args[3], 10, 64)
	count, _ := strconv.ParseUint(args[4], 10, 64)
	workerSetup(def)
	sum := wireSummary{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}, Aband: map[string]int64{}}
	states := map[uint64]struct{}{}
	for i := start; i < start+count; i++ {
		fmt.Fprintf(wire, "b %d\n", i)
		wire.Flush()
		watch(true)
		res := runOne(def, tier, seed, i, nil, i == start && start == 0)
		watch(false)
		c := res.C
		sum.Hashes = append(sum.Hashes, res.Hash)
		sum.Runs++
		sum.Ops += c.Ops
		sum.SimNs += int64(c.SimTime)
		sum.Events += int64(c.nEv)
		for k, v := range c.Faults {
			sum.Faults[k] += v
		}
		for k, v := range c.Probes {
			sum.Probes[k] += v
		}
		for k, v := range c.Known {
			sum.Known[k] += v
		}
		if c.Aband != "" {
			sum.Aband[c.Aband]++
		}
		if c.Nontriv {
			sum.Nontriv = append(sum.Nontriv, res.Hash)
		}
		for k := range c.States {
			states[k] = struct{}{}
		}
		if i == start && start == 0 {
			sum.Sample = c.Trace
			if len(sum.Sample) > 40 {
				sum.Sample = sum.Sample[:40]
			}
		}
		if res.Viol != nil || res.Harness != "" {
			wireOut("v", wireRun{Run: i, Hash: res.Hash, Viol: res.Viol, Harness: res.Harness, Choices: &c.Rec})
			break
		}
	}
	for k := range states {
		sum.States = append(sum.States, k)
	}
	sort.Slice(sum.States, func(i, j int) bool { return sum.States[i] < sum.States[j] })
	wireOut("s", sum)
	workerExit()
}

// Replay is the replay file.
type Replay struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Seed     uint64    `json:"seed"`
	Run      uint64    `json:"run"`
	Prefix   uint64    `json:"prefix_runs"` // runs executed before, in the same process (state carried over)
	Sig      string    `json:"signature"`
	Msg      string    `json:"message"`
	Generate bool      `json:"generate,omitempty"` // regenerate the choices from the seed (process-killing runs)
	Choices  *Choices  `json:"choices"`
	Trace    []string  `json:"trace,omitempty"`
	Info     []string  `json:"info,omitempty"`
	Hash     uint64    `json:"event_hash"`
	Limits   *struct{} `json:"-"`
}

func oneMain(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		panic(err)
	}
	def := props[rp.Property]
	workerSetup(def)
	for i := rp.Run - rp.Prefix; i < rp.Run; i++ {
		watch(true)
		res := runOne(def, rp.Tier, rp.Seed, i, nil, false)
		watch(false)
		if res.Viol != nil || res.Harness != "" {
			wireOut("v", wireRun{Run: i, Hash: res.Hash, Viol: res.Viol, Harness: res.Harness, Choices: &res.C.Rec})
			workerExit()
		}
	}
	ch := rp.Choices
	if rp.Generate {
		ch = nil
	}
	fmt.Fprintf(wire, "b %d\n", rp.Run)
	wire.Flush()
	watch(true)
	res := runOne(def, rp.Tier, rp.Seed, rp.Run, ch, true)
	watch(false)
	wireOut("v", wireRun{Run: rp.Run, Hash: res.Hash, Viol: res.Viol, Harness: res.Harness, Choices: &res.C.Rec, Trace: res.C.Trace})
	workerExit()
}

func workerExit() {
	wire.Flush()
	os.Exit(0)
}

// ---------------------------------------------------------------- parent side

type batchResult struct {
	start, count uint64
	sum          *wireSummary
	v            *wireRun
	crash        string // the process died: why
	crashRun     uint64
	stderr       string
}

var scratch string

func childEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "TZ=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "TZ=Australia/Sydney", "GOTRACEBACK=all", "SIM_SCRATCH="+scratch,
		"GORACE=log_path="+filepath.Join(scratch, "race")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 history_size=5")
	if raceEnabled {
		env = append(env, "GOMAXPROCS=1")
	} else {
		env = append(env, "GOMAXPROCS=2")
	}
	return env
}

func runChild(timeout time.Duration, args ...string) (lines []string, crash string, stderr string) {
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	cmd.Env = childEnv()
	r, w, err := os.Pipe()
	if err != nil {
		fatal("pipe: %v", err)
	}
	cmd.ExtraFiles = []*os.File{w}
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{b: &eb, n: 1 << 16}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fatal("cannot start worker: %v", err)
	}
	w.Close()
	timer := time.AfterFunc(timeout, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 256<<20)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	r.Close()
	werr := cmd.Wait()
	timedOut := !timer.Stop()
	stderr = eb.String()
	if werr != nil {
		crash = firstFatal(stderr)
		if crash == "" {
			crash = "worker died: " + werr.Error()
		}
		if timedOut {
			crash = "timeout: the worker process did not finish"
		}
	}
	return
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if len(p) > k {
			l.b.Write(p[:k])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.Contains(l, "unexpected fault address") {
			return panicClass(l)
		}
	}
	return ""
}

func runBatch(def *PropDef, tier string, seed, start, count uint64) (br batchResult) {
	br.start, br.count = start, count
	lines, crash, stderr := runChild(15*time.Minute, "worker", def.ID, tier, fmt.Sprint(seed), fmt.Sprint(start), fmt.Sprint(count))
	br.stderr = stderr
	last := start
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "b "):
			last, _ = strconv.ParseUint(l[2:], 10, 64)
		case strings.HasPrefix(l, "v "):
			var w wireRun
			if err := json.Unmarshal([]byte(l[2:]), &w); err != nil {
				fatal("bad line from worker: %v", err)
			}
			br.v = &w
		case strings.HasPrefix(l, "s "):
			var s wireSummary
			if err := json.Unmarshal([]byte(l[2:]), &s); err != nil {
				fatal("bad line from worker: %v", err)
			}
			br.sum = &s
		}
	}
	if br.sum == nil && crash == "" {
		crash = "worker ended early (exit called?)"
	}
	if br.sum == nil {
		br.crash, br.crashRun = crash, last
	}
	return
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", args...)
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	os.Exit(2)
}

var candN int

// tryReplay runs a replay in a fresh process.
func tryReplay(rp *Replay) (v *Violation, w *wireRun, harness string) {
	candN++
	f := filepath.Join(scratch, fmt.Sprintf("cand%d.json", candN))
	b, _ := json.Marshal(rp)
	os.WriteFile(f, b, 0644)
	defer os.Remove(f)
	lines, crash, stderr := runChild(5*time.Minute, "one", f)
	for _, l := range lines {
		if strings.HasPrefix(l, "v ") {
			var x wireRun
			if json.Unmarshal([]byte(l[2:]), &x) == nil {
				w = &x
			}
		}
	}
	if w == nil {
		if crash == "" {
			crash = "the process ended early (exit called?)"
		}
		return &Violation{Sig: "process killed: " + crash, Msg: "the library brought the process down: " + crash + "\n" + head(stderr, 60)}, nil, ""
	}
	return w.Viol, w, w.Harness
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func main() {
	if len(os.Args) > 1 {
		if err := loadFindings(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt")); err != nil {
			fatal("%v", err)
		}
		switch os.Args[1] {
		case "worker":
			workerMain(os.Args[2:])
			return
		case "one":
			oneMain(os.Args[2:])
			return
		case "load":
			loadMain(os.Args[2])
			return
		case "mode": // which build a property needs
			d := props[os.Args[2]]
			if d == nil {
				os.Exit(3)
			}
			fmt.Println(d.Mode)
			return
		case "list":
			for k, d := range props {
				fmt.Println(k, d.Mode)
			}
			return
		case "check":
			checkMain(os.Args[2:])
			return
		case "replay":
			replayMain(os.Args[2:])
			return
		}
	}
	fmt.Fprintln(os.Stderr, "usage: sim check ID TIER | replay FILE")
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("SIM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func replayMain(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	if props[rp.Property] == nil {
		fatal("this build does not have property %s", rp.Property)
	}
	scratch, _ = os.MkdirTemp("", "sim")
	defer os.RemoveAll(scratch)
	v, w, h := tryReplay(&rp)
	for k := 0; v == nil && h == "" && k < 9 && props[rp.Property].Mode == "race"; k++ {
		v, w, h = tryReplay(&rp) // see checkMain
	}
	if h != "" {
		fatal("harness error: %s", h)
	}
	if w != nil {
		for _, l := range w.Trace {
			fmt.Println("  ", l)
		}
	}
	if v == nil {
		fmt.Printf("replay of %s: no violation (recorded: %s)\n", args[0], rp.Sig)
		return
	}
	same := "same signature"
	if v.Sig != rp.Sig {
		same = "DIFFERENT signature, recorded was: " + rp.Sig
	}
	if w != nil && rp.Hash != 0 {
		if w.Hash == rp.Hash {
			same += ", same event hash"
		} else {
			same += ", different event hash"
		}
	}
	fmt.Printf("%s\n%s\n(%s)\n", v.Sig, v.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	os.RemoveAll(scratch)
	os.Exit(1)
}

func checkMain(args []string) {
	def := props[args[0]]
	if def == nil {
		fatal("unknown property %s", args[0])
	}
	tier := args[1]
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			v = hashStr(3, s)
		}
		seed = v
	}
	var err error
	scratch, err = os.MkdirTemp("", "sim")
	if err != nil {
		fatal("%v", err)
	}
	started := time.Now()
	total, capS := def.Quick, 150
	if tier == "thorough" {
		total, capS = def.Thorough, 1500
	}
	if s := os.Getenv("SIM_RUNS"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("SIM_CAP"); s != "" {
		capS, _ = strconv.Atoi(s)
	}
	nworkers := runtime.NumCPU()
	if nworkers > 8 {
		nworkers = 8
	}
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		nworkers, _ = strconv.Atoi(s)
	}
	deadline := started.Add(time.Duration(capS) * time.Second)
	batch := def.Batch
	if batch == 0 {
		batch = 250
	}
	type job struct{ start, count uint64 }
	var mu sync.Mutex
	next := 0
	stop := false
	var results []batchResult
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= total || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := job{uint64(next), uint64(min(batch, total-next))}
				next += batch
				mu.Unlock()
				br := runBatch(def, tier, seed, j.start, j.count)
				mu.Lock()
				results = append(results, br)
				if br.v != nil || br.crash != "" {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(started)
	sort.Slice(results, func(i, j int) bool { return results[i].start < results[j].start })

	// Lowest failing run decides.
	var rp *Replay
	var elusive []string
	for _, br := range results {
		if br.v != nil && br.v.Harness != "" {
			fatal("harness error in run %d: %s", br.v.Run, br.v.Harness)
		}
		if br.v == nil && br.crash == "" {
			continue
		}
		rp = &Replay{Property: def.ID, Tier: tier, Seed: seed}
		if br.v != nil {
			rp.Run, rp.Sig, rp.Msg, rp.Choices = br.v.Run, br.v.Viol.Sig, br.v.Viol.Msg, br.v.Choices
		} else {
			rp.Run, rp.Sig, rp.Generate = br.crashRun, "process killed: "+br.crash, true
			rp.Msg = br.crash + "\n" + head(br.stderr, 40)
			if isKnown(def.ID, rp.Sig) {
				fmt.Fprintf(os.Stderr, "known process crash in run %d\n", rp.Run)
			}
		}
		full := rp.Run - br.start
		ok := false
		attempts := 4
		if def.Mode == "race" {
			attempts = 10 // the race detector remembers a few accesses of each word only, picked by chance
		}
		for attempt := 0; attempt < attempts && !ok; attempt++ {
			if attempt%2 == 0 {
				rp.Prefix = 0
			} else {
				rp.Prefix = full
			}
			v, _, h := tryReplay(rp)
			if h != "" {
				fatal("harness error while reproducing: %s", h)
			}
			if v != nil {
				rp.Sig, rp.Msg = v.Sig, v.Msg
				ok = true
			}
		}
		if ok {
			break
		}
		elusive = append(elusive, fmt.Sprintf("run %d failed (%s: %s) but the failure does not reproduce", rp.Run, rp.Sig, rp.Msg))
		rp = nil
	}
	if rp == nil && elusive != nil {
		fatal("%s", strings.Join(elusive, "\n"))
	}

	// Determinism: the first and the last batch again, in fresh processes.
	mism := 0
	redone := 0
	disturbed := 0
	if rp == nil && len(results) > 0 {
		idx := []int{0, len(results) / 2, len(results) - 1}
		var wg2 sync.WaitGroup
		for k, x := range idx {
			if k > 0 && x == idx[k-1] {
				continue
			}
			wg2.Add(1)
			go func(x int) {
				defer wg2.Done()
				// A run that came out differently is repeated: one that comes out as it
				// did at first was disturbed from outside (a machine under heavy load),
				// one that never does is not deterministic.
				cnt := min(results[x].count, 100)
				differ := map[int]bool{}
				first := 0
				for attempt := 0; attempt < 4; attempt++ {
					br := runBatch(def, tier, seed, results[x].start, cnt)
					if br.sum == nil {
						for i := 0; attempt == 0 && i < int(cnt); i++ {
							differ[i] = true
						}
						first = max(first, len(differ))
						continue
					}
					again := map[int]bool{}
					for i, h := range br.sum.Hashes {
						if results[x].sum.Hashes[i] != h && (attempt == 0 || differ[i]) {
							again[i] = true
						}
					}
					mu.Lock()
					if attempt == 0 {
						redone += len(br.sum.Hashes)
						first = len(again)
					}
					mu.Unlock()
					differ = again
					if len(differ) == 0 {
						break
					}
				}
				mu.Lock()
				defer mu.Unlock()
				disturbed += first - len(differ)
				for i := range differ {
					mism++
					if mism < 5 {
						fmt.Fprintf(os.Stderr, "sim: run %d is not deterministic\n", results[x].start+uint64(i))
					}
				}
			}(x)
		}
		wg2.Wait()
	}

	var replayPath string
	minimised := ""
	if rp != nil {
		before := 0
		if rp.Choices != nil {
			before = rp.Choices.size()
		}
		n := minimise(rp, 45*time.Second)
		v, w, _ := tryReplay(rp)
		if v != nil {
			rp.Sig, rp.Msg = v.Sig, v.Msg
			if w != nil {
				rp.Hash, rp.Trace = w.Hash, w.Trace
			}
		}
		after := 0
		if rp.Choices != nil {
			after = rp.Choices.size()
		}
		minimised = fmt.Sprintf("%d choices minimised to %d in %d candidate runs", before, after, n)
		rp.Info = append(rp.Info, minimised)
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%016x.json", def.ID, hashStr(hashStr(seed, rp.Sig), rp.Msg)))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(replayPath, b, 0644); err != nil {
			fatal("%v", err)
		}
	}

	writeEvidence(def, tier, seed, results, rp, started, simWall, nworkers, redone, mism, disturbed, minimised)

	for _, f := range findings {
		if f.prop == def.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", def.ID, f.what)
		}
	}
	if rp != nil {
		fmt.Printf("%s\n%s\n", rp.Sig, head(rp.Msg, 60))
		for _, l := range rp.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("(run %d, seed %d; %s)\n", rp.Run, seed, minimised)
		fmt.Printf("VIOLATION property=%s replay=%s\n", def.ID, replayPath)
		os.RemoveAll(scratch)
		os.Exit(1)
	}
	if mism > 0 {
		fatal("%d of %d repeated runs differ: the simulation is not deterministic", mism, redone)
	}
	var runs int64
	for _, r := range results {
		runs += r.sum.Runs
	}
	fmt.Printf("property %s held in %d simulated runs (seed %d, %.1f s)\n", def.ID, runs, seed, time.Since(started).Seconds())
	os.RemoveAll(scratch)
}

func writeEvidence(def *PropDef, tier string, seed uint64, results []batchResult, rp *Replay, started time.Time, simWall time.Duration, nworkers, redone, mism, disturbed int, minimised string) {
	faults, probes, known, aband := map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	states := map[uint64]struct{}{}
	nontriv := map[uint64]struct{}{}
	hashes := map[uint64]struct{}{}
	var runs, ops, simns, events int64
	var samples []interface{}
	lo, hi := uint64(0), uint64(0)
	for _, r := range results {
		if r.sum == nil {
			continue
		}
		runs += r.sum.Runs
		ops += r.sum.Ops
		simns += r.sum.SimNs
		events += r.sum.Events
		for k, v := range r.sum.Faults {
			faults[k] += v
		}
		for k, v := range r.sum.Probes {
			probes[k] += v
		}
		for k, v := range r.sum.Known {
			known[k] += v
		}
		for k, v := range r.sum.Aband {
			aband[k] += v
		}
		for _, s := range r.sum.States {
			states[s] = struct{}{}
		}
		for _, s := range r.sum.Nontriv {
			nontriv[s] = struct{}{}
		}
		for _, s := range r.sum.Hashes {
			hashes[s] = struct{}{}
		}
		if len(r.sum.Sample) > 0 {
			samples = append(samples, map[string]interface{}{"run": r.start, "trace": r.sum.Sample})
		}
		if e := r.start + uint64(r.sum.Runs); e > hi {
			hi = e
		}
	}
	if rp != nil {
		samples = append(samples, map[string]interface{}{"violation": rp.Sig, "trace": rp.Trace})
	}
	if len(samples) == 0 {
		samples = append(samples, "no run completed")
	}
	viol := 0
	if rp != nil {
		viol = 1
	}
	perHour := int64(0)
	if simWall > 0 {
		perHour = int64(float64(runs) / simWall.Hours())
	}
	cov := map[string]interface{}{
		"evaluations":          runs,
		"distinct_nontrivial":  len(nontriv),
		"rule":                 def.Rule,
		"samples":              samples,
		"operations":           ops,
		"events_logged":        events,
		"runs_per_hour":        perHour,
		"run_index_range":      fmt.Sprintf("[%d,%d), one derived seed per run", lo, hi),
		"worker_processes":     nworkers,
		"simulated_seconds":    float64(simns) / 1e9,
		"faults_injected":      faults,
		"probes_hit":           probes,
		"known_findings_hit":   known,
		"runs_abandoned":       aband,
		"distinct_event_logs":  len(hashes),
		"distinct_states":      len(states),
		"real_components":      def.Real,
		"simulated_components": def.Stub,
		"determinism":          map[string]interface{}{"runs_repeated_in_fresh_processes": redone, "mismatches": mism, "disturbed_and_repeated": disturbed},
	}
	if minimised != "" {
		cov["minimisation"] = minimised
	}
	ev := map[string]interface{}{
		"property": def.ID, "tier": tier, "seed": int64(seed & (1<<62 - 1)), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(started).Seconds(), "violations": viol,
		"assumptions": append([]string{"the Go toolchain, the standard library (as patched by the overlay) and the harness's reference model are right"}, def.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", def.ID+".json"), b, 0644); err != nil {
		fatal("%v", err)
	}
}
