#!/usr/bin/env python3
"""Writes patched copies of a few standard-library files and the overlay.json that
makes `go build -overlay` use them. usage: mkoverlay.py GOROOT OUTDIR plain|race [extra.json]
Patches are asserted: if the toolchain's source differs from what is expected, the
build fails loudly instead of simulating less than it says."""
import sys, os, json, re
goroot, out, mode = sys.argv[1:4]
src = os.path.join(goroot, "src")
repl = {}
def patch(rel, subs, add=""):
    p = os.path.join(src, rel)
    t = open(p).read()
    for a, b in subs:
        if t.count(a) != 1:
            sys.exit("mkoverlay: %s: expected exactly one %r, found %d" % (rel, a, t.count(a)))
        t = t.replace(a, b)
    t += add
    q = os.path.join(out, rel.replace("/", "_"))
    open(q, "w").write(t)
    repl[p] = q

patch("runtime/rand.go", [
    ("\tglobalRand.state.Init(*seed)\n",
     "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"),
    ("//go:linkname rand\nfunc rand() uint64 {\n", """//go:linkname rand
func rand() uint64 {
	if simRandOn {
		if simRandFixed {
			return simRandState
		}
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return rand1()
}

var simRandOn = true // from the start: maps made during initialisation are the same in every process
var simRandFixed bool
var simRandState uint64

// SimSeedRand puts the runtime's random source (map iteration order, the
// unseeded math/rand source) under the simulator's control.
//
//go:norace
func SimSeedRand(seed uint64) {
	simRandOn, simRandFixed = true, false
	simRandState = seed
}

// SimFixRand makes the source give the same value every time, so that what a goroutine
// draws does not depend on what the others have drawn before.
//
//go:norace
func SimFixRand(v uint64) {
	simRandOn, simRandFixed = true, true
	simRandState = v
}

// SimGoid identifies the calling goroutine.
//
//go:norace
func SimGoid() uint64 { return getg().goid }

//go:nosplit
func rand1() uint64 {
"""),
    ("mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(rand1())"),
    ("mp.cheaprand64 = rand()", "mp.cheaprand64 = rand1()"),
] + ([] if mode != "race" else [
    ("func cheaprand() uint32 {\n", """func cheaprand() uint32 {
	if simStill {
		return uint32(simRandState >> 32)
	}
"""),
]), "" if mode != "race" else """
var simStill bool

// SimStill keeps the runtime from deciding anything by the time of day: no goroutine is
// preempted because it has run long, the queues are served in a fixed order, and the
// choices of a select and between simultaneous timers are those of SimFixRand.
//
//go:norace
func SimStill(on bool) { simStill = on }
""")
if mode == "race":
    patch("runtime/proc.go", [
        ("\t} else if pd.schedwhen+forcePreemptNS <= now {\n", "\t} else if pd.schedwhen+forcePreemptNS <= now && !simStill {\n"),
        ("\tif pp.schedtick%61 == 0 && !sched.runq.empty() {\n", "\tif pp.schedtick%61 == 0 && !simStill && !sched.runq.empty() {\n"),
    ])

patch("syscall/syscall_unix.go", [
    ("func Read(fd int, p []byte) (n int, err error) {\n", """// Simulator seams: each hook, if set, may handle a call itself.
var (
	SimRead  func(fd int, p []byte) (n int, err error, handled bool)
	SimWrite func(fd int, p []byte) (n int, err error, handled bool)
	SimOpen  func(path string, flags int) (err error, handled bool)
	SimOpened func(path string, flags int, fd int)
	SimClose func(fd int) (err error, handled bool)
	SimSync  func(fd int) (err error, handled bool)
	SimRename func(from, to string) (err error, handled bool)
	SimTruncate func(fd int) (err error, handled bool)
)

func SimRawRead(fd int, p []byte) (n int, err error)  { return read(fd, p) }
func SimRawWrite(fd int, p []byte) (n int, err error) { return write(fd, p) }

func Read(fd int, p []byte) (n int, err error) {
	if h := SimRead; h != nil {
		if n, err, ok := h(fd, p); ok {
			return n, err
		}
	}
"""),
    ("func Write(fd int, p []byte) (n int, err error) {\n", """func Write(fd int, p []byte) (n int, err error) {
	if h := SimWrite; h != nil {
		if n, err, ok := h(fd, p); ok {
			return n, err
		}
	}
"""),
    ("func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", """func Pread(fd int, p []byte, offset int64) (n int, err error) {
	if h := SimRead; h != nil {
		// A positioned read is simulated like a plain one, except that the data come from offset.
		if _, err, ok := h(fd, nil); ok && err != nil {
			return 0, err
		}
	}
"""),
    ("func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", """func Pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if h := SimWrite; h != nil {
		if _, err, ok := h(fd, nil); ok && err != nil {
			return 0, err
		}
	}
"""),
])
patch("syscall/syscall_linux.go", [
    ("func Open(path string, mode int, perm uint32) (fd int, err error) {\n\treturn openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n",
     """func Open(path string, mode int, perm uint32) (fd int, err error) {
	if h := SimOpen; h != nil {
		if err, ok := h(path, mode); ok {
			return -1, err
		}
	}
	fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
	if h := SimOpened; h != nil && err == nil {
		h(path, mode, fd)
	}
	return fd, err
"""),
    ("func Rename(oldpath string, newpath string) (err error) {\n", """func Rename(oldpath string, newpath string) (err error) {
	if h := SimRename; h != nil {
		if err, ok := h(oldpath, newpath); ok {
			return err
		}
	}
"""),
])
patch("syscall/zsyscall_linux_amd64.go", [
    ("func Close(fd int) (err error) {\n", """func Close(fd int) (err error) {
	if h := SimClose; h != nil {
		if err, ok := h(fd); ok {
			Syscall(SYS_CLOSE, uintptr(fd), 0, 0)
			return err
		}
	}
"""),
    ("func Fsync(fd int) (err error) {\n", """func Fsync(fd int) (err error) {
	if h := SimSync; h != nil {
		if err, ok := h(fd); ok {
			return err
		}
	}
"""),
    ("func Ftruncate(fd int, length int64) (err error) {\n", """func Ftruncate(fd int, length int64) (err error) {
	if h := SimTruncate; h != nil {
		if err, ok := h(fd); ok {
			return err
		}
	}
"""),
])
patch("time/time.go", [
    ("func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", """// SimClock, if set, is the wall clock.
var SimClock func() (sec int64, nsec int32)

func Now() Time {
	if h := SimClock; h != nil {
		sec, nsec := h()
		return Time{uint64(nsec), sec + unixToInternal, Local}
	}
	sec, nsec, mono := runtimeNow()
"""),
])
if mode == "race":
    # The standard pools must neither choose at random nor order goroutines by accident.
    patch("sync/pool.go", [
        ("\tif race.Enabled {\n\t\tif runtime_randn(4) == 0 {\n", "\tif race.Enabled {\n\t\tif true {\n"),
    ])
    # A client that finds a lock taken gives up its turn instead of parking, so that who
    # gets the lock is the simulator's choice.
    patch("sync/mutex.go", [
        ("func (m *Mutex) Lock() {\n", """// SimLockWait, if set, is called when a lock is taken: it lets other goroutines run and
// reports whether it did (then the lock is tried again).
var SimLockWait func() bool

func (m *Mutex) Lock() {
	if h := SimLockWait; h != nil {
		for {
			if m.mu.TryLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
"""),
    ])
    patch("sync/rwmutex.go", [
        ("func (rw *RWMutex) RLock() {\n", """func (rw *RWMutex) RLock() {
	if h := SimLockWait; h != nil {
		for {
			if rw.TryRLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
"""),
        ("func (rw *RWMutex) Lock() {\n", """func (rw *RWMutex) Lock() {
	if h := SimLockWait; h != nil {
		for {
			if rw.TryLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
"""),
    ])
    # A bubble of simulated time without a *testing.T.
    patch("testing/synctest/synctest.go", [
        ("//go:linkname testingSynctestTest ", "func SimRun(f func()) { synctest.Run(f) }\n\n//go:linkname testingSynctestTest "),
    ])
if len(sys.argv) > 4:
    repl.update(json.load(open(sys.argv[4]))["Replace"])
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
