package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
)

// Disk is the simulated storage: real files in a scratch directory, with the system
// calls on them decided by the simulator.
type Disk struct {
	c   *Ctx
	dir string
	gor uint64 // the goroutine the simulated system runs on
	fds map[int]string

	// benign behaviour
	short bool // reads and writes may be short
	eintr bool // calls may be interrupted

	// the fault planned for the next operation
	kind  string // "", "open", "write", "full", "zero-write", "close", "sync", "rename", "truncate", "read", "crash"
	at    int    // at which call of the kind
	room  int    // bytes the disk still takes ("full", "crash")
	errno syscall.Errno

	fired   bool
	frozen  bool // the process is dead: nothing reaches the disk any more
	n       map[string]int
	written map[int]bool
}

var diskSerial int

func newDisk(c *Ctx) *Disk {
	root := os.Getenv("SIM_SCRATCH")
	if root == "" {
		root = os.TempDir()
	}
	diskSerial++
	syscall.Umask(0o022)
	d := &Disk{c: c, gor: runtime.SimGoid(), dir: filepath.Join(root, fmt.Sprintf("disk-%d-%d", os.Getpid(), diskSerial)), fds: map[int]string{}, n: map[string]int{}, written: map[int]bool{}}
	if err := os.MkdirAll(d.dir, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	syscall.SimOpen, syscall.SimOpened, syscall.SimRead, syscall.SimWrite = d.open, d.opened, d.read, d.write
	syscall.SimClose, syscall.SimSync, syscall.SimRename, syscall.SimTruncate = d.close, d.sync, d.rename, d.truncate
	c.Defer(func() {
		d.off()
		os.RemoveAll(d.dir)
	})
	return d
}

func (d *Disk) off() {
	syscall.SimOpen, syscall.SimOpened, syscall.SimRead, syscall.SimWrite = nil, nil, nil, nil
	syscall.SimClose, syscall.SimSync, syscall.SimRename, syscall.SimTruncate = nil, nil, nil, nil
}

// raw reads a file without the simulator.
func (d *Disk) raw(path string) ([]byte, error) {
	h, o, cl := syscall.SimRead, syscall.SimOpen, syscall.SimClose
	syscall.SimRead, syscall.SimOpen, syscall.SimClose = nil, nil, nil
	defer func() { syscall.SimRead, syscall.SimOpen, syscall.SimClose = h, o, cl }()
	return os.ReadFile(path)
}

func (d *Disk) rawWrite(path string, b []byte) {
	h, o, cl, op := syscall.SimWrite, syscall.SimOpen, syscall.SimClose, syscall.SimOpened
	syscall.SimWrite, syscall.SimOpen, syscall.SimClose, syscall.SimOpened = nil, nil, nil, nil
	defer func() { syscall.SimWrite, syscall.SimOpen, syscall.SimClose, syscall.SimOpened = h, o, cl, op }()
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

func (d *Disk) path(name string) string { return filepath.Join(d.dir, name) }

// calm plans no fault for the next operation.
func (d *Disk) calm() {
	d.kind, d.fired, d.frozen = "", false, false
	d.n = map[string]int{}
}

// planWrite decides what befalls the next save.
func (d *Disk) planWrite(hard bool, size int) {
	d.calm()
	c := d.c
	d.short, d.eintr = c.Chance(1, 2), c.Chance(1, 3)
	if !hard {
		return
	}
	k := c.N(8)
	if size == 0 && (k <= 2 || k == 6) {
		k = 3 + c.N(3) // nothing is written that could fail
	}
	switch k {
	case 0:
		d.kind, d.at, d.errno = "write", c.N(3), pick(c, []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS, syscall.EFBIG})
	case 1, 2:
		d.kind, d.room, d.errno = "full", c.N(size+1), syscall.ENOSPC
		if c.Chance(1, 4) {
			d.room = max(0, size-1-c.N(3))
		}
	case 3:
		d.kind, d.errno = "open", pick(c, []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EROFS, syscall.EIO, syscall.ENOENT})
	case 4, 5:
		d.kind, d.errno = "close", pick(c, []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT})
	case 6:
		d.kind, d.at = "zero-write", c.N(2)
	default:
		d.kind, d.errno = pick(c, []string{"sync", "rename", "truncate"}), syscall.EIO
	}
}

func (d *Disk) planRead(hard bool) {
	d.calm()
	c := d.c
	d.short, d.eintr = c.Chance(1, 2), c.Chance(1, 3)
	if !hard {
		return
	}
	if c.N(4) == 0 {
		d.kind, d.errno = "open", pick(c, []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOENT})
	} else {
		d.kind, d.at, d.errno = "read", c.N(5), pick(c, []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.EISDIR, syscall.EBADF})
	}
}

func (d *Disk) hit(kind string) bool {
	n := d.n[kind]
	d.n[kind]++
	if d.kind == kind && n == d.at && !d.fired {
		d.fired = true
		return true
	}
	return false
}

func (d *Disk) interrupted() bool {
	return d.eintr && d.c.Chance(1, 4)
}

func (d *Disk) open(path string, flags int) (error, bool) {
	if !strings.HasPrefix(path, d.dir) || runtime.SimGoid() != d.gor {
		return nil, false
	}
	if d.frozen {
		return syscall.EIO, true
	}
	if d.interrupted() {
		d.c.Fault("open interrupted (EINTR)")
		return syscall.EINTR, true
	}
	if d.hit("open") {
		d.c.Fault("open fails: " + d.errno.Error())
		return d.errno, true
	}
	return nil, false
}

func (d *Disk) opened(path string, flags, fd int) {
	if runtime.SimGoid() != d.gor {
		return
	}
	if strings.HasPrefix(path, d.dir) {
		d.fds[fd] = path
	} else {
		delete(d.fds, fd)
	}
	delete(d.written, fd)
}

func (d *Disk) write(fd int, p []byte) (int, error, bool) {
	if runtime.SimGoid() != d.gor {
		return 0, nil, false
	}
	if _, ok := d.fds[fd]; !ok || len(p) == 0 {
		return 0, nil, false
	}
	d.written[fd] = true
	if d.frozen {
		return 0, syscall.EIO, true
	}
	if d.interrupted() {
		d.c.Fault("write interrupted (EINTR)")
		return 0, syscall.EINTR, true
	}
	if d.hit("write") {
		d.c.Fault("write fails: " + d.errno.Error())
		return 0, d.errno, true
	}
	if d.hit("zero-write") {
		d.c.Fault("write takes nothing")
		return 0, nil, true
	}
	n := len(p)
	if d.short && d.c.Chance(1, 2) {
		if k := 1 + d.c.N(n); k < n {
			n = k
			d.c.Fault("short write")
		}
	}
	if d.kind == "full" || d.kind == "crash" {
		if d.room < n {
			n = d.room
			d.fired = true
		}
		d.room -= n
		if d.fired && d.kind == "crash" {
			d.frozen = true
			d.c.Fault("crash during save")
		}
		if n == 0 {
			if d.kind == "crash" {
				return 0, syscall.EIO, true
			}
			d.c.Fault("disk full")
			return 0, syscall.ENOSPC, true
		}
	}
	k, err := syscall.SimRawWrite(fd, p[:n])
	return k, err, true
}

func (d *Disk) read(fd int, p []byte) (int, error, bool) {
	if runtime.SimGoid() != d.gor {
		return 0, nil, false
	}
	if _, ok := d.fds[fd]; !ok {
		return 0, nil, false
	}
	if d.frozen {
		return 0, syscall.EIO, true
	}
	if d.interrupted() {
		d.c.Fault("read interrupted (EINTR)")
		return 0, syscall.EINTR, true
	}
	if d.hit("read") {
		d.c.Fault("read fails: " + d.errno.Error())
		return 0, d.errno, true
	}
	if d.short && len(p) > 1 && d.c.Chance(1, 2) {
		p = p[:1+d.c.N(len(p))]
		d.c.Fault("short read")
	}
	n, err := syscall.SimRawRead(fd, p)
	return n, err, true
}

func (d *Disk) close(fd int) (error, bool) {
	if runtime.SimGoid() != d.gor { // a finalizer
		return nil, false
	}
	if _, ok := d.fds[fd]; !ok {
		return nil, false
	}
	delete(d.fds, fd)
	w := d.written[fd]
	delete(d.written, fd)
	if d.frozen {
		return syscall.EIO, true
	}
	if w && d.hit("close") {
		d.c.Fault("close fails: " + d.errno.Error())
		return d.errno, true
	}
	return nil, false
}

func (d *Disk) sync(fd int) (error, bool) {
	if _, ok := d.fds[fd]; ok && (d.frozen || d.hit("sync")) {
		d.c.Fault("sync fails")
		return syscall.EIO, true
	}
	return nil, false
}

func (d *Disk) rename(from, to string) (error, bool) {
	if strings.HasPrefix(to, d.dir) && (d.frozen || d.hit("rename")) {
		d.c.Fault("rename fails")
		return syscall.EIO, true
	}
	return nil, false
}

func (d *Disk) truncate(fd int) (error, bool) {
	if _, ok := d.fds[fd]; ok && (d.frozen || d.hit("truncate")) {
		d.c.Fault("truncate fails")
		return syscall.EIO, true
	}
	return nil, false
}
