package main

// Guests: real binaries of the tree under test, built over the std overlay.
// A guest has no access to the host beyond its RPC socket: stdin/stdout are
// /dev/null, fd 2 is a private memory file for what the Go runtime prints.

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"
)

type Bins struct {
	dir     string
	devnull int
	spawned atomic.Int64
	calls   atomic.Int64
	gos     bool // the tools start goroutines
	cpu     int // CPU seconds a guest may use
}

func openBins(dir string) *Bins {
	fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		die("open /dev/null: %v", err)
	}
	_, err = os.Stat(dir + "/goroutines")
	b := &Bins{dir: dir, devnull: fd, cpu: 20, gos: err == nil}
	if b.gos {
		b.cpu = 60 // instrumented
	}
	return b
}

type guest struct {
	p       *Proc
	b       *Bins
	pid     int
	sock    int
	mem     int
	call    *Call
	buf     []byte
	out     []byte
	dead    bool
	status  syscall.WaitStatus
	overCPU bool
}

func memfd() int {
	name := [2]byte{'g', 0}
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name)), 1, 0)
	if e != 0 {
		die("memfd_create: %v", e)
	}
	return int(fd)
}

func (b *Bins) start(p *Proc, knobs []string, seed uint64) *guest {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		die("socketpair: %v", err)
	}
	g := &guest{p: p, b: b, sock: fds[0], mem: memfd()}
	syscall.SetsockoptTimeval(g.sock, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 40})
	env := []string{
		"VERIF_FD=3", "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "TZ=",
		"VERIF_CPU=" + itoa(b.cpu),
	}
	if ws := p.spec.Web; ws != nil {
		env = append(env, "VERIF_YIELD="+itoa(ws.Yield), "VERIF_YIELDSEED="+itoa(int(ws.YieldSeed)))
	}
	if b.gos {
		env = append(env, "VERIF_GO="+fmt.Sprint(1+(seed+uint64(p.id)*7919+crc(p.spec.Args))%1000003))
	}
	env = append(env, knobs...)
	env = append(env, p.spec.Env...)
	if p.spec.Cwd != "" {
		env = append(env, "PWD="+p.spec.Cwd)
	}
	argv := append([]string{p.spec.Bin}, p.spec.Args...)
	pid, err := syscall.ForkExec(b.dir+"/"+p.spec.Bin, argv, &syscall.ProcAttr{
		Dir:   "/",
		Env:   env,
		Files: []uintptr{uintptr(b.devnull), uintptr(b.devnull), uintptr(g.mem), uintptr(fds[1])},
		Sys:   &syscall.SysProcAttr{Pdeathsig: 0},
	})
	if err != nil {
		die("exec %s: %v", p.spec.Bin, err)
	}
	syscall.Close(fds[1])
	g.pid = pid
	b.spawned.Add(1)
	return g
}

// crc distinguishes command lines.
func crc(args []string) uint64 { return uint64(crc32.ChecksumIEEE([]byte(strings.Join(args, "\x00")))) }

func itoa(n int) string { return fmt.Sprint(n) }

func (g *guest) readFull(b []byte) bool {
	for len(b) > 0 {
		n, err := syscall.Read(g.sock, b)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.EAGAIN { // nothing for a long time: the guest sleeps
			g.overCPU = true
			syscall.Kill(g.pid, syscall.SIGKILL)
			return false
		}
		if err != nil || n == 0 {
			return false
		}
		b = b[n:]
	}
	return true
}

func (g *guest) writeAll(b []byte) bool {
	for len(b) > 0 {
		n, _, e := syscall.Syscall6(syscall.SYS_SENDTO, uintptr(g.sock), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0x4000 /* MSG_NOSIGNAL */, 0, 0)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return false
		}
		b = b[n:]
	}
	return true
}

var kindsOf = map[uint64]string{}

func init() {
	set := func(k string, traps ...uint64) {
		for _, t := range traps {
			kindsOf[t] = k
		}
	}
	set("iriiii", 0, 217, 17)
	set("iwiiii", 1, 18, trapReply, trapAbort)
	set("iiriii", trapSched)
	set("ipiiii", 257, 263, 258, 259, 269, 268, 439, 452, 260)
	set("ipipii", 265, 264, 316)
	set("pipiii", 266)
	set("ipriii", 267)
	set("iptiii", 280)
	set("riiiii", 79, 318)
	set("piiiii", 80, 76)
	set("isiiii", 5)
	set("ipsiii", 262)
	set("ifiiii", 138)
	set("pfiiii", 137)
	set("iiziii", 40)
	set("izizii", 275, 326)
}

// next waits for the guest's next system call; false means it exited.
func (g *guest) next() bool {
	var h [8]byte
	if !g.readFull(h[:]) {
		return false
	}
	n := int(binary.LittleEndian.Uint64(h[:]))
	if n < 56 || n > 1<<28 {
		die("garbled call from %v (pid %d): %x, previous %+v", g.p.spec.Bin, g.pid, h, g.call)
	}
	if cap(g.buf) < n {
		g.buf = make([]byte, n+n/2)
	}
	b := g.buf[:n]
	if !g.readFull(b) {
		return false
	}
	g.b.calls.Add(1)
	c := &Call{trap: binary.LittleEndian.Uint64(b)}
	b = b[8:]
	for i := range c.a {
		c.a[i] = int64(binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	k := kindsOf[c.trap]
	for i := range k {
		switch k[i] {
		case 'p', 'w', 'z', 't':
			n := int(binary.LittleEndian.Uint64(b))
			b = b[8:]
			c.in[i] = b[:n:n]
			b = b[n:]
			if k[i] == 'z' {
				c.z[i] = n > 0
			}
		}
	}
	g.call = c
	return true
}

func (g *guest) reply(r *Reply) {
	b := g.out[:0]
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 0)
	b = binary.LittleEndian.AppendUint64(b, uint64(r.r1))
	b = binary.LittleEndian.AppendUint64(b, uint64(r.e))
	k := kindsOf[g.call.trap]
	for i := range k {
		has := false
		switch k[i] {
		case 'r':
			has = g.call.a[i+1] > 0
			if lim := int(g.call.a[i+1]); len(r.outs[i]) > lim {
				r.outs[i] = r.outs[i][:lim]
			}
		case 's', 'f':
			has = true
		case 'z':
			has = g.call.z[i]
			if has && r.outs[i] == nil {
				r.outs[i] = g.call.in[i]
			}
		}
		if has {
			b = binary.LittleEndian.AppendUint64(b, uint64(len(r.outs[i])))
			b = append(b, r.outs[i]...)
		}
	}
	b = g.p.mapUpdates(b)
	binary.LittleEndian.PutUint64(b, uint64(len(b)-8))
	g.out = b
	g.writeAll(b)
}

func (g *guest) reap() {
	if g.dead {
		return
	}
	g.dead = true
	for {
		_, err := syscall.Wait4(g.pid, &g.status, 0, nil)
		if err != syscall.EINTR {
			break
		}
	}
	syscall.Close(g.sock)
}

func (g *guest) kill() {
	if !g.dead {
		syscall.Kill(g.pid, syscall.SIGKILL)
		g.reap()
		syscall.Close(g.mem)
	}
}

// wait collects the exit status and what the runtime printed.
func (g *guest) wait() (int, []byte) {
	g.reap()
	var st syscall.Stat_t
	syscall.Fstat(g.mem, &st)
	n := int(st.Size)
	if n > 64<<10 {
		n = 64 << 10
	}
	b := make([]byte, n)
	if n > 0 {
		syscall.Pread(g.mem, b, 0)
	}
	syscall.Close(g.mem)
	if g.status.Signaled() {
		if s := g.status.Signal(); s == syscall.SIGXCPU {
			g.overCPU = true
		}
		return -int(g.status.Signal()), b
	}
	return g.status.ExitStatus(), b
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "verif: "+format+"\n", args...)
	os.Exit(3)
}

var _ = runtime.NumCPU
