package main

// The simulated machine: processes, descriptors, system calls, the scheduler
// and the fault injector. Guests are real cindex/csearch/cgrep binaries whose
// every file-system, clock and randomness system call arrives here by RPC.
// Exactly one guest runs at a time; the simulator decides which and when.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	pathpkg "path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// Fault is one injected event, addressed by counting matching system calls of
// one process.
type Fault struct {
	Class string `json:"class"`          // call class, or "any"
	Role  string `json:"role,omitempty"` // path role: index, indextmp, tmp, src, stdout, stderr, stdin; "" any
	Path  string `json:"path,omitempty"` // substring of the path
	N     int    `json:"n"`              // which matching call (0-based)
	Act   string `json:"act"`            // err, short, crash-before, crash-after, crash-torn, clock
	Errno int    `json:"errno,omitempty"`
	Arg   int64  `json:"arg,omitempty"`   // bytes for short/torn; ns for clock
	Stick bool   `json:"stick,omitempty"` // err repeats on later matching calls

	seen  int
	fired int
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s %s#%d", f.Act, f.Class, f.N)
	if f.Role != "" {
		s += "@" + f.Role
	}
	if f.Path != "" {
		s += "(" + f.Path + ")"
	}
	if f.Act == "err" {
		s += " " + syscall.Errno(f.Errno).Error()
	}
	return s
}

type ProcSpec struct {
	Bin    string   `json:"bin"` // cindex csearch cgrep; "script" for Edits
	Args   []string `json:"args,omitempty"`
	Cwd    string   `json:"cwd,omitempty"`
	Env    []string `json:"env,omitempty"`
	Stdin  []byte   `json:"stdin,omitempty"`
	Frag   int      `json:"frag,omitempty"`   // max bytes per read of src/stdin (0: no limit)
	FragS  uint64   `json:"frag_s,omitempty"` // seed for fragment sizes (0: always Frag)
	Eintr  int      `json:"eintr,omitempty"`  // per-mille EINTR on read/write/open
	StdinE int      `json:"stdin_errno,omitempty"`
	OutCap int      `json:"out_cap,omitempty"` // stdout accepts this many bytes-1, then fails (0: unlimited)
	OutErr int      `json:"out_err,omitempty"` // with this errno (0: ENOSPC)
	Free   int      `json:"free,omitempty"`    // free bytes on disk +1 (0: unlimited)
	Faults []Fault  `json:"faults,omitempty"`
	Edits  []Edit   `json:"edits,omitempty"`
	Web    *WebSpec `json:"web,omitempty"` // requests to a csweb
}

type Edit struct {
	Op   string `json:"op"` // write, replace, rm, mkdir, symlink, chmod, rename, fifo, lie
	Path string `json:"path"`
	Data []byte `json:"data,omitempty"`
	To   string `json:"to,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
}

func (f *FS) Apply(e Edit) {
	switch e.Op {
	case "write":
		f.Put(e.Path, e.Data)
	case "replace":
		f.Replace(e.Path, e.Data)
	case "rm":
		f.RemoveAll(e.Path)
	case "mkdir":
		f.MkdirAll(e.Path)
	case "copy":
		if d, ok := f.Get(e.Path); ok {
			f.Put(e.To, d)
		}
	case "cut": // a new file with the first Mode/1000 of the old one
		if d, ok := f.Get(e.Path); ok {
			f.Replace(e.Path, append([]byte(nil), d[:len(d)*int(e.Mode)/1000]...))
		}
	case "trunc": // the first Mode/1000 of the file, in place
		if n := f.lookup(e.Path, true); n != nil && n.kind == KReg {
			k := len(n.data) * int(e.Mode) / 1000
			for k > 0 && k < len(n.data) && n.data[k]&0xc0 == 0x80 { // not inside a character
				k--
			}
			f.truncate(n, k)
		}
	case "garble": // some bytes change, in place
		if n := f.lookup(e.Path, true); n != nil && n.kind == KReg {
			r := newRand(uint64(e.Mode))
			for _, b := range e.Data {
				if l := len(n.data); l > 96 && e.Mode%3 == 0 { // in the trailer
					f.write(n, l-96+r.n(80), []byte{b})
				} else if l > 0 {
					f.write(n, r.n(l), []byte{b})
				}
			}
		}
	case "symlink":
		f.Symlink(e.Path, e.To)
	case "fifo":
		f.Fifo(e.Path)
	case "chmod":
		f.Chmod(e.Path, e.Mode)
	case "bigzip":
		f.huge = true
		f.Put(e.Path, bigZip(int(e.Mode), string(e.Data)))
	case "lie":
		if n := f.lookup(e.Path, true); n != nil && n.kind == KReg {
			n.lie = e.Mode
		}
	case "rename":
		d1, n1, n, e1 := f.walk(f.root, e.Path, false, 0)
		d2, n2, t, e2 := f.walk(f.root, e.To, false, 0)
		if e1 == 0 && e2 == 0 && n != nil && n.kind == KReg && (t == nil || t.kind == KReg) && n2 != "." {
			f.rename(d1, n1, d2, n2)
		}
	}
}

var bigZips sync.Map

// bigZip makes an archive of n small files, most of which differ in one word.
func bigZip(n int, word string) []byte {
	key := fmt.Sprint(n, " ", word)
	if d, ok := bigZips.Load(key); ok {
		return d.([]byte)
	}
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for i := 0; i < n; i++ {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: fmt.Sprintf("%d/%x", i/1000, i%1000)})
		if err != nil {
			die("zip: %v", err)
		}
		x := uint64(i) * 0x9e3779b97f4a7c15
		if i%32 == 3 || i > n-10 {
			fmt.Fprintf(w, "%s ", word)
		}
		fmt.Fprintf(w, "%c%c%c%c", 'a'+x>>60, 'a'+x>>56&15, 'a'+x>>52&15, 'a'+x>>48&15)
		if i%8191 == 77 || i == n-1 {
			fmt.Fprintf(w, " mark%d", i%4)
		}
	}
	zw.Close()
	bigZips.Store(key, b.Bytes())
	return b.Bytes()
}

type ofile struct {
	n     *Inode
	path  string
	off   int
	flags int
	std   int // 1 stdin 2 stdout 3 stderr
	names []string
	npos  int
	lock  int // flock state: 0 none, LOCK_SH, LOCK_EX
}

type mapping struct {
	addr, length uint64
	n            *Inode
	off          int
	gen          uint64
	fresh        bool
}

type Proc struct {
	id     int
	spec   *ProcSpec
	m      *Machine
	pid    int
	fds    map[int]*ofile
	nextFd int
	cwd    *Inode
	cwdP   string
	umask  uint32
	maps   []*mapping
	mapIDs map[uint64]*mapping
	nextMp uint64
	rnd    *Rand
	stdinP int

	g       *guest
	started bool
	done    bool
	blocked bool // waiting for a lock
	nsys    int
	nquiet  int
	edit    int

	Out     []byte
	Err     []byte // through the simulated fd 2
	Real    []byte // what the Go runtime itself wrote (panics)
	Exit    int    // exit status; -signal if killed by a signal
	Crashed bool   // killed by an injected crash
	Timeout bool
	OutLost bool // a write to stdout failed
	WErr    int  // injected failures on the write side that the program saw
	classes map[string]int
	web     *webState
}

type Event struct {
	Proc  int
	Class string
	Path  string
	Role  string
	Ret   int64
	Errno syscall.Errno
	Fault string
	Req   int // csweb: request being served + 1
	Ord   int // ordinal among p's visible calls, -1 for quiet ones
}

func (e Event) String() string {
	s := fmt.Sprintf("p%d %s %s", e.Proc, e.Class, e.Path)
	if e.Errno != 0 {
		s += " = " + e.Errno.Error()
	} else {
		s += fmt.Sprintf(" = %d", e.Ret)
	}
	if e.Fault != "" {
		s += "  [" + e.Fault + "]"
	}
	return s
}

// Switch: at global step Step, run process To.
type Switch struct {
	Step int `json:"step"`
	To   int `json:"to"`
}

type Machine struct {
	fs     *FS
	bins   *Bins
	index  string // path of the master index
	procs  []*Proc
	step   int
	trace  []Event
	hash   uint64
	maxEv  int
	nextPd int
	knobs  []string
	seed   uint64
	onStep func(m *Machine) // invariant checked after every step
	fired  map[string]int
	simNs  int64
	locks  map[*Inode][]*ofile
	dead   bool // deadlock
	order  []int
}

func NewMachine(fs *FS, bins *Bins, index string) *Machine {
	return &Machine{fs: fs, bins: bins, index: index, nextPd: 100, maxEv: 20000, fired: map[string]int{}, locks: map[*Inode][]*ofile{}, hash: 14695981039346656037}
}

func (m *Machine) newProc(spec *ProcSpec) *Proc {
	m.nextPd++
	p := &Proc{id: len(m.procs), spec: spec, m: m, pid: m.nextPd, fds: map[int]*ofile{}, nextFd: 1000, umask: 022, mapIDs: map[uint64]*mapping{}, classes: map[string]int{}}
	p.rnd = newRand(spec.FragS*31 + uint64(p.pid)*7919)
	p.cwdP = spec.Cwd
	if p.cwdP == "" {
		p.cwdP = "/"
	}
	p.cwd = m.fs.lookup(p.cwdP, true)
	if p.cwd == nil || p.cwd.kind != KDir {
		p.cwd = m.fs.root
		p.cwdP = "/"
	}
	for i := 0; i < 3; i++ {
		p.fds[i] = &ofile{std: i + 1, path: []string{"<stdin>", "<stdout>", "<stderr>"}[i], flags: syscall.O_RDWR}
	}
	if spec.Web != nil {
		p.web = newWebState(spec.Web)
	}
	m.procs = append(m.procs, p)
	return p
}

// Run executes the processes to completion under the given switch list.
// Without switches they run one after the other.
func (m *Machine) Run(specs []*ProcSpec, sched []Switch) []*Proc {
	m.procs = nil
	m.step = 0
	m.order = nil
	m.dead = false
	for _, s := range specs {
		m.newProc(s)
	}
	cur := 0
	si := 0
	last := -1
	for {
		for si < len(sched) && sched[si].Step <= m.step {
			if sched[si].Step == m.step && sched[si].To < len(m.procs) {
				cur = sched[si].To
			}
			si++
		}
		p := m.pickRunnable(cur)
		if p == nil {
			break
		}
		cur = p.id
		if last != p.id {
			m.order = append(m.order, m.step, p.id)
			last = p.id
		}
		m.stepProc(p)
		m.step++
		if m.onStep != nil {
			m.onStep(m)
		}
	}
	for _, p := range m.procs {
		if !p.done {
			m.dead = true
			p.kill()
		}
	}
	return m.procs
}

func (m *Machine) pickRunnable(cur int) *Proc {
	ok := func(p *Proc) bool { return !p.done && !p.blocked }
	if cur < len(m.procs) && ok(m.procs[cur]) {
		return m.procs[cur]
	}
	for _, p := range m.procs {
		if ok(p) {
			return p
		}
	}
	return nil
}

const maxSteps = 400_000

func (m *Machine) stepLimit() int {
	if m.fs.huge {
		return 10 * maxSteps
	}
	return maxSteps
}

// stepProc lets p perform one system call and run up to its next one.
func (m *Machine) stepProc(p *Proc) {
	if p.spec.Bin == "script" {
		if p.edit < len(p.spec.Edits) {
			m.fs.Apply(p.spec.Edits[p.edit])
			m.event(Event{Proc: p.id, Class: "edit:" + p.spec.Edits[p.edit].Op, Path: p.spec.Edits[p.edit].Path, Ord: -1})
			p.edit++
		}
		if p.edit >= len(p.spec.Edits) {
			p.done = true
			m.wake()
		}
		return
	}
	if !p.started {
		p.started = true
		m.fs.free = p.spec.Free - 1
		p.g = m.bins.start(p, m.knobs, m.seed)
		p.advance()
		return
	}
	call := p.g.call
	if call.trap != trapSched {
		p.nsys++
	}
	if p.nsys > m.stepLimit() || p.web != nil && p.web.asked > 2*m.stepLimit() {
		p.Timeout = true
		p.kill()
		return
	}
	rep, act := m.dispatch(p, call)
	if callLog != nil {
		callLog(p, call, rep)
	}
	if p.done {
		return
	}
	if p.blocked {
		p.nsys--
		return
	}
	if act == "crash" {
		p.Crashed = true
		p.kill()
		return
	}
	p.g.reply(rep)
	p.advance()
}

// quiet calls touch nothing shared: they are answered at once, without
// counting as a step of the schedule.
func quiet(c *Call) bool {
	switch c.trap {
	case 72, 228, 318, 39, 110, 9 + 1<<20, trapReply, trapAbort:
		return true
	case 1:
		return c.a[0] == 2
	case 5:
		return c.a[0] >= 0 && c.a[0] <= 2
	}
	return false
}

// callLog, if set, sees every call (command "calls").
var callLog func(p *Proc, c *Call, r *Reply)

// advance runs p up to its next visible system call.
func (p *Proc) advance() {
	for {
		if !p.g.next() {
			p.finish()
			return
		}
		if !quiet(p.g.call) && !(p.g.call.trap == trapSched && !p.mustWait(p.g.call)) {
			return
		}
		p.nquiet++
		if p.nquiet > 4*p.m.stepLimit() {
			p.Timeout = true
			p.kill()
			return
		}
		rep, act := p.m.dispatch(p, p.g.call)
		if callLog != nil {
			callLog(p, p.g.call, rep)
		}
		if act == "crash" {
			p.Crashed = true
			p.kill()
			return
		}
		p.g.reply(rep)
	}
}

func (p *Proc) release() {
	for _, f := range p.fds {
		p.m.unlock(f)
	}
	p.fds = map[int]*ofile{}
	p.maps = nil
	p.m.wake()
}

func (m *Machine) wake() {
	for _, p := range m.procs {
		p.blocked = false
	}
}

func (p *Proc) kill() {
	if p.g != nil {
		p.g.kill()
	}
	p.done = true
	p.Exit = -9
	p.release()
}

func (p *Proc) finish() {
	p.Exit, p.Real = p.g.wait()
	p.done = true
	if p.g.overCPU {
		p.Timeout = true
	}
	p.release()
	p.m.event(Event{Proc: p.id, Class: "exit", Ret: int64(p.Exit), Ord: -1})
}

func (m *Machine) event(e Event) {
	if q := m.procs[e.Proc]; q.web != nil && (e.Ord >= 0 || e.Fault != "") {
		e.Req = q.web.cur + 1
	}
	h := m.hash
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	mix(e.Class)
	mix(e.Path)
	h = (h ^ uint64(e.Proc)) * 1099511628211
	h = (h ^ uint64(e.Ret)) * 1099511628211
	h = (h ^ uint64(e.Errno)) * 1099511628211
	m.hash = h
	if e.Fault != "" || len(m.trace) < m.maxEv && (e.Ord >= 0 || e.Class == "exit" || e.Fault != "" || strings.HasPrefix(e.Class, "edit:")) {
		m.trace = append(m.trace, e)
	}
}

// ---- one system call ----

type Call struct {
	trap uint64
	a    [6]int64
	in   [6][]byte // input buffers and paths
	z    [6]bool   // z argument present
}

type Reply struct {
	r1   int64
	e    syscall.Errno
	outs [6][]byte
}

var classOf = map[uint64]string{
	0: "read", 1: "write", 3: "close", 5: "fstat", 8: "lseek", 9: "mmap", 11: "munmap",
	17: "pread", 18: "pwrite", 32: "dup", 33: "dup", 292: "dup", 39: "getpid", 110: "getpid", 40: "sendfile",
	72: "fcntl", 73: "flock", 74: "fsync", 75: "fsync", 76: "truncate", 77: "truncate",
	79: "getcwd", 80: "chdir", 81: "chdir", 91: "chmod", 93: "chown", 137: "statfs", 138: "statfs", 162: "sync",
	217: "getdents", 228: "clock", 257: "open", 258: "mkdir", 259: "mknod", 260: "chown", 262: "stat", 263: "unlink", 264: "rename", 316: "rename",
	265: "link", 266: "symlink", 267: "readlink", 268: "chmod", 452: "chmod", 269: "access", 439: "access", 275: "splice", 277: "fsync",
	280: "utimens", 285: "fallocate", 318: "random", 326: "copyrange",
}

func (m *Machine) roleOf(path string) string {
	switch {
	case path == "<stdin>":
		return "stdin"
	case path == "<stdout>":
		return "stdout"
	case path == "<stderr>":
		return "stderr"
	case path == m.index:
		return "index"
	}
	d, _ := splitPath(m.index)
	if strings.HasPrefix(path, m.index) || d != "/" && strings.HasPrefix(path, d) && !strings.Contains(path[len(d):], "/") {
		return "indextmp"
	}
	if strings.HasPrefix(path, "/tmp/") || strings.HasPrefix(path, "/.tmp/") || strings.HasPrefix(path, "/scratch/") {
		return "tmp"
	}
	if path+"/" == d {
		return "indexdir"
	}
	return "src"
}

func (p *Proc) abs(path string) string {
	if !strings.HasPrefix(path, "/") {
		path = p.cwdP + "/" + path
	}
	return pathpkg.Clean(path)
}

func isWriteFlags(fl int) bool {
	return fl&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
}

func (m *Machine) dispatch(p *Proc, c *Call) (*Reply, string) {
	class := classOf[c.trap]
	if class == "" {
		class = fmt.Sprintf("trap%d", c.trap)
	}
	path := ""
	switch c.trap {
	case 257, 258, 259, 260, 262, 263, 267, 268, 269, 280, 439, 452:
		path = p.abs(string(c.in[1]))
	case 264, 316, 265:
		path = p.abs(string(c.in[3]))
	case 266:
		path = p.abs(string(c.in[2]))
	case 76, 80, 137:
		path = p.abs(string(c.in[0]))
	default:
		if f := p.fds[int(c.a[0])]; f != nil && class != "mmap" {
			path = f.path
		}
		if class == "mmap" {
			if f := p.fds[int(int32(c.a[4]))]; f != nil {
				path = f.path
			}
		}
	}
	if c.trap == 257 {
		if isWriteFlags(int(c.a[2])) {
			class = "openw"
		} else {
			class = "open"
		}
	}
	role := m.roleOf(path)
	ord := p.nsys - 1
	if quiet(c) {
		ord = -1
	}
	switch c.trap {
	case trapSched:
		return m.webSched(p, c), ""
	case trapReply:
		return m.webReply(p, c), ""
	case trapAbort:
		return m.webAbort(p, c), ""
	}
	if c.trap == 9+1<<20 { // second half of mmap: no scheduling, no fault
		return m.mapAttach(p, c), ""
	}
	m.fs.clock += 2000 + int64(mix64(uint64(m.step), m.fs.order)%90_000)
	if class == "fsync" {
		m.fs.clock += 4_000_000
	}
	p.classes[class]++
	var rep *Reply
	ftxt := ""
	act := ""
	var torn *Fault
	for i := range p.spec.Faults {
		f := &p.spec.Faults[i]
		if f.Class != "any" && f.Class != class {
			continue
		}
		if f.Class == "any" && quiet(c) {
			continue
		}
		if f.Role != "" && f.Role != role || f.Path != "" && !strings.Contains(path, f.Path) {
			continue
		}
		k := f.seen
		f.seen++
		if k != f.N && !(f.Stick && k > f.N) {
			continue
		}
		f.fired++
		m.fired[f.Act+":"+class]++
		ftxt = f.String()
		switch f.Act {
		case "err":
			rep = &Reply{r1: -1, e: syscall.Errno(f.Errno)}
			if role == "stdout" && (class == "write") {
				p.OutLost = true
			}
			if of := p.fds[int(c.a[0])]; (class == "fsync" || class == "close") && of != nil && of.n != nil && of.n.kind == KReg && of.flags&3 != syscall.O_RDONLY && of.n.dhi > 0 {
				m.fs.loseDirty(of.n, uint64(m.step))
				m.fired["lost-pages:"+class]++
			}
			if class == "close" { // the descriptor is gone all the same
				if of := p.fds[int(c.a[0])]; of != nil {
					m.unlock(of)
					delete(p.fds, int(c.a[0]))
				}
			}
		case "short":
			torn = f
		case "crash-before":
			m.event(Event{Proc: p.id, Class: class, Path: path, Role: role, Fault: ftxt, Ord: ord})
			return nil, "crash"
		case "crash-after":
			act = "crash"
		case "crash-torn":
			torn = f
			act = "crash"
		case "clock":
			m.fs.clock += f.Arg
		}
		if rep != nil {
			break
		}
	}
	if rep == nil && p.spec.Eintr > 0 && (class == "read" || class == "write" || class == "open" || class == "openw" || class == "pread") && p.rnd.n(1000) < p.spec.Eintr {
		rep = &Reply{r1: -1, e: syscall.EINTR}
		m.fired["eintr:"+class]++
		ftxt = "EINTR"
	}
	if rep == nil {
		if torn != nil {
			limitBuf(c, int(torn.Arg))
		}
		rep = m.exec(p, c, class, path, role)
		if p.blocked {
			return nil, ""
		}
	}
	m.event(Event{Proc: p.id, Class: class, Path: path, Role: role, Ret: rep.r1, Errno: rep.e, Fault: ftxt, Ord: ord})
	return rep, act
}

// limitBuf truncates the transfer of a read or write call to n bytes (>=1).
func limitBuf(c *Call, n int) {
	if n < 1 {
		n = 1
	}
	switch c.trap {
	case 0, 17, 217:
		if c.trap != 217 && int(c.a[2]) > n {
			c.a[2] = int64(n)
		}
	case 1, 18:
		if len(c.in[1]) > n {
			c.in[1] = c.in[1][:n]
		}
	case 326:
		if int(c.a[4]) > n {
			c.a[4] = int64(n)
		}
	case 40:
		if int(c.a[3]) > n {
			c.a[3] = int64(n)
		}
	}
}

func errRep(e syscall.Errno) *Reply { return &Reply{r1: -1, e: e} }

func (p *Proc) at(dirfd int64) (*Inode, syscall.Errno) {
	if int32(dirfd) == -100 {
		return p.cwd, 0
	}
	f := p.fds[int(dirfd)]
	if f == nil {
		return nil, syscall.EBADF
	}
	if f.n == nil || f.n.kind != KDir {
		return nil, syscall.ENOTDIR
	}
	return f.n, 0
}

func (p *Proc) resolve(dirfd int64, path string, follow bool) (*Inode, string, *Inode, syscall.Errno) {
	d := p.m.fs.root
	if !strings.HasPrefix(path, "/") {
		var e syscall.Errno
		if d, e = p.at(dirfd); e != 0 {
			return nil, "", nil, e
		}
	}
	return p.m.fs.walk(d, path, follow, 0)
}

func (p *Proc) newFd(f *ofile) int {
	fd := p.nextFd
	for p.fds[fd] != nil {
		fd++
	}
	p.fds[fd] = f
	p.nextFd = fd + 1
	return fd
}

func statOf(n *Inode) []byte {
	var st syscall.Stat_t
	st.Dev = 1
	st.Ino = n.ino
	st.Nlink = uint64(max(n.nlink, 0))
	st.Mode = n.mode
	st.Uid, st.Gid = 1000, 1000
	st.Blksize = 4096
	switch n.kind {
	case KReg:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.data))
		if n.lie == 1 {
			st.Size = 0
		} else if n.lie == 2 {
			st.Size = 4096
		}
	case KDir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case KLink:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.target))
	case KFifo:
		st.Mode |= syscall.S_IFIFO
	}
	st.Blocks = (st.Size + 511) / 512
	st.Mtim.Sec, st.Mtim.Nsec = n.mtime/1e9, n.mtime%1e9
	st.Ctim, st.Atim = st.Mtim, st.Mtim
	b := make([]byte, unsafe.Sizeof(st))
	copy(b, unsafe.Slice((*byte)(unsafe.Pointer(&st)), len(b)))
	return b
}

func statfsOf(fs *FS) []byte {
	var st syscall.Statfs_t
	st.Type = 0xEF53
	st.Bsize = 4096
	st.Blocks, st.Bfree, st.Bavail = 1<<20, 1<<19, 1<<19
	st.Namelen = 255
	b := make([]byte, unsafe.Sizeof(st))
	copy(b, unsafe.Slice((*byte)(unsafe.Pointer(&st)), len(b)))
	return b
}

func (p *Proc) frag(n int, role string) int {
	s := p.spec
	if s.Frag <= 0 || role != "src" && role != "stdin" {
		return n
	}
	k := s.Frag
	if s.FragS != 0 {
		k = 1 + p.rnd.n(s.Frag)
	}
	k <<= min(p.nsys/20_000, 30) // a long run must not become an endless one
	if n > k {
		p.m.fired["short-read:read"]++
		return k
	}
	return n
}

func (m *Machine) exec(p *Proc, c *Call, class, path, role string) *Reply {
	fs := m.fs
	fdOf := func() *ofile { return p.fds[int(int32(c.a[0]))] }
	switch c.trap {
	case 0, 17: // read, pread64
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		n := int(c.a[2])
		var data []byte
		off := f.off
		if c.trap == 17 {
			off = int(c.a[3])
			if off < 0 {
				return errRep(syscall.EINVAL)
			}
		}
		switch {
		case f.std == 1:
			data, off = p.spec.Stdin, p.stdinP
		case f.std != 0:
			return errRep(syscall.EBADF)
		case f.n.kind == KDir:
			return errRep(syscall.EISDIR)
		case f.flags&3 == syscall.O_WRONLY:
			return errRep(syscall.EBADF)
		default:
			data = f.n.data
		}
		if off >= len(data) {
			if f.std == 1 && p.spec.StdinE != 0 {
				m.fired["err:read"]++
				return errRep(syscall.Errno(p.spec.StdinE))
			}
			return &Reply{r1: 0}
		}
		avail := len(data) - off
		if n > avail {
			n = avail
		}
		n = p.frag(n, role)
		out := data[off : off+n]
		if f.std == 1 {
			p.stdinP += n
		} else if c.trap == 0 {
			f.off += n
		}
		rep := &Reply{r1: int64(n)}
		rep.outs[1] = out
		return rep
	case 1, 18: // write, pwrite64
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		b := c.in[1]
		switch f.std {
		case 2:
			if p.spec.OutCap > 0 {
				room := p.spec.OutCap - 1 - len(p.Out)
				if len(b) > room {
					if room <= 0 {
						p.OutLost = true
						e := syscall.ENOSPC
						if p.spec.OutErr != 0 {
							e = syscall.Errno(p.spec.OutErr)
						}
						m.fired[errLabel(e)+":stdout"]++
						return errRep(e)
					}
					b = b[:room]
				}
			}
			p.Out = append(p.Out, b...)
			return &Reply{r1: int64(len(b))}
		case 3:
			p.Err = append(p.Err, b...)
			return &Reply{r1: int64(len(b))}
		case 1:
			return errRep(syscall.EBADF)
		}
		if f.n.kind == KDir || f.flags&3 == syscall.O_RDONLY {
			return errRep(syscall.EBADF)
		}
		off := f.off
		if c.trap == 18 {
			off = int(c.a[3])
		} else if f.flags&syscall.O_APPEND != 0 {
			off = len(f.n.data)
		}
		n, e := fs.write(f.n, off, b)
		if e != 0 {
			m.fired["enospc:write"]++
			return errRep(e)
		}
		if c.trap == 1 {
			f.off = off + n
		}
		return &Reply{r1: int64(n)}
	case 3:
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		m.unlock(f)
		delete(p.fds, int(int32(c.a[0])))
		return &Reply{}
	case 5: // fstat
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		rep := &Reply{}
		if f.std != 0 {
			t := Inode{kind: KFifo, mode: 0600, ino: uint64(f.std) + 1<<40}
			rep.outs[1] = statOf(&t)
		} else {
			rep.outs[1] = statOf(f.n)
		}
		return rep
	case 8: // lseek
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		if f.std != 0 {
			return errRep(syscall.ESPIPE)
		}
		o := int(c.a[1])
		switch c.a[2] {
		case 1:
			o += f.off
		case 2:
			o += len(f.n.data)
		}
		if o < 0 {
			return errRep(syscall.EINVAL)
		}
		f.off = o
		f.names, f.npos = nil, 0
		return &Reply{r1: int64(o)}
	case 9: // mmap
		fd := int(int32(c.a[4]))
		if fd == -1 || c.a[3]&syscall.MAP_ANON != 0 {
			return &Reply{r1: 0}
		}
		f := p.fds[fd]
		if f == nil {
			return errRep(syscall.EBADF)
		}
		if f.n == nil || f.n.kind != KReg {
			return errRep(syscall.ENODEV)
		}
		if c.a[1] <= 0 {
			return errRep(syscall.EINVAL)
		}
		p.nextMp++
		p.mapIDs[p.nextMp] = &mapping{n: f.n, off: int(c.a[5]), length: uint64(c.a[1])}
		return &Reply{r1: int64(p.nextMp)}
	case 11:
		for i, mp := range p.maps {
			if mp.addr == uint64(c.a[0]) {
				p.maps = append(p.maps[:i:i], p.maps[i+1:]...)
				break
			}
		}
		return &Reply{}
	case 32:
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		return &Reply{r1: int64(p.newFd(f))}
	case 33, 292:
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		p.fds[int(c.a[1])] = f
		return &Reply{r1: c.a[1]}
	case 39:
		return &Reply{r1: int64(p.pid)}
	case 110:
		return &Reply{r1: 1}
	case 40: // sendfile(out, in, *off, count)
		return m.transfer(p, int(c.a[1]), c.in[2], c.z[2], int(c.a[0]), nil, false, int(c.a[3]), 2, -1)
	case 326: // copy_file_range(in, *off, out, *off, len)
		return m.transfer(p, int(c.a[0]), c.in[1], c.z[1], int(c.a[2]), c.in[3], c.z[3], int(c.a[4]), 1, 3)
	case 275:
		return errRep(syscall.EINVAL)
	case 72: // fcntl
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		switch c.a[1] {
		case syscall.F_GETFL:
			return &Reply{r1: int64(f.flags)}
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return &Reply{r1: int64(p.newFd(f))}
		}
		return &Reply{}
	case 73: // flock
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		return m.flock(p, f, int(c.a[1]))
	case 74, 75, 277:
		f := fdOf()
		if f == nil {
			return errRep(syscall.EBADF)
		}
		if f.std != 0 {
			return errRep(syscall.EINVAL)
		}
		fs.sync(f.n)
		return &Reply{}
	case 162:
		fs.add(logRec{op: "syncall"})
		return &Reply{}
	case 76, 77: // truncate, ftruncate
		var n *Inode
		if c.trap == 77 {
			f := fdOf()
			if f == nil || f.n == nil {
				return errRep(syscall.EBADF)
			}
			n = f.n
		} else {
			_, _, t, e := p.resolve(-100, string(c.in[0]), true)
			if e != 0 {
				return errRep(e)
			}
			if t == nil {
				return errRep(syscall.ENOENT)
			}
			n = t
		}
		if n.kind != KReg || c.a[1] < 0 {
			return errRep(syscall.EINVAL)
		}
		fs.truncate(n, int(c.a[1]))
		return &Reply{}
	case 285:
		return errRep(syscall.EOPNOTSUPP)
	case 79: // getcwd
		s := p.cwdP + "\x00"
		if len(s) > int(c.a[1]) {
			return errRep(syscall.ERANGE)
		}
		rep := &Reply{r1: int64(len(s))}
		rep.outs[0] = []byte(s)
		return rep
	case 80:
		_, _, n, e := p.resolve(-100, string(c.in[0]), true)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		if n.kind != KDir {
			return errRep(syscall.ENOTDIR)
		}
		p.cwd, p.cwdP = n, p.abs(string(c.in[0]))
		return &Reply{}
	case 91, 93, 260:
		if c.trap == 91 {
			if f := fdOf(); f != nil && f.n != nil {
				f.n.mode = uint32(c.a[1]) & 07777
			}
		}
		return &Reply{}
	case 137, 138:
		rep := &Reply{}
		rep.outs[1] = statfsOf(fs)
		return rep
	case 217:
		return m.getdents(p, c)
	case 228:
		return &Reply{r1: fs.clock}
	case 318:
		n := int(c.a[1])
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(p.rnd.u64() >> 7)
		}
		rep := &Reply{r1: int64(n)}
		rep.outs[0] = b
		return rep
	case 257:
		return m.open(p, c.a[0], string(c.in[1]), int(c.a[2]), uint32(c.a[3]))
	case 258:
		d, name, n, e := p.resolve(c.a[0], string(c.in[1]), false)
		if e != 0 {
			return errRep(e)
		}
		if n != nil {
			return errRep(syscall.EEXIST)
		}
		fs.create(d, name, KDir, uint32(c.a[2])&^p.umask&0777, "")
		return &Reply{}
	case 262: // newfstatat
		flags := int(c.a[3])
		if len(c.in[1]) == 0 && flags&0x1000 != 0 {
			f := fdOf()
			if f == nil || f.n == nil {
				return errRep(syscall.EBADF)
			}
			rep := &Reply{}
			rep.outs[2] = statOf(f.n)
			return rep
		}
		_, _, n, e := p.resolve(c.a[0], string(c.in[1]), flags&0x100 == 0)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		rep := &Reply{}
		rep.outs[2] = statOf(n)
		return rep
	case 263: // unlinkat
		d, name, n, e := p.resolve(c.a[0], string(c.in[1]), false)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		if c.a[2]&0x200 != 0 {
			if n.kind != KDir {
				return errRep(syscall.ENOTDIR)
			}
			if len(n.kids) > 0 {
				return errRep(syscall.ENOTEMPTY)
			}
		} else if n.kind == KDir {
			return errRep(syscall.EISDIR)
		}
		if name == "." {
			return errRep(syscall.EINVAL)
		}
		if d.mode&0200 == 0 {
			return errRep(syscall.EACCES)
		}
		fs.unlink(d, name)
		return &Reply{}
	case 264, 316:
		d1, n1, n, e := p.resolve(c.a[0], string(c.in[1]), false)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		d2, n2, t, e := p.resolve(c.a[2], string(c.in[3]), false)
		if e != 0 {
			return errRep(e)
		}
		if n1 == "." || n2 == "." {
			return errRep(syscall.EBUSY)
		}
		if d1.mode&0200 == 0 || d2.mode&0200 == 0 {
			return errRep(syscall.EACCES)
		}
		if c.trap == 316 && c.a[4]&1 != 0 && t != nil {
			return errRep(syscall.EEXIST)
		}
		if t != nil {
			if t.kind == KDir && n.kind != KDir {
				return errRep(syscall.EISDIR)
			}
			if t.kind != KDir && n.kind == KDir {
				return errRep(syscall.ENOTDIR)
			}
			if t.kind == KDir && len(t.kids) > 0 {
				return errRep(syscall.ENOTEMPTY)
			}
		}
		fs.rename(d1, n1, d2, n2)
		return &Reply{}
	case 265: // linkat
		_, _, n, e := p.resolve(c.a[0], string(c.in[1]), c.a[4]&0x400 != 0)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		d2, n2, t, e := p.resolve(c.a[2], string(c.in[3]), false)
		if e != 0 {
			return errRep(e)
		}
		if t != nil {
			return errRep(syscall.EEXIST)
		}
		if n.kind == KDir {
			return errRep(syscall.EPERM)
		}
		n.nlink++
		d2.kids[n2] = n
		fs.add(logRec{op: "link", dir: d2.ino, name: n2, ino: n.ino})
		return &Reply{}
	case 266:
		d, name, n, e := p.resolve(c.a[1], string(c.in[2]), false)
		if e != 0 {
			return errRep(e)
		}
		if n != nil {
			return errRep(syscall.EEXIST)
		}
		fs.create(d, name, KLink, 0777, string(c.in[0]))
		return &Reply{}
	case 267:
		_, _, n, e := p.resolve(c.a[0], string(c.in[1]), false)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		if n.kind != KLink {
			return errRep(syscall.EINVAL)
		}
		t := []byte(n.target)
		if len(t) > int(c.a[3]) {
			t = t[:c.a[3]]
		}
		rep := &Reply{r1: int64(len(t))}
		rep.outs[2] = t
		return rep
	case 268, 452:
		_, _, n, e := p.resolve(c.a[0], string(c.in[1]), true)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		n.mode = uint32(c.a[2]) & 07777
		return &Reply{}
	case 269, 439:
		_, _, n, e := p.resolve(c.a[0], string(c.in[1]), true)
		if e != 0 {
			return errRep(e)
		}
		if n == nil {
			return errRep(syscall.ENOENT)
		}
		return &Reply{}
	case 280:
		return &Reply{}
	}
	return errRep(syscall.ENOSYS)
}

func (m *Machine) transfer(p *Proc, in int, inOff []byte, inZ bool, out int, outOff []byte, outZ bool, n, zi, zo int) *Reply {
	fi, fo := p.fds[in], p.fds[out]
	if fi == nil || fo == nil {
		return errRep(syscall.EBADF)
	}
	if fi.std != 0 || fi.n.kind != KReg {
		return errRep(syscall.EINVAL)
	}
	if fo.std != 0 || fo.n.kind != KReg || fo.flags&syscall.O_APPEND != 0 {
		return errRep(syscall.EINVAL)
	}
	io, oo := fi.off, fo.off
	if inZ {
		io = int(binary.LittleEndian.Uint64(inOff))
	}
	if outZ {
		oo = int(binary.LittleEndian.Uint64(outOff))
	}
	if io >= len(fi.n.data) || n <= 0 {
		return &Reply{}
	}
	if n > len(fi.n.data)-io {
		n = len(fi.n.data) - io
	}
	b := append([]byte(nil), fi.n.data[io:io+n]...)
	w, e := m.fs.write(fo.n, oo, b)
	if e != 0 {
		m.fired["enospc:copyrange"]++
		return errRep(e)
	}
	rep := &Reply{r1: int64(w)}
	if inZ {
		rep.outs[zi] = binary.LittleEndian.AppendUint64(nil, uint64(io+w))
	} else {
		fi.off += w
	}
	if outZ {
		if zo >= 0 {
			rep.outs[zo] = binary.LittleEndian.AppendUint64(nil, uint64(oo+w))
		}
	} else {
		fo.off += w
	}
	return rep
}

func (m *Machine) open(p *Proc, dirfd int64, path string, flags int, mode uint32) *Reply {
	const oPath = 0x200000
	if flags&0x410000 == 0x410000 { // O_TMPFILE
		return errRep(syscall.EOPNOTSUPP)
	}
	d, name, n, e := p.resolve(dirfd, path, flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL)
	if e != 0 {
		return errRep(e)
	}
	if len(p.fds) >= maxFiles && p.web == nil {
		m.fired["emfile"]++
		return errRep(syscall.EMFILE)
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return errRep(syscall.ENOENT)
		}
		if d.mode&0200 == 0 {
			return errRep(syscall.EACCES)
		}
		if m.fs.free == 0 {
			m.fired["enospc:create"]++
			return errRep(syscall.ENOSPC)
		}
		n = m.fs.create(d, name, KReg, mode&^p.umask&0777, "")
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return errRep(syscall.EEXIST)
		}
		if n.kind == KLink {
			return errRep(syscall.ELOOP)
		}
		if n.kind == KDir && isWriteFlags(flags) {
			return errRep(syscall.EISDIR)
		}
		if n.kind != KDir && flags&syscall.O_DIRECTORY != 0 {
			return errRep(syscall.ENOTDIR)
		}
		if flags&oPath == 0 {
			acc := flags & 3
			if (acc == syscall.O_RDONLY || acc == syscall.O_RDWR) && n.mode&0400 == 0 ||
				(acc == syscall.O_WRONLY || acc == syscall.O_RDWR) && n.mode&0200 == 0 {
				return errRep(syscall.EACCES)
			}
		}
		if n.kind == KFifo && flags&(syscall.O_NONBLOCK|oPath) == 0 {
			p.Timeout = true // waits for a writer forever
			p.kill()
			p.blocked = true
			return errRep(syscall.EINTR)
		}
		if n.kind == KReg && flags&syscall.O_TRUNC != 0 {
			m.fs.truncate(n, 0)
		}
	}
	return &Reply{r1: int64(p.newFd(&ofile{n: n, path: p.abs(path), flags: flags}))}
}

// maxFiles is how many files a process (but csweb, which may serve many
// requests at once) may have open: few, so that it matters if it forgets to
// close them.
const maxFiles = 40

func (m *Machine) getdents(p *Proc, c *Call) *Reply {
	f := p.fds[int(int32(c.a[0]))]
	if f == nil {
		return errRep(syscall.EBADF)
	}
	if f.n == nil || f.n.kind != KDir {
		return errRep(syscall.ENOTDIR)
	}
	if f.names == nil {
		f.names = sortedKids(f.n)
		ord := m.fs.order
		hash := func(s string) uint64 {
			h := ord
			for i := 0; i < len(s); i++ {
				h = mix64(h, uint64(s[i]))
			}
			return h
		}
		if ord != 0 {
			sort.SliceStable(f.names, func(i, j int) bool { return hash(f.names[i]) < hash(f.names[j]) })
		}
		if f.names == nil {
			f.names = []string{}
		}
	}
	size := int(c.a[2])
	var b []byte
	for f.npos < len(f.names) {
		name := f.names[f.npos]
		n := f.n.kids[name]
		if n == nil {
			f.npos++
			continue
		}
		rl := (19 + len(name) + 1 + 7) &^ 7
		if len(b)+rl > size {
			if len(b) == 0 {
				return errRep(syscall.EINVAL)
			}
			break
		}
		e := make([]byte, rl)
		binary.LittleEndian.PutUint64(e, n.ino)
		binary.LittleEndian.PutUint64(e[8:], uint64(f.npos+1))
		binary.LittleEndian.PutUint16(e[16:], uint16(rl))
		e[18] = map[Kind]byte{KReg: 8, KDir: 4, KLink: 10, KFifo: 1}[n.kind]
		copy(e[19:], name)
		b = append(b, e...)
		f.npos++
	}
	rep := &Reply{r1: int64(len(b))}
	rep.outs[1] = b
	return rep
}

func (m *Machine) flock(p *Proc, f *ofile, how int) *Reply {
	if f.n == nil {
		return &Reply{}
	}
	if how&syscall.LOCK_UN != 0 {
		m.unlock(f)
		return &Reply{}
	}
	want := how & (syscall.LOCK_SH | syscall.LOCK_EX)
	for _, o := range m.locks[f.n] {
		if o != f && (o.lock == syscall.LOCK_EX || want == syscall.LOCK_EX) {
			if how&syscall.LOCK_NB != 0 {
				return errRep(syscall.EWOULDBLOCK)
			}
			p.blocked = true
			return nil
		}
	}
	if f.lock == 0 {
		m.locks[f.n] = append(m.locks[f.n], f)
	}
	f.lock = want
	return &Reply{}
}

func (m *Machine) unlock(f *ofile) {
	if f.lock == 0 || f.n == nil {
		return
	}
	f.lock = 0
	l := m.locks[f.n]
	for i, o := range l {
		if o == f {
			m.locks[f.n] = append(l[:i:i], l[i+1:]...)
			break
		}
	}
	m.wake()
}

// ---- memory maps ----

func (m *Machine) mapAttach(p *Proc, c *Call) *Reply {
	mp := p.mapIDs[uint64(c.a[5])]
	if mp != nil {
		mp.addr = uint64(c.a[0])
		mp.fresh = true
		p.maps = append(p.maps, mp)
	}
	return &Reply{}
}

// mapUpdates encodes what changed under p's maps since its last call.
func (p *Proc) mapUpdates(b []byte) []byte {
	for _, mp := range p.maps {
		if !mp.fresh && mp.gen == mp.n.gen {
			continue
		}
		mp.fresh = false
		mp.gen = mp.n.gen
		var d []byte
		if mp.off < len(mp.n.data) {
			d = mp.n.data[mp.off:]
		}
		valid := len(d)
		if uint64(len(d)) > mp.length {
			// the kernel maps whole pages; bytes after length but within the page are visible too
			if lim := (mp.length + 4095) &^ 4095; uint64(len(d)) > lim {
				d = d[:lim]
			}
		}
		b = binary.LittleEndian.AppendUint64(b, mp.addr)
		b = binary.LittleEndian.AppendUint64(b, uint64(valid))
		b = binary.LittleEndian.AppendUint64(b, uint64(len(d)))
		b = append(b, d...)
	}
	return b
}

func errLabel(e syscall.Errno) string {
	switch e {
	case syscall.ENOSPC:
		return "enospc"
	case syscall.EPIPE:
		return "epipe"
	}
	return "eio"
}
