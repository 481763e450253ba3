package main

// The simulated disk: an in-memory POSIX file system with a volatile state
// (what running processes see), an operation log since the last checkpoint,
// and a power-loss procedure that reconstructs an adversarial but legal
// durable state from that log.

import (
	"sort"
	"strings"
	"syscall"
)

type Kind uint8

const (
	KReg Kind = iota
	KDir
	KLink
	KFifo
)

type Inode struct {
	ino    uint64
	kind   Kind
	mode   uint32
	data   []byte // treated as immutable once shared; see own
	shared bool
	kids   map[string]*Inode
	target string
	nlink  int
	mtime  int64
	lie    uint32 // 1: stat reports no size, 2: stat reports 4096 (as for files of procfs and sysfs)
	gen    uint64 // bumped on every change of data
	dlo    int    // data[dlo:dhi] holds everything written since the last sync
	dhi    int
}

func (n *Inode) own(capHint int) {
	if n.shared || cap(n.data) < capHint {
		c := capHint
		if c < 2*len(n.data) {
			c = 2 * len(n.data)
		}
		d := make([]byte, len(n.data), c)
		copy(d, n.data)
		n.data = d
		n.shared = false
	}
}

// A logRec is one durable-state-relevant operation.
type logRec struct {
	op   string // create mkdir symlink link unlink rmdir rename chmod | write trunc | sync | syncall
	dir  uint64
	name string
	dir2 uint64
	nam2 string
	ino  uint64
	mode uint32
	off  int
	data []byte
	size int
	str  string
}

type FS struct {
	root    *Inode
	nextIno uint64
	order   uint64 // seed of directory enumeration order
	free    int    // bytes left on the device, -1 for unlimited
	clock   int64
	base    *FS // durable checkpoint, when recording
	log     []logRec
	rec     bool
	huge    bool // something in it takes many calls to read
}

func NewFS(seed uint64) *FS {
	f := &FS{nextIno: 2, order: seed, free: -1, clock: 1_000_000_000}
	f.root = &Inode{ino: 1, kind: KDir, mode: 0755, kids: map[string]*Inode{}, nlink: 2}
	return f
}

// Clone copies the whole file system (file contents are shared copy-on-write).
func (f *FS) Clone() *FS {
	memo := map[*Inode]*Inode{}
	var cp func(n *Inode) *Inode
	cp = func(n *Inode) *Inode {
		if m := memo[n]; m != nil {
			return m
		}
		m := *n
		memo[n] = &m
		if n.kind == KReg {
			n.shared = true
			m.shared = true
		}
		if n.kids != nil {
			m.kids = make(map[string]*Inode, len(n.kids))
			for k, v := range n.kids {
				m.kids[k] = cp(v)
			}
		}
		return &m
	}
	g := *f
	g.root = cp(f.root)
	g.base, g.log, g.rec = nil, nil, false
	return &g
}

// Checkpoint declares everything durable and starts recording.
func (f *FS) Checkpoint() {
	f.rec = false
	b := f.Clone()
	f.base, f.log, f.rec = b, nil, true
}

func (f *FS) add(r logRec) {
	if f.rec {
		f.log = append(f.log, r)
	}
}

func (f *FS) newInode(k Kind, mode uint32) *Inode {
	n := &Inode{ino: f.nextIno, kind: k, mode: mode, mtime: f.clock, nlink: 1}
	f.nextIno++
	if k == KDir {
		n.kids = map[string]*Inode{}
		n.nlink = 2
	}
	return n
}

// walk resolves path. It returns the parent directory, the final name and the
// inode (nil if the last component does not exist).
func (f *FS) walk(start *Inode, path string, follow bool, depth int) (dir *Inode, name string, n *Inode, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(path) > 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	if path[0] == '/' {
		start = f.root
	}
	slash := strings.HasSuffix(path, "/")
	var parts []string
	for _, p := range strings.Split(path, "/") {
		if p != "" && p != "." {
			parts = append(parts, p)
		}
	}
	stack := []*Inode{start}
	if start != f.root {
		// keep parents for ".." from a relative start
		var find func(d *Inode) bool
		var st []*Inode
		find = func(d *Inode) bool {
			st = append(st, d)
			if d == start {
				return true
			}
			for _, k := range sortedKids(d) {
				if c := d.kids[k]; c.kind == KDir && find(c) {
					return true
				}
			}
			st = st[:len(st)-1]
			return false
		}
		if find(f.root) {
			stack = st
		}
	}
	if len(parts) == 0 {
		return stack[len(stack)-1], ".", stack[len(stack)-1], 0
	}
	for i, p := range parts {
		cur := stack[len(stack)-1]
		if cur.kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if len(p) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		last := i == len(parts)-1
		if p == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				return stack[len(stack)-1], ".", stack[len(stack)-1], 0
			}
			continue
		}
		c := cur.kids[p]
		if c == nil {
			if last {
				return cur, p, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if c.kind == KLink && (!last || follow || slash) {
			rest := strings.Join(parts[i+1:], "/")
			t := c.target
			if rest != "" {
				t += "/" + rest
			}
			return f.walk(cur, t, follow, depth+1)
		}
		if last {
			if slash && c.kind != KDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, p, c, 0
		}
		stack = append(stack, c)
	}
	panic("unreachable")
}

func sortedKids(d *Inode) []string {
	ks := make([]string, 0, len(d.kids))
	for k := range d.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- primitive operations (shared by system calls and by the driver) ----

func (f *FS) create(dir *Inode, name string, k Kind, mode uint32, target string) *Inode {
	n := f.newInode(k, mode)
	n.target = target
	dir.kids[name] = n
	dir.mtime = f.clock
	op := "create"
	switch k {
	case KDir:
		op = "mkdir"
	case KLink:
		op = "symlink"
	case KFifo:
		op = "fifo"
	}
	f.add(logRec{op: op, dir: dir.ino, name: name, ino: n.ino, mode: mode, str: target})
	return n
}

func (f *FS) unlink(dir *Inode, name string) {
	n := dir.kids[name]
	delete(dir.kids, name)
	n.nlink--
	dir.mtime = f.clock
	f.add(logRec{op: "unlink", dir: dir.ino, name: name})
	if n.kind == KReg && n.nlink == 0 && f.free >= 0 {
		f.free += len(n.data)
	}
}

func (f *FS) rename(d1 *Inode, n1 string, d2 *Inode, n2 string) {
	n := d1.kids[n1]
	if o := d2.kids[n2]; o != nil {
		if o == n {
			return
		}
		o.nlink--
		if o.kind == KReg && o.nlink == 0 && f.free >= 0 {
			f.free += len(o.data)
		}
	}
	delete(d1.kids, n1)
	d2.kids[n2] = n
	d1.mtime, d2.mtime = f.clock, f.clock
	f.add(logRec{op: "rename", dir: d1.ino, name: n1, dir2: d2.ino, nam2: n2})
}

// write stores p at off and returns how many bytes fit on the device.
func (f *FS) write(n *Inode, off int, p []byte) (int, syscall.Errno) {
	if f.free >= 0 {
		grow := off + len(p) - len(n.data)
		if grow > f.free {
			fit := len(p) - (grow - f.free)
			if fit <= 0 {
				return 0, syscall.ENOSPC
			}
			p = p[:fit]
			grow = f.free
		}
		if grow > 0 {
			f.free -= grow
		}
	}
	end := off + len(p)
	n.own(end)
	if end > len(n.data) {
		old := len(n.data)
		n.data = n.data[:end]
		for i := old; i < off; i++ {
			n.data[i] = 0
		}
	}
	copy(n.data[off:end], p)
	n.gen++
	n.mtime = f.clock
	if n.dhi == 0 || off < n.dlo {
		n.dlo = off
	}
	n.dhi = max(n.dhi, end)
	if f.rec {
		f.add(logRec{op: "write", ino: n.ino, off: off, data: append([]byte(nil), p...)})
	}
	return len(p), 0
}

func (f *FS) truncate(n *Inode, size int) {
	if f.free >= 0 {
		f.free += len(n.data) - size
		if f.free < 0 {
			f.free = 0
		}
	}
	if size <= len(n.data) {
		n.shared = true // cut copies on next write
		n.data = n.data[:size:size]
	} else {
		old := len(n.data)
		n.own(size)
		n.data = n.data[:size]
		for i := old; i < size; i++ {
			n.data[i] = 0
		}
	}
	n.gen++
	n.mtime = f.clock
	f.add(logRec{op: "trunc", ino: n.ino, size: size})
}

func (f *FS) sync(n *Inode) {
	n.dlo, n.dhi = 0, 0
	f.add(logRec{op: "sync", ino: n.ino})
}

// loseDirty is what the device does when writing back to it fails: some of the
// pages written since the last sync are gone, and no later call says so.
func (f *FS) loseDirty(n *Inode, seed uint64) {
	const page = 4096
	lo, hi := n.dlo/page, (min(n.dhi, len(n.data))+page-1)/page
	if hi <= lo {
		return
	}
	for k := lo + int(mix64(seed, n.ino)%uint64(hi-lo)); k < hi; k += 2 {
		a, b := max(k*page, n.dlo), min((k+1)*page, n.dhi, len(n.data))
		if a < b {
			f.write(n, a, make([]byte, b-a))
		}
	}
	n.dlo, n.dhi = 0, 0
}

// ---- power loss ----

// PowerLoss returns the file system a reboot would find. Metadata operations
// survive as a prefix of their order; data not covered by a sync of the file
// survives page by page at random. mode 0: a sync commits all metadata before
// it (as journalling file systems do); mode 1: it commits only the file data.
func (f *FS) PowerLoss(seed uint64) *FS {
	if f.base == nil {
		return f.Clone()
	}
	r := newRand(seed)
	mode := r.n(2)
	g := f.base.Clone()
	g.clock = f.clock
	g.nextIno = f.nextIno
	inodes := map[uint64]*Inode{}
	var reg func(n *Inode)
	reg = func(n *Inode) {
		inodes[n.ino] = n
		for _, c := range n.kids {
			reg(c)
		}
	}
	reg(g.root)
	// how much metadata survives
	minCut := 0
	lastSync := map[uint64]int{}
	for i, l := range f.log {
		switch l.op {
		case "sync":
			lastSync[l.ino] = i
			if mode == 0 {
				minCut = i
			}
			// syncing a directory commits its entries in both modes
			if in := f.find(l.ino); in != nil && in.kind == KDir {
				minCut = i
			}
		case "syncall":
			minCut = i
		}
	}
	cut := minCut
	switch r.n(4) {
	case 0:
		cut = len(f.log)
	case 1: // as little as allowed
	default:
		if len(f.log) > minCut {
			cut = minCut + r.n(len(f.log)-minCut+1)
		}
	}
	dataPolicy := r.n(4) // 0 lose all, 1 keep all, 2-3 random pages
	for i, l := range f.log {
		switch l.op {
		case "write", "trunc":
			n := inodes[l.ino]
			if n == nil { // created in the lost suffix
				continue
			}
			s, ok := lastSync[l.ino]
			safe := ok && i < s
			if !safe {
				for j := i + 1; j < len(f.log); j++ {
					if f.log[j].op == "syncall" {
						safe = true
						break
					}
				}
			}
			if l.op == "trunc" {
				if safe || i < cut && r.n(4) != 0 {
					g.truncate(n, l.size)
				}
				continue
			}
			if safe {
				g.write(n, l.off, l.data)
				continue
			}
			sizeUpdated := r.n(3) != 0
			for o := 0; o < len(l.data); {
				e := (l.off+o)/4096*4096 + 4096 - l.off
				if e > len(l.data) {
					e = len(l.data)
				}
				keep := dataPolicy == 1 || dataPolicy >= 2 && r.n(2) == 0
				if keep {
					g.write(n, l.off+o, l.data[o:e])
				} else if sizeUpdated && len(n.data) < l.off+e {
					g.truncate(n, l.off+e)
				}
				o = e
			}
		case "sync", "syncall":
		default:
			if i >= cut {
				continue
			}
			d := inodes[l.dir]
			if d == nil {
				continue
			}
			switch l.op {
			case "create", "mkdir", "symlink", "fifo":
				k := map[string]Kind{"create": KReg, "mkdir": KDir, "symlink": KLink, "fifo": KFifo}[l.op]
				n := g.newInode(k, l.mode)
				n.ino = l.ino
				n.target = l.str
				d.kids[l.name] = n
				inodes[l.ino] = n
			case "link":
				if n := inodes[l.ino]; n != nil {
					d.kids[l.name] = n
					n.nlink++
				}
			case "unlink":
				if n := d.kids[l.name]; n != nil {
					delete(d.kids, l.name)
					n.nlink--
				}
			case "rename":
				d2 := inodes[l.dir2]
				if n := d.kids[l.name]; n != nil && d2 != nil {
					delete(d.kids, l.name)
					d2.kids[l.nam2] = n
				}
			case "chmod":
				if n := inodes[l.ino]; n != nil {
					n.mode = l.mode
				}
			}
		}
	}
	return g
}

func (f *FS) find(ino uint64) *Inode {
	var res *Inode
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n.ino == ino {
			res = n
			return
		}
		for _, c := range n.kids {
			if res == nil {
				rec(c)
			}
		}
	}
	rec(f.root)
	return res
}

// ---- driver-side helpers ----

func (f *FS) lookup(path string, follow bool) *Inode {
	_, _, n, e := f.walk(f.root, path, follow, 0)
	if e != 0 {
		return nil
	}
	return n
}

func (f *FS) MkdirAll(path string) *Inode {
	cur := f.root
	for _, p := range strings.Split(path, "/") {
		if p == "" {
			continue
		}
		c := cur.kids[p]
		if c == nil {
			c = f.create(cur, p, KDir, 0755, "")
		}
		if c.kind != KDir {
			return nil
		}
		cur = c
	}
	return cur
}

func splitPath(path string) (dir, name string) {
	i := strings.LastIndexByte(path, '/')
	return path[:i+1], path[i+1:]
}

func (f *FS) Put(path string, data []byte) {
	dir, name := splitPath(path)
	d := f.MkdirAll(dir)
	if d == nil {
		return
	}
	n := d.kids[name]
	if n != nil && n.kind != KReg {
		return
	}
	if n == nil {
		n = f.create(d, name, KReg, 0644, "")
	} else {
		f.truncate(n, 0)
	}
	f.write(n, 0, data)
}

// Replace gives path fresh content through a new inode (editor-style save).
func (f *FS) Replace(path string, data []byte) {
	f.RemoveAll(path)
	f.Put(path, data)
}

func (f *FS) Symlink(path, target string) {
	dir, name := splitPath(path)
	d := f.MkdirAll(dir)
	if d == nil || d.kids[name] != nil {
		return
	}
	f.create(d, name, KLink, 0777, target)
}

func (f *FS) Fifo(path string) {
	dir, name := splitPath(path)
	d := f.MkdirAll(dir)
	if d == nil || d.kids[name] != nil {
		return
	}
	f.create(d, name, KFifo, 0644, "")
}

func (f *FS) RemoveAll(path string) {
	d, name, n, e := f.walk(f.root, path, false, 0)
	if e != 0 || n == nil || n == f.root {
		return
	}
	var rec func(d *Inode, name string)
	rec = func(d *Inode, name string) {
		n := d.kids[name]
		if n.kind == KDir {
			for _, k := range sortedKids(n) {
				rec(n, k)
			}
		}
		f.unlink(d, name)
	}
	rec(d, name)
}

func (f *FS) Get(path string) ([]byte, bool) {
	n := f.lookup(path, true)
	if n == nil || n.kind != KReg {
		return nil, false
	}
	return n.data, true
}

func (f *FS) Chmod(path string, mode uint32) {
	n := f.lookup(path, false)
	if n != nil {
		n.mode = mode
		f.add(logRec{op: "chmod", dir: 1, ino: n.ino, mode: mode})
	}
}

// Files lists every path below dir (files, links, fifos; not directories).
func (f *FS) Files(dir string) []string {
	var res []string
	n := f.lookup(dir, true)
	if n == nil {
		return nil
	}
	var rec func(n *Inode, p string)
	rec = func(n *Inode, p string) {
		if n.kind != KDir {
			res = append(res, p)
			return
		}
		for _, k := range sortedKids(n) {
			rec(n.kids[k], strings.TrimSuffix(p, "/")+"/"+k)
		}
	}
	rec(n, dir)
	return res
}

// Hash summarises names and contents (a state fingerprint).
func (f *FS) Hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		switch n.kind {
		case KDir:
			for _, k := range sortedKids(n) {
				mix(k)
				rec(n.kids[k])
			}
		case KReg:
			mix(string(n.data))
		default:
			mix(n.target)
		}
	}
	rec(f.root)
	return h
}

// ---- deterministic random numbers ----

type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rand) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (r *Rand) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

func (r *Rand) p(num, den int) bool { return r.n(den) < num }

func pick[T any](r *Rand, xs []T) T { return xs[r.n(len(xs))] }

func mix64(a, b uint64) uint64 {
	r := Rand{a ^ b*0xD6E8FEB86659FD93}
	r.u64()
	return r.u64()
}
