package main

// A plan is one complete simulated run: the initial disk, the steps, every
// fault and every scheduling decision. Executing a plan is deterministic; a
// plan written to a file is a replay file.

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

type Step struct {
	Kind  string      `json:"kind"`
	Edits []Edit      `json:"edits,omitempty"`
	Procs []*ProcSpec `json:"procs,omitempty"`
	Sched []Switch    `json:"sched,omitempty"`
	Seed  uint64      `json:"seed,omitempty"`
	N     int         `json:"n,omitempty"`
	Pats  [][]string  `json:"pats,omitempty"`
	Knobs []string    `json:"knobs,omitempty"` // overrides the plan's knobs for this step
}

type Plan struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Scenario string   `json:"scenario,omitempty"`
	Index    string   `json:"index"`
	Home     string   `json:"home,omitempty"`
	Rel      bool     `json:"rel,omitempty"` // name the index relative to the working directory
	Tmp      string   `json:"tmp,omitempty"`
	Order    uint64   `json:"order,omitempty"`
	Knobs    []string `json:"knobs,omitempty"`
	Tree     []Edit   `json:"tree"`
	Steps    []Step   `json:"steps"`
}

type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Step int    `json:"step"`
}

func (v *Violation) Error() string { return printable(v.Kind + ": " + v.Msg) }

// printable makes output text: names need not be UTF-8.
func printable(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

type World struct {
	plan      *Plan
	bins      *Bins
	fs        *FS
	models    []*Model
	prev      []*Model // models before the last index step (for power loss)
	step      int
	hash      uint64
	pend      *Violation
	trace     []Event
	tot       *Totals
	last      []*Proc // processes of the last step
	knobs     []string
	simNs     int64
	order     []int
	base      map[string]int // Fired counts when this run began
	swept     []Event
	nIndex    int
	nMatch    int
	maxSwitch int
}

// Totals accumulates what was covered.
type Totals struct {
	Runs       int
	Guests     int64
	Syscalls   int64
	SimNs      int64
	Fired      map[string]int
	Hashes     map[uint64]bool
	Nontrivial map[uint64]bool
	Orders     map[uint64]bool
	Checks     map[string]int
	Switches   int
	Crashes    int
	Outcomes   map[string]int
	StateHash  map[uint64]bool
}

func newTotals() *Totals {
	return &Totals{Fired: map[string]int{}, Hashes: map[uint64]bool{}, Nontrivial: map[uint64]bool{}, Orders: map[uint64]bool{}, Checks: map[string]int{}, Outcomes: map[string]int{}, StateHash: map[uint64]bool{}}
}

func (t *Totals) add(o *Totals) {
	t.Runs += o.Runs
	t.Guests += o.Guests
	t.Syscalls += o.Syscalls
	t.SimNs += o.SimNs
	t.Switches += o.Switches
	t.Crashes += o.Crashes
	for k, v := range o.Fired {
		t.Fired[k] += v
	}
	for k := range o.Hashes {
		t.Hashes[k] = true
	}
	for k := range o.Nontrivial {
		t.Nontrivial[k] = true
	}
	for k := range o.Orders {
		t.Orders[k] = true
	}
	for k := range o.StateHash {
		t.StateHash[k] = true
	}
	for k, v := range o.Checks {
		t.Checks[k] += v
	}
	for k, v := range o.Outcomes {
		t.Outcomes[k] += v
	}
}

func newWorld(p *Plan, bins *Bins, tot *Totals) *World {
	w := &World{plan: p, bins: bins, tot: tot, hash: 1469598103934665603}
	w.fs = NewFS(p.Order)
	w.fs.MkdirAll("/tmp")
	if p.Tmp != "" {
		w.fs.MkdirAll(p.Tmp)
	}
	d, _ := splitPath(p.Index)
	w.fs.MkdirAll(d)
	if p.Home != "" {
		w.fs.MkdirAll(p.Home)
	}
	for _, e := range p.Tree {
		w.fs.Apply(e)
	}
	w.models = []*Model{absentModel()}
	return w
}

// fork returns an independent copy of the world's state.
func (w *World) fork() *World {
	c := *w
	c.fs = w.fs.Clone()
	c.models = append([]*Model(nil), w.models...)
	c.trace = append([]Event(nil), w.trace...)
	return &c
}

func (w *World) env(cwd string) []string {
	var e []string
	if w.plan.Rel {
		e = append(e, "HOME=/nonexistent")
		switch cwd {
		case "":
			e = append(e, "CSEARCHINDEX="+w.plan.Index[1:])
		case "/w", "/srv":
			e = append(e, "CSEARCHINDEX=.."+w.plan.Index)
		default:
			e = append(e, "CSEARCHINDEX="+w.plan.Index)
		}
	} else if w.plan.Home != "" {
		e = append(e, "HOME="+w.plan.Home)
		if w.plan.Index != w.plan.Home+"/.csearchindex" {
			e = append(e, "CSEARCHINDEX="+w.plan.Index)
		}
	} else {
		e = append(e, "CSEARCHINDEX="+w.plan.Index)
	}
	if w.plan.Tmp != "" {
		e = append(e, "TMPDIR="+w.plan.Tmp)
	}
	return e
}

// run executes processes on the world's machine and accounts for them.
func (w *World) run(fs *FS, specs []*ProcSpec, sched []Switch) ([]*Proc, *Machine) {
	m := NewMachine(fs, w.bins, w.plan.Index)
	m.knobs = w.plan.Knobs
	m.seed = w.plan.Seed
	if w.knobs != nil {
		m.knobs = w.knobs
	}
	var cp []*ProcSpec
	for _, s := range specs {
		c := *s
		c.Env = append(append([]string(nil), w.env(s.Cwd)...), s.Env...)
		c.Faults = append([]Fault(nil), s.Faults...)
		cp = append(cp, &c)
	}
	t0 := fs.clock
	quiet, mutates := true, false // quiet: nothing may be written at all
	for _, c := range cp {
		if c.Bin == "cindex" && !slices.Contains(c.Args, "-list") {
			quiet = false
		}
		if len(c.Edits) > 0 {
			mutates = true
		}
	}
	sum := func() uint64 {
		if quiet {
			return w.sumOf(fs, nil)
		}
		return w.sumOf(fs, m)
	}
	h0 := sum()
	ps := m.Run(cp, sched)
	if !mutates && sum() != h0 && w.pend == nil {
		w.pend = w.viol("source-modified", "%s changed files it should only read", ps[0].describe())
	}
	w.tot.SimNs += fs.clock - t0
	w.tot.Guests += int64(len(ps))
	for _, p := range ps {
		w.tot.Syscalls += int64(p.nsys)
		if p.Crashed {
			w.tot.Crashes++
		}
	}
	for k, v := range m.fired {
		w.tot.Fired[k] += v
	}
	w.hash = mix64(w.hash, m.hash)
	for _, p := range ps {
		h := m.hash
		for _, b := range [][]byte{p.Out, p.Err} {
			for _, c := range b {
				h = (h ^ uint64(c)) * 1099511628211
			}
		}
		w.hash = mix64(w.hash, h^uint64(p.Exit))
	}
	w.trace = append(w.trace, m.trace...)
	if len(w.trace) > 40000 {
		w.trace = append([]Event(nil), w.trace[len(w.trace)-20000:]...)
	}
	w.order = append(w.order, m.order...)
	sw := len(m.order)/2 - 1
	w.tot.Switches += sw
	w.maxSwitch = max(w.maxSwitch, sw)
	return ps, m
}

func (w *World) viol(kind, format string, args ...any) *Violation {
	return &Violation{Kind: kind, Msg: fmt.Sprintf(format, args...), Step: w.step}
}

func (p *Proc) describe() string {
	s := p.spec.Bin + " " + strings.Join(p.spec.Args, " ")
	if p.Timeout {
		return s + ": did not finish"
	}
	if p.Crashed {
		return s + ": killed by injected crash"
	}
	s += fmt.Sprintf(": exit %d", p.Exit)
	if len(p.Real) > 0 {
		r := string(p.Real)
		if len(r) > 400 {
			r = r[:400] + "..."
		}
		s += ", runtime said " + fmt.Sprintf("%q", r)
	}
	if len(p.Err) > 0 {
		e := p.Err
		if len(e) > 300 {
			e = e[len(e)-300:]
		}
		s += fmt.Sprintf(", stderr ...%q", e)
	}
	return s
}

func (p *Proc) hung() bool {
	return p.Timeout || bytes.Contains(p.Real, []byte("SIGXCPU"))
}

// panicked reports whether the program died of a Go panic, fatal error or signal.
func (p *Proc) panicked() bool {
	return p.Exit < 0 && !p.Crashed || bytes.Contains(p.Real, []byte("goroutine ")) || bytes.Contains(p.Real, []byte("panic:")) || bytes.Contains(p.Real, []byte("fatal error:"))
}

// ---- cindex ----

type indexArgs struct {
	reset, zip, list bool
	roots            []string
}

func (w *World) parseIndexArgs(s *ProcSpec) (a indexArgs) {
	cwd := s.Cwd
	if cwd == "" {
		cwd = "/"
	}
	for _, x := range s.Args {
		switch {
		case x == "-reset":
			a.reset = true
		case x == "-zip":
			a.zip = true
		case x == "-list":
			a.list = true
		case strings.HasPrefix(x, "-"):
		case strings.HasPrefix(x, "/"):
			a.roots = append(a.roots, path.Clean(x))
		default:
			a.roots = append(a.roots, path.Join(cwd, x))
		}
	}
	return
}

// sumOf hashes all files or, given a machine, everything but the index, its
// siblings made by cindex and the temporary directory.
func (w *World) sumOf(fs *FS, m *Machine) uint64 {
	h := uint64(99)
	var rec func(n *Inode, p string)
	rec = func(n *Inode, p string) {
		if m != nil {
			if r := m.roleOf(p); r == "index" || r == "indextmp" || r == "tmp" {
				return
			}
		}
		h = mix64(h, hashBytes([]byte(p)))
		h = mix64(h, uint64(n.ino)<<16|uint64(n.mode))
		if n.kind != KDir {
			h = mix64(h, uint64(n.mtime))
			h = mix64(h, hashBytes(n.data))
			return
		}
		for _, k := range sortedKids(n) {
			rec(n.kids[k], strings.TrimSuffix(p, "/")+"/"+k)
		}
	}
	rec(fs.root, "/")
	return h
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func (w *World) files(m *Machine) map[string]bool {
	res := map[string]bool{}
	for _, p := range w.fs.Files("/") {
		res[p] = true
	}
	return res
}

// faultsOf sorts the injected faults that fired into source-side paths, and
// whether anything on the index or temporary side was hit.
func faultsOf(m *Machine, id int) (src []string, write bool) {
	for _, e := range m.trace {
		if e.Proc != id || e.Fault == "" {
			continue
		}
		if strings.HasPrefix(e.Fault, "err") || strings.HasPrefix(e.Fault, "short") {
			if strings.HasPrefix(e.Fault, "short") {
				continue // a legal short transfer must change nothing
			}
			if e.Role == "src" && (e.Class == "open" || e.Class == "read" || e.Class == "getdents" || e.Class == "stat" || e.Class == "fstat" || e.Class == "pread" || e.Class == "lseek") {
				src = append(src, e.Path)
			} else if e.Role != "stderr" && e.Class != "getcwd" {
				write = true
			}
		}
	}
	return
}

// indexOutcome judges one finished cindex process and returns the models that
// are acceptable afterwards.
func (w *World) indexOutcome(p *Proc, m *Machine, olds []*Model, fsBefore *FS) ([]*Model, *Violation) {
	a := w.parseIndexArgs(p.spec)
	if p.hung() {
		return nil, w.viol("hang", "%s", p.describe())
	}
	src, wr := faultsOf(m, p.id)
	if p.spec.Free > 0 {
		for k := range m.fired {
			if strings.HasPrefix(k, "enospc") {
				wr = true
			}
		}
	}
	var news []*Model
	for _, o := range olds {
		if len(a.roots) == 0 && o.absent && !a.reset {
			// nothing to reindex: any failure will do, the index stays absent
			news = append(news, o)
			continue
		}
		if len(a.roots) == 0 && a.reset {
			news = append(news, absentModel())
			continue
		}
		n := o.indexed(fsBefore, a.roots, a.reset, a.zip)
		if len(src) > 0 {
			n = n.weaken(src, false)
		}
		news = append(news, n)
	}
	failOK := wr
	for _, o := range olds {
		if len(a.roots) == 0 && o.absent && !a.reset {
			failOK = true
		}
	}
	switch {
	case p.Crashed:
		w.tot.Outcomes["crashed"]++
		return append(append([]*Model(nil), olds...), news...), nil
	case p.Exit == 0:
		if wr {
			w.tot.Outcomes["exit 0 despite a write-side fault"]++
		} else if len(src) > 0 {
			w.tot.Outcomes["exit 0 with source faults"]++
		} else {
			w.tot.Outcomes["exit 0"]++
		}
		return news, nil
	default:
		if !failOK {
			return nil, w.viol("index-failed", "no write-side fault was injected, yet %s", p.describe())
		}
		w.tot.Outcomes["refused after a fault"]++
		return append(append([]*Model(nil), olds...), news...), nil
	}
}

func (w *World) doIndex(s *Step) *Violation {
	w.prev = w.models
	olds := w.models
	before := w.fs.Clone()
	bf := w.files(nil)
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	p := ps[0]
	ms, v := w.indexOutcome(p, m, w.models, before)
	if v != nil {
		return v
	}
	w.models = ms
	if p.Exit == 0 && !p.Crashed {
		src, wr := faultsOf(m, p.id)
		if !wr && p.spec.Free == 0 {
			for f := range w.files(m) {
				if !bf[f] && f != w.plan.Index {
					return w.viol("residue", "successful %s left %s behind", p.describe(), f)
				}
			}
		}
		if n := w.fs.lookup(w.plan.Index, false); n != nil && w.plan.Property == "C16" {
			w.tot.Checks["index permissions checked"]++
			if n.kind != KReg || n.mode&077 != 0 {
				return w.viol("index-mode", "after %s the index file has mode %o: others can read the indexed text", p.describe(), n.mode)
			}
		}
		for _, f := range src {
			_, base := splitPath(f)
			if strings.HasSuffix(f, ".zip") && w.zipWhole(f, ms) {
				continue // a read the zip format can do without
			}
			if !hiddenAnywhere(f) && !bytes.Contains(p.Err, []byte(base)) {
				return w.viol("silent-skip", "error on %q was not reported: %s", f, p.describe())
			}
		}
		if len(olds) == 1 && len(src) == 0 {
			a := w.parseIndexArgs(p.spec)
			roots := a.roots
			if len(roots) == 0 && !a.reset {
				roots = olds[0].roots
			}
			for _, f := range troubles(before, roots, a.zip) {
				w.tot.Checks["unindexable files that must be reported"]++
				if !bytes.Contains(p.Err, []byte(f)) && !bytes.Contains(p.Err, []byte(strconv.Quote(f))) {
					return w.viol("silent-skip", "%q cannot be indexed and was not reported: %s", f, p.describe())
				}
			}
		}
	}
	return nil
}

// zipWhole reports whether every member that ought to be indexed is.
func (w *World) zipWhole(f string, ms []*Model) bool {
	ps, _ := w.run(w.fs.Clone(), []*ProcSpec{{Bin: "csearch", Args: []string{"-l", "--", ""}}}, nil)
	if ps[0].Exit < 0 || ps[0].Exit > 1 {
		return false
	}
	for _, e := range ms[0].names() {
		if under(e, f) {
			if !hasLine(ps[0].Out, e) {
				return false
			}
		}
	}
	return true
}

func hiddenAnywhere(p string) bool {
	for _, e := range strings.Split(p, "/") {
		if hiddenName(e) {
			return true
		}
	}
	return false
}

// ---- verification of the index through the tools' own output ----

func (w *World) verify(s *Step) *Violation {
	var first *Violation
	var ok []*Model
	w.models = distinct(w.models)
	for _, md := range w.models {
		if v := w.verifyModel(md, s); v == nil {
			ok = append(ok, md)
		} else {
			first = v
		}
	}
	w.tot.Checks["index verifications"]++
	if len(ok) == 0 {
		if len(w.models) > 1 {
			first.Msg = fmt.Sprintf("index matches none of the %d acceptable states; against the last: %s", len(w.models), first.Msg)
		}
		return first
	}
	w.models = ok
	return nil
}

func (w *World) verifyModel(md *Model, s *Step) *Violation {
	n := w.fs.lookup(w.plan.Index, true)
	if md.absent {
		if n != nil {
			return w.viol("index-state", "an index exists although none should")
		}
		return nil
	}
	if n == nil {
		return w.viol("index-state", "the index file is missing")
	}
	// roots
	fork := w.fs.Clone()
	ps, _ := w.run(fork, []*ProcSpec{{Bin: "cindex", Args: []string{"-list"}}}, nil)
	p := ps[0]
	if p.Exit != 0 {
		return w.viol("index-unreadable", "%s", p.describe())
	}
	got := strings.Split(strings.TrimSuffix(string(p.Out), "\n"), "\n")
	if len(p.Out) == 0 {
		got = nil
	}
	if !sameLines(got, md.roots) {
		return w.viol("roots", "cindex -list prints %s, want %s", quoteLines(got, 10), quoteLines(md.roots, 10))
	}
	// names
	ps, _ = w.run(fork, []*ProcSpec{{Bin: "csearch", Args: []string{"-l", "--", ""}}}, nil)
	p = ps[0]
	if p.Exit > 1 || p.Exit < 0 || len(p.Real) > 0 {
		return w.viol("index-unreadable", "%s", p.describe())
	}
	names, okNL := outLines(p.Out)
	if !okNL {
		return w.viol("names", "bad output %q", tail(p.Out))
	}
	seen := map[string]int{}
	for _, n := range names {
		seen[n]++
	}
	for _, n := range md.names() {
		c := seen[n]
		delete(seen, n)
		e := md.files[n]
		if c > 1 {
			return w.viol("names", "%q is indexed %d times", n, c)
		}
		if c == 0 && !e.optional {
			return w.viol("names", "%q is missing from the index", n)
		}
	}
	for n, c := range seen {
		if inAny(n, md.wildD) && c == 1 {
			continue
		}
		return w.viol("names", "the index lists %q, which should not be there", n)
	}
	// contents, through searches over files as they were when indexed
	pats := s.Pats
	if s.N > 0 {
		pats = append(append([][]string(nil), pats...), choosePatterns(md, newRand(s.Seed), s.N)...)
	}
	if len(pats) > 0 {
		fork := w.contentFork(md)
		if fork == nil {
			return nil
		}
		eff := &Model{roots: md.roots, files: md.files, wildD: md.wildD}
		// names known to be missing are not expected
		listed := map[string]bool{}
		for _, n := range names {
			listed[n] = true
		}
		eff.files = map[string]*Entry{}
		for n, e := range md.files {
			if listed[n] && !e.wild {
				c := *e
				c.optional = false
				eff.files[n] = &c
			} else if listed[n] {
				eff.files[n] = e
			}
		}
		for n := range listed {
			if eff.files[n] == nil {
				eff.files[n] = &Entry{wild: true, optional: true}
			}
		}
		for _, args := range pats {
			if v := w.searchOn(fork, []*Model{eff}, &ProcSpec{Bin: "csearch", Args: args}); v != nil {
				v.Kind = "content"
				return v
			}
		}
	}
	return nil
}

// contentFork is a disk holding the index and every indexed file as it was
// when it was indexed.
func (w *World) contentFork(md *Model) *FS {
	fs := NewFS(w.plan.Order)
	fs.clock = w.fs.clock
	fs.MkdirAll("/tmp")
	if w.plan.Home != "" {
		fs.MkdirAll(w.plan.Home)
	}
	d, _ := w.fs.Get(w.plan.Index)
	fs.Put(w.plan.Index, d)
	for n, e := range md.files {
		if fs.lookup(n, true) != nil {
			return nil
		}
		fs.Put(n, e.data)
		if fs.lookup(n, true) == nil {
			return nil
		}
	}
	return fs
}

// searchOn runs csearch and checks its output against any of the models.
func (w *World) searchOn(fs *FS, models []*Model, spec *ProcSpec) *Violation {
	ps, m := w.run(fs, []*ProcSpec{spec}, nil)
	w.last = ps
	w.tot.Checks["searches checked"]++
	return w.judgeSearch(ps[0], m, fs, models)
}

func (w *World) judgeSearch(p *Proc, m *Machine, fs *FS, models []*Model) *Violation {
	if p.hung() {
		return w.viol("hang", "%s", p.describe())
	}
	o, fpat, brute, _ := parseGrepArgs(p.spec.Args)
	msg := ""
	for _, md := range models {
		if md.absent {
			if p.Exit != 0 && len(p.Out) == 0 && len(p.Err)+len(p.Real) > 0 {
				return nil
			}
			msg = "there is no index, yet " + p.describe()
			continue
		}
		if len(p.Real) > 0 || p.Exit < 0 || p.Exit > 1 {
			msg = p.describe()
			continue
		}
		if msg = checkSearch(md, fs, &o, fpat, brute, p.Out, p.Exit, nil); msg == "" {
			if p.Exit == 0 {
				w.nMatch++
				w.tot.Checks["searches with matches"]++
			}
			return nil
		}
	}
	return w.viol("search", "csearch %s: %s", strings.Join(p.spec.Args, " "), msg)
}

// ---- executing a plan ----

func (w *World) exec(s *Step) *Violation {
	w.knobs = s.Knobs
	defer func() { w.knobs = nil }()
	if strings.Contains(s.Kind, "index") {
		w.nIndex++
	}
	for _, q := range s.Procs {
		if q.Cwd != "" && w.fs.lookup(q.Cwd, true) == nil {
			w.fs.MkdirAll(q.Cwd)
		}
	}
	switch s.Kind {
	case "edit":
		for _, e := range s.Edits {
			w.fs.Apply(e)
		}
	case "index":
		if s.N == 1 { // power loss follows
			w.fs.Checkpoint()
		}
		return w.doIndex(s)
	case "search":
		return w.searchOn(w.fs, w.models, s.Procs[0])
	case "verify":
		return w.verify(s)
	case "power":
		w.fs = w.fs.PowerLoss(s.Seed)
		w.tot.Fired["power loss"]++
		w.models = append(append([]*Model(nil), w.prev...), w.models...)
	case "quiet": // only its effects on the disk matter
		ps, _ := w.run(w.fs, s.Procs, s.Sched)
		w.last = ps
		if ps[0].hung() {
			return w.viol("hang", "%s", ps[0].describe())
		}
	case "grep":
		return w.doGrep(s)
	case "search-faulty":
		return w.doFaultySearch(s)
	case "bad-pattern":
		ps, _ := w.run(w.fs, s.Procs, s.Sched)
		w.last = ps
		w.tot.Checks["invalid patterns offered"]++
		if p := ps[0]; p.hung() || p.Crashed || p.panicked() || p.Exit <= 0 || len(p.Out) > 0 || len(p.Err) == 0 {
			return w.viol("bad-pattern", "%s printed %q", p.describe(), tail(p.Out))
		}
	case "search-mutate":
		return w.doSearchMutate(s)
	case "par-search":
		return w.doParSearch(s)
	case "par-index":
		return w.doParIndex(s)
	case "index-mutate":
		return w.doIndexMutate(s)
	case "truncate-index":
		return w.doTruncate(s)
	case "same-index":
		return w.doSameIndex(s)
	case "put-v1":
		return w.doPutV1(s)
	case "check":
		return w.doCheck(s)
	case "web":
		return w.doWeb(s)
	case "web-links":
		return w.doWebLinks(s)
	default:
		die("unknown step kind %q", s.Kind)
	}
	return nil
}

// do executes a step and reports what it or an invariant found.
func (w *World) do(s *Step) *Violation {
	v := w.exec(s)
	if v == nil {
		v = w.pend
	}
	return v
}

// runPlan executes the plan from the beginning.
func runPlan(p *Plan, bins *Bins, tot *Totals) (*World, *Violation) {
	w := newWorld(p, bins, tot)
	tot.Runs++
	for i := range p.Steps {
		w.step = i
		if v := w.do(&p.Steps[i]); v != nil {
			v.Step = i
			tot.Hashes[w.hash] = true
			return w, v
		}
		tot.StateHash[w.fs.Hash()] = true
	}
	tot.Hashes[w.hash] = true
	return w, nil
}

// ---- patterns for content verification ----

func choosePatterns(md *Model, r *Rand, n int) [][]string {
	names := md.names()
	var cand []string
	for _, x := range names {
		if e := md.files[x]; !e.wild && !e.optional && len(e.data) > 0 {
			cand = append(cand, x)
		}
	}
	var out [][]string
	for i := 0; i < n && len(cand) > 0; i++ {
		e := md.files[pick(r, cand)]
		ls := splitLines(e.data)
		l := []rune(string(ls[r.n(len(ls))]))
		if len(l) == 0 {
			out = append(out, []string{"-n", "--", "^$"})
			continue
		}
		k := 3 + r.n(6)
		if k > len(l) {
			k = len(l)
		}
		at := r.n(len(l) - k + 1)
		pat := regexp.QuoteMeta(string(l[at : at+k]))
		if at == 0 && r.p(1, 4) {
			pat = "^" + pat
		}
		if at+k == len(l) && r.p(1, 4) {
			pat += "$"
		}
		out = append(out, []string{"-n", "--", pat})
	}
	return out
}

var _ = sort.Strings
var _ = syscall.EIO
