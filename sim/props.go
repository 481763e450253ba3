package main

// One generator per property. A job is one plan, or one plan whose chosen
// step is swept: re-executed from the same simulated state once per fault
// point.

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"
	"syscall"
)

type Sweep struct {
	Step int                                // index of the swept step
	Proc int                                // which of its processes
	Vary func(b *Plan, evs []Event) []*Plan // variants of the plan, given the fault-free events of that process
}

type Job struct {
	Plan  *Plan
	Sweep *Sweep
}

type PropDef struct {
	ID       string
	Title    string
	Quick    int // jobs
	Thorough int
	Level    string
	Rule     string
	Gen      func(g *genCtx) *Job
	Probes   []string // Totals counters that must not stay at zero
}

// builder accumulates a plan together with the state it leads to.
type builder struct {
	g    *genCtx
	p    *Plan
	fs   *FS
	md   *Model
	topt treeOpt
	iopt idxOpt
}

func newBuilder(g *genCtx, prop string, t treeOpt) *builder {
	g.big = t.big
	b := &builder{g: g, p: g.newPlan(prop), topt: t}
	b.iopt.zips = t.zips
	b.p.Tree = g.tree(t)
	b.fs = NewFS(1)
	for _, e := range b.p.Tree {
		b.fs.Apply(e)
	}
	b.md = absentModel()
	return b
}

func (b *builder) add(s Step) *Step {
	b.p.Steps = append(b.p.Steps, s)
	return &b.p.Steps[len(b.p.Steps)-1]
}

func (b *builder) edit(n int) {
	es := b.g.edits(b.fs, n, b.topt)
	if b.topt.keep != "" {
		k := 0
		for _, e := range es {
			if e.Op != "rm" || !under(b.topt.keep, e.Path) {
				es[k] = e
				k++
			}
		}
		es = es[:k]
	}
	for _, e := range es {
		b.fs.Apply(e)
	}
	b.add(Step{Kind: "edit", Edits: es})
}

// swap exchanges the contents of two files: the index of the result tends to
// have the size of the one before.
func (b *builder) swap() {
	fs := b.fs.Files("/w")
	for i := 0; i < 20 && len(fs) > 1; i++ {
		x, y := pick(b.g.r, fs), pick(b.g.r, fs)
		m, n := b.fs.lookup(x, false), b.fs.lookup(y, false)
		if m == nil || n == nil || m == n || m.kind != KReg || n.kind != KReg || strings.HasSuffix(strings.ToLower(x+y), ".zip") || bytes.Equal(m.data, n.data) {
			continue
		}
		es := []Edit{{Op: "write", Path: x, Data: append([]byte(nil), n.data...)}, {Op: "write", Path: y, Data: append([]byte(nil), m.data...)}}
		for _, e := range es {
			b.fs.Apply(e)
		}
		b.add(Step{Kind: "edit", Edits: es})
		return
	}
}

func (b *builder) shadow(sp *ProcSpec) {
	w := &World{}
	a := w.parseIndexArgs(sp)
	switch {
	case len(a.roots) == 0 && a.reset:
		b.md = absentModel()
	case len(a.roots) == 0 && b.md.absent:
	default:
		b.md = b.md.indexed(b.fs, a.roots, a.reset, a.zip)
	}
}

func (b *builder) index() *Step {
	s := b.g.indexStep(b.fs, b.md.absent, b.iopt)
	b.shadow(s.Procs[0])
	return b.add(s)
}

func (b *builder) verify(n int) *Step {
	return b.add(Step{Kind: "verify", N: n, Seed: b.g.r.u64()})
}

func (b *builder) search() *Step {
	sp := &ProcSpec{Bin: "csearch", Args: b.g.search(b.md)}
	b.g.perturb(sp)
	return b.add(Step{Kind: "search", Procs: []*ProcSpec{sp}})
}

func (b *builder) job() *Job { return &Job{Plan: b.p} }

func (p *Plan) clone() *Plan {
	c := *p
	c.Tree = append([]Edit(nil), p.Tree...)
	c.Steps = append([]Step(nil), p.Steps...)
	for i := range c.Steps {
		s := &c.Steps[i]
		s.Edits = append([]Edit(nil), s.Edits...)
		s.Sched = append([]Switch(nil), s.Sched...)
		var ps []*ProcSpec
		for _, x := range s.Procs {
			y := *x
			y.Args = append([]string(nil), x.Args...)
			y.Faults = append([]Fault(nil), x.Faults...)
			y.Edits = append([]Edit(nil), x.Edits...)
			if x.Web != nil {
				y.Web = x.Web.clone()
			}
			ps = append(ps, &y)
		}
		s.Procs = ps
	}
	return &c
}

// visible lists the events a fault can be placed on.
func visible(evs []Event, proc int) []Event {
	var out []Event
	for _, e := range evs {
		if e.Proc == proc && e.Ord >= 0 {
			out = append(out, e)
		}
	}
	return out
}

func sample[T any](r *Rand, xs []T, max int) []T {
	if len(xs) <= max {
		return xs
	}
	// an even spread with a random phase
	var out []T
	step := float64(len(xs)) / float64(max)
	ph := float64(r.n(1000)) / 1000
	for i := 0; i < max; i++ {
		k := int((float64(i) + ph) * step)
		if k < len(xs) {
			out = append(out, xs[k])
		}
	}
	return out
}

func withFault(p *Plan, step, proc int, fs ...Fault) *Plan {
	c := p.clone()
	c.Steps[step].Procs[proc].Faults = append(c.Steps[step].Procs[proc].Faults, fs...)
	return c
}

func isWriteRole(r string) bool {
	return r == "index" || r == "indextmp" || r == "tmp" || r == "indexdir"
}

// crashPoints makes one variant per system call: killed just before it, and
// for writes also part way through.
func crashPoints(g *genCtx, step, max int) *Sweep {
	return &Sweep{Step: step, Vary: func(p *Plan, evs []Event) []*Plan {
		var vs []*Plan
		var early, late []Event
		for _, e := range evs {
			if isWriteRole(e.Role) && e.Class != "openw" || e.Class == "rename" || e.Class == "unlink" {
				late = append(late, e)
			} else {
				early = append(early, e)
			}
		}
		pts := append(sample(g.r, early, max/4), sample(g.r, late, max*3/4)...)
		for _, e := range pts {
			vs = append(vs, withFault(p, step, 0, Fault{Class: "any", N: e.Ord, Act: "crash-before"}))
			if e.Class == "write" && e.Ret > 1 && g.r.p(1, 2) {
				vs = append(vs, withFault(p, step, 0, Fault{Class: "any", N: e.Ord, Act: "crash-torn", Arg: int64(1 + g.r.n(int(e.Ret)-1))}))
			}
		}
		return append(vs, fallbacks(g, p, step, late, max/10)...)
	}}
}

// fallbacks makes variants in which a call fails and then, in whatever the
// program does about that, another one fails or the program is killed.
func fallbacks(g *genCtx, p *Plan, step int, evs []Event, max int) []*Plan {
	var cand, install []Event
	for _, e := range evs {
		if len(errnosFor(e.Class)) > 0 && e.Errno == 0 {
			cand = append(cand, e)
			if e.Class == "rename" || e.Class == "fsync" {
				install = append(install, e)
			}
		}
	}
	var vs []*Plan
	for i := 0; i < max && len(cand) > 0; i++ {
		e := pick(g.r, cand)
		if len(install) > 0 && g.r.p(1, 2) {
			e = pick(g.r, install)
		}
		f := Fault{Class: "any", N: e.Ord, Act: "err", Errno: pick(g.r, errnosFor(e.Class))}
		if e.Class == "rename" || e.Class == "openw" {
			f = Fault{Class: e.Class, Role: e.Role, Act: "err", Errno: f.Errno, Stick: g.r.p(1, 2)}
		}
		k := e.Ord + 1 + g.r.n(12)
		switch g.r.n(5) {
		case 0:
			vs = append(vs, withFault(p, step, 0, f, Fault{Class: "any", N: k, Act: "err", Errno: eio}))
		case 1:
			vs = append(vs, withFault(p, step, 0, f, Fault{Class: "write", Role: "index", Act: "err", Errno: enospc, Stick: true}))
		case 2:
			vs = append(vs, withFault(p, step, 0, f, Fault{Class: "write", N: g.r.n(2), Role: "index", Act: "crash-torn", Arg: int64(1 + g.r.n(60))}))
		default:
			vs = append(vs, withFault(p, step, 0, f, Fault{Class: "any", N: k, Act: "crash-before"}))
		}
	}
	return vs
}

const (
	eio    = int(syscall.EIO)
	enospc = int(syscall.ENOSPC)
	eacces = int(syscall.EACCES)
	enoent = int(syscall.ENOENT)
	emfile = int(syscall.EMFILE)
	erofs  = int(syscall.EROFS)
	edquot = int(syscall.EDQUOT)
	epipe  = int(syscall.EPIPE)
	estale = int(syscall.ESTALE)
	enomem = int(syscall.ENOMEM)
	eperm  = int(syscall.EPERM)
)

// errnosFor lists the errors a real kernel can give for a call.
func errnosFor(class string) []int {
	switch class {
	case "write", "pwrite":
		return []int{enospc, eio, edquot}
	case "openw", "mkdir":
		return []int{enospc, eacces, emfile, erofs}
	case "open":
		return []int{eacces, eio, emfile}
	case "rename":
		return []int{eio, enospc, eacces, erofs}
	case "unlink":
		return []int{eio, eacces}
	case "fsync", "close", "read", "pread", "getdents", "fstat", "stat", "lseek", "copyrange", "sendfile", "truncate":
		return []int{eio}
	case "mmap":
		return []int{enomem}
	case "chmod":
		return []int{eperm}
	}
	return nil
}

// ioFaults makes one variant per write-side call that fails.
func ioFaults(g *genCtx, step, max int) *Sweep {
	return &Sweep{Step: step, Vary: func(p *Plan, evs []Event) []*Plan {
		var cand []Event
		for _, e := range evs {
			if isWriteRole(e.Role) && len(errnosFor(e.Class)) > 0 && e.Errno == 0 {
				cand = append(cand, e)
			}
		}
		var vs []*Plan
		for _, e := range sample(g.r, cand, max) {
			f := Fault{Class: "any", N: e.Ord, Act: "err", Errno: pick(g.r, errnosFor(e.Class))}
			vs = append(vs, withFault(p, step, 0, f))
			if (e.Class == "write" || e.Class == "copyrange") && e.Ret > 1 {
				k := int64(1 + g.r.n(int(e.Ret)-1))
				// a short write, then either success or no more space
				vs = append(vs, withFault(p, step, 0, Fault{Class: "any", N: e.Ord, Act: "short", Arg: k}))
				vs = append(vs, withFault(p, step, 0, Fault{Class: "any", N: e.Ord, Act: "short", Arg: k},
					Fault{Class: "any", N: e.Ord + 1, Act: "err", Errno: pick(g.r, []int{enospc, enospc, eio})}))
			}
		}
		// disks of every small size
		total := 0
		for _, e := range evs {
			if e.Class == "write" && isWriteRole(e.Role) && e.Ret > 0 {
				total += int(e.Ret)
			}
		}
		for i := 0; i < max/4; i++ {
			c := p.clone()
			c.Steps[step].Procs[0].Free = 1 + g.r.n(total+1)
			vs = append(vs, c)
		}
		return append(vs, fallbacks(g, p, step, cand, max/6)...)
	}}
}

// srcFaults makes one variant per source-side call that fails.
func srcFaults(g *genCtx, step, max int) *Sweep {
	return &Sweep{Step: step, Vary: func(p *Plan, evs []Event) []*Plan {
		var cand []Event
		for _, e := range evs {
			if e.Role == "src" && e.Errno == 0 {
				switch e.Class {
				case "open", "read", "pread", "getdents", "stat":
					cand = append(cand, e)
				}
			}
		}
		var vs []*Plan
		for _, e := range sample(g.r, cand, max) {
			errnos := map[string][]int{"open": {eacces, enoent, eio, emfile, estale}, "stat": {eacces, enoent, eio, estale}, "read": {eio, estale}, "pread": {eio}, "getdents": {eio, estale}}[e.Class]
			fs := []Fault{{Class: "any", N: e.Ord, Act: "err", Errno: pick(g.r, errnos)}}
			if g.r.p(1, 4) { // a second one elsewhere
				e2 := pick(g.r, cand)
				fs = append(fs, Fault{Class: e2.Class, Role: "src", Path: e2.Path, Act: "err", Errno: eio})
			}
			vs = append(vs, withFault(p, step, 0, fs...))
		}
		return vs
	}}
}

// ---- the properties ----

func history(b *builder, runs, edits, pats int) {
	b.index()
	b.verify(pats)
	for i := 0; i < runs; i++ {
		if !b.g.r.p(1, 6) {
			b.edit(1 + b.g.r.n(edits))
		}
		s := b.index()
		if b.g.r.p(1, 4) {
			b.g.perturb(s.Procs[0])
		}
		b.verify(pats)
	}
}

var props = []*PropDef{
	{ID: "C01", Title: "re-indexing refines the map model", Quick: 2000, Thorough: 80000, Level: "exploration",
		Rule: "a run is a generated tree plus a history of 3-8 cindex runs and edits; non-trivial when at least one incremental merge happened and the execution (system calls and outputs) is distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C01", treeOpt{modes: g.r.p(1, 2), big: true, fifos: g.r.p(1, 4), files: 2 + g.r.n(30), lines: 8, odd: g.r.p(1, 2), links: g.r.p(1, 2)})
			b.iopt.weird = g.r.p(2, 3)
			if g.r.p(1, 10) { // the whole disk
				b.p.Index, b.p.Home, b.p.Tmp = "/.ix/index", "", "/.tmp"
				b.iopt.roots = append([]string{"/", "/"}, tops...)
			}
			history(b, 2+g.r.n(5), 6, g.r.n(2))
			return b.job()
		}},
	{ID: "C02", Title: "search is complete and sound", Quick: 2600, Thorough: 104000, Level: "exploration",
		Rule: "a run is a history of cindex runs, edits and csearch runs with generated patterns and options; non-trivial when at least one search printed a match and the execution is distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C02", treeOpt{modes: g.r.p(1, 2), big: true, fifos: g.r.p(1, 6), files: 4 + g.r.n(24), lines: 14, odd: g.r.p(1, 4)})
			b.index()
			n := 1 + g.r.n(3)
			for i := 0; ; i++ {
				for j := 0; j < 3+g.r.n(4); j++ {
					b.search()
				}
				if i == n {
					break
				}
				b.edit(1 + g.r.n(6))
				for j := 0; j < g.r.n(3); j++ {
					b.search()
				}
				b.index()
			}
			return b.job()
		}},
	{ID: "C03", Title: "a killed indexing run leaves the old or the new index", Quick: 260, Thorough: 10400, Level: "fault_enumeration",
		Rule: "each base run (tree, history, one target cindex run) is re-executed once per sampled system call of the target with the process killed there (writes also torn); non-trivial when the kill fired and the execution is distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C03", treeOpt{files: 2 + g.r.n(14), lines: 8})
			n := g.r.n(3)
			for i := 0; i < n; i++ {
				b.index()
				b.edit(1 + g.r.n(5))
			}
			b.index()
			at := len(b.p.Steps) - 1
			b.verify(1)
			return &Job{b.p, crashPoints(g, at, 60)}
		}},
	{ID: "C04", Title: "power loss leaves the old or the new index", Quick: 260, Thorough: 10400, Level: "fault_enumeration",
		Rule: "as C03, but the machine loses power: what survives is reconstructed from the operation log by a seeded legal choice of durable pages and directory operations; also power loss right after a successful exit; non-trivial when distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C04", treeOpt{files: 2 + g.r.n(12), lines: 8})
			n := g.r.n(3)
			for i := 0; i < n; i++ {
				b.index()
				b.edit(1 + g.r.n(5))
			}
			s := b.index()
			s.N = 1
			at := len(b.p.Steps) - 1
			b.add(Step{Kind: "power", Seed: g.r.u64()})
			b.verify(1)
			sw := &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
				var late []Event
				for _, e := range evs {
					if isWriteRole(e.Role) && e.Class != "openw" || e.Class == "rename" || e.Class == "unlink" || e.Class == "fsync" {
						late = append(late, e)
					}
				}
				if len(late) > 40 && g.r.p(1, 2) {
					late = late[len(late)-40:]
				}
				var vs []*Plan
				add := func(c *Plan) {
					c.Steps[at+1].Seed = g.r.u64()
					vs = append(vs, c)
				}
				for _, e := range sample(g.r, late, 30) {
					add(withFault(p, at, 0, Fault{Class: "any", N: e.Ord, Act: "crash-before"}))
					add(withFault(p, at, 0, Fault{Class: "any", N: e.Ord, Act: "crash-after"}))
				}
				for i := 0; i < 12; i++ {
					add(p.clone())
				}
				return vs
			}}
			return &Job{b.p, sw}
		}},
	{ID: "C05", Title: "write-side errors are never mistaken for success", Quick: 200, Thorough: 8000, Level: "fault_enumeration",
		Rule: "each base run is re-executed once per sampled write-side system call of the target cindex run, with that call failing, writing short, or the disk filling up; non-trivial when the fault fired and the execution is distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C05", treeOpt{files: 2 + g.r.n(14), lines: 8})
			n := g.r.n(3)
			for i := 0; i < n; i++ {
				b.index()
				b.edit(1 + g.r.n(5))
			}
			b.index()
			at := len(b.p.Steps) - 1
			b.verify(1)
			return &Job{b.p, ioFaults(g, at, 50)}
		}},
	{ID: "C06", Title: "source-tree errors are contained and reported", Quick: 380, Thorough: 15200, Level: "fault_enumeration",
		Rule: "each base run is re-executed once per sampled read-side system call of the target cindex run on the source tree, with that call failing; non-trivial when the fault fired and the execution is distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C06", treeOpt{files: 3 + g.r.n(18), lines: 8, odd: g.r.p(1, 2), links: true, zips: g.r.p(1, 4)})
			n := g.r.n(2)
			for i := 0; i < n; i++ {
				b.index()
				b.edit(1 + g.r.n(5))
			}
			b.index()
			at := len(b.p.Steps) - 1
			b.verify(1)
			return &Job{b.p, srcFaults(g, at, 50)}
		}},
	{ID: "C07", Title: "a search during re-indexing sees one version", Quick: 600, Thorough: 24000, Level: "exploration",
		Rule: "one cindex and 1-3 csearch processes interleaved at system-call granularity by a seeded schedule; non-trivial when the interleaving is distinct and has at least two switches",
		Gen:  genC07},
	{ID: "C08", Title: "overlapping indexing runs leave one complete index", Quick: 420, Thorough: 16800, Level: "exploration",
		Rule: "2-3 cindex processes interleaved at system-call granularity by a seeded schedule, sometimes with one killed; non-trivial when the interleaving is distinct and has at least two switches",
		Gen:  genC08},
	{ID: "C09", Title: "streaming grep equals line-by-line grep", Quick: 40000, Thorough: 1600000, Level: "exploration",
		Rule: "one cgrep run over generated files or standard input, with seeded read fragmentation, interruptions and buffer size; non-trivial when something matched and the execution is distinct",
		Gen:  genC09},
	{ID: "C10", Title: "search-time errors are contained and never silent", Quick: 3600, Thorough: 144000, Level: "fault_enumeration",
		Rule: "each base csearch or cgrep run is re-executed once per sampled read-side system call with that call failing, and with standard output failing after every sampled number of bytes; non-trivial when the fault fired and the execution is distinct",
		Gen:  genC10},
	{ID: "C11", Title: "index bytes depend only on the tree", Quick: 1400, Thorough: 56000, Level: "exploration",
		Rule: "the same cindex command from the same state executed 6 times under different fragmentation, interruptions, buffer sizes, flush thresholds, directory orders and clocks; non-trivial when distinct",
		Gen:  genC11},
	{ID: "C14", Title: "changes during indexing affect only the changed files", Quick: 560, Thorough: 22000, Level: "exploration",
		Rule: "one cindex run interleaved with a seeded script of edits of its tree; non-trivial when at least one edit landed during the run and the execution is distinct",
		Gen:  genC14},
	{ID: "C15", Title: "zip members are indexed and searched as files", Quick: 2600, Thorough: 104000, Level: "exploration",
		Rule: "histories of cindex -zip runs and edits over trees with (partly damaged) zip archives, with searches; non-trivial when distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C15", treeOpt{fifos: g.r.p(1, 6), files: 4 + g.r.n(14), lines: 8, zips: true})
			if g.r.p(1, 400) { // file numbers that do not fit 16 bits
				b.p.Tree = append(b.p.Tree, Edit{Op: "bigzip", Path: "/w/a/big.zip", Mode: uint32(66000 + g.r.n(6000)), Data: []byte(g.word())})
				b.fs.Apply(b.p.Tree[len(b.p.Tree)-1])
				for i := 0; i < 2; i++ {
					sp := &ProcSpec{Bin: "cindex", Args: []string{"-zip", pick(g.r, []string{"/w", "/w/a", "/w/b"})}}
					if i == 0 {
						sp.Args[1] = "/w/a"
					}
					b.shadow(sp)
					b.add(Step{Kind: "index", Procs: []*ProcSpec{sp}})
					b.verify(1)
					for _, p := range []string{"mark1", "mark[0-3]", "mark3|the"} {
						b.add(Step{Kind: "search", Procs: []*ProcSpec{{Bin: "csearch", Args: []string{"-n", "--", p}}}})
					}
					b.edit(3)
				}
				return b.job()
			}
			b.index()
			b.verify(2)
			for i := 0; i < 1+g.r.n(3); i++ {
				for j := 0; j < g.r.n(3); j++ {
					b.search()
				}
				b.edit(1 + g.r.n(5))
				for j := 0; j < g.r.n(2); j++ {
					b.search()
				}
				s := b.index()
				g.perturb(s.Procs[0])
				b.verify(2)
			}
			return b.job()
		}},
	{ID: "C16", Title: "only the index and private temporary files are written", Quick: 900, Thorough: 36000, Level: "fault_enumeration",
		Rule: "each base run (a cindex, csearch or cgrep run after a history, the index sometimes inside the indexed tree) is re-executed once per sampled system call with a read error, write error or kill there; the whole disk is compared before and after every process; non-trivial when a fault fired and the execution is distinct",
		Gen:  genC16},
	{ID: "C17", Title: "a cut-off index is refused loudly", Quick: 850, Thorough: 34000, Level: "fault_enumeration",
		Rule: "an index produced by a generated history is cut to sampled lengths and offered to cindex and csearch; non-trivial when distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C17", treeOpt{files: 1 + g.r.n(20), lines: 8})
			b.index()
			for i := 0; i < g.r.n(3); i++ {
				b.edit(3)
				b.index()
			}
			b.add(Step{Kind: "truncate-index", N: 8, Seed: g.r.u64(), Procs: []*ProcSpec{
				{Bin: "csearch", Args: []string{"--", g.pattern(nil)}},
				{Bin: "csearch", Args: []string{"-brute", "--", "."}},
				{Bin: "cindex", Args: []string{"-list"}},
				{Bin: "cindex", Args: []string{pick(g.r, tops)}},
				{Bin: "cindex"},
			}})
			return b.job()
		}},
	{ID: "C18", Title: "old-format indexes stay readable and mergeable", Quick: 4200, Thorough: 168000, Level: "exploration",
		Rule: "an independently encoded 32-bit-format index of a generated tree is searched and then re-indexed incrementally; non-trivial when distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C18", treeOpt{big: true, files: 2 + g.r.n(24), lines: 8})
			b.iopt.weird = g.r.p(1, 2)
			sp := &ProcSpec{Bin: "cindex", Args: g.roots(b.fs, b.iopt)}
			b.shadow(sp)
			b.add(Step{Kind: "put-v1", Procs: []*ProcSpec{sp}})
			b.verify(2)
			for i := 0; i < 1+g.r.n(3); i++ {
				b.edit(1 + g.r.n(5))
				b.search()
				b.index()
				b.verify(2)
			}
			return b.job()
		}},
	{ID: "C19", Title: "the next run recovers from any failures before it", Quick: 2400, Thorough: 96000, Level: "exploration",
		Rule: "histories in which a seeded subset of cindex runs is killed, loses power or meets write errors, each followed sooner or later by an undisturbed run; non-trivial when at least one fault fired and the execution is distinct",
		Gen:  genC19},
	{ID: "C20", Title: "the built-in checker accepts every index cindex makes", Quick: 4200, Thorough: 168000, Level: "exploration",
		Rule: "histories of cindex -check runs under faults on the source tree; every index produced is checked again; non-trivial when distinct",
		Gen: func(g *genCtx) *Job {
			b := newBuilder(g, "C20", treeOpt{big: true, files: 1 + g.r.n(40), lines: 12, odd: g.r.p(1, 3)})
			for i := 0; i < 2+g.r.n(4); i++ {
				s := b.index()
				if i > 0 || g.r.p(1, 2) {
					s.Procs[0].Args = append([]string{"-check"}, s.Procs[0].Args...)
				}
				b.add(Step{Kind: "check"})
				b.edit(1 + g.r.n(6))
			}
			return b.job()
		}},
}

func (g *genCtx) switches(n, procs, span int) []Switch {
	var sw []Switch
	for i := 0; i < n; i++ {
		sw = append(sw, Switch{Step: g.r.n(span), To: g.r.n(procs)})
	}
	sort.Slice(sw, func(i, j int) bool { return sw[i].Step < sw[j].Step })
	return sw
}

func genC07(g *genCtx) *Job {
	b := newBuilder(g, "C07", treeOpt{files: 3 + g.r.n(16), lines: 10})
	b.iopt.must = true
	for i := 0; i < g.r.n(3); i++ {
		b.index()
		b.edit(1 + g.r.n(5))
	}
	fs0, md0 := b.fs, b.md
	s := b.index()
	s.Kind = "par-search"
	n := 1 + g.r.n(3)
	for i := 0; i < n; i++ {
		src := md0
		if g.r.p(1, 2) {
			src = b.md
		}
		sp := &ProcSpec{Bin: "csearch", Args: g.search(src)}
		if g.r.p(1, 3) {
			sp.Args = []string{"-l", "--", ""}
		}
		s.Procs = append(s.Procs, sp)
	}
	_ = fs0
	at := len(b.p.Steps) - 1
	b.verify(1)
	nproc := len(s.Procs)
	return &Job{b.p, &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
		// without switches the index run goes first; evs are its calls
		var vs []*Plan
		k := len(evs)
		tailAt := func() int { // aim at the end of the run, where the index is replaced
			if g.r.p(1, 2) && k > 12 {
				return k - g.r.n(12)
			}
			return g.r.n(k + 1)
		}
		for i := 0; i < 14; i++ {
			c := p.clone()
			st := &c.Steps[at]
			switch g.r.n(3) {
			case 0: // one search starts in the middle of the index run, and may be interrupted itself
				x := tailAt()
				st.Sched = []Switch{{x, 1 + g.r.n(nproc-1)}}
				if g.r.p(2, 3) {
					st.Sched = append(st.Sched, Switch{x + 1 + g.r.n(14), 0})
				}
			case 1: // the search runs first for a while
				x := 1 + g.r.n(14)
				st.Sched = []Switch{{0, 1}, {x, 0}}
				if g.r.p(1, 2) {
					st.Sched = append(st.Sched, Switch{x + tailAt(), 1 + g.r.n(nproc-1)})
				}
			default:
				st.Sched = g.switches(2+g.r.n(8), nproc, k+20*nproc)
			}
			vs = append(vs, c)
		}
		return vs
	}}}
}

func genC08(g *genCtx) *Job {
	b := newBuilder(g, "C08", treeOpt{files: 3 + g.r.n(14), lines: 8})
	if g.r.p(3, 4) {
		b.index()
		b.verify(0)
		b.edit(1 + g.r.n(4))
	}
	n := 2 + g.r.n(2)
	s := b.add(Step{Kind: "par-index"})
	first := b.md.absent
	for i := 0; i < n; i++ {
		x := g.indexStep(b.fs, first, b.iopt)
		s.Procs = append(s.Procs, x.Procs[0])
	}
	at := len(b.p.Steps) - 1
	b.verify(1)
	after := g.indexStep(b.fs, true, b.iopt)
	b.add(after)
	b.verify(1)
	return &Job{b.p, &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
		var vs []*Plan
		k := len(evs) + 4
		for i := 0; i < 9; i++ {
			c := p.clone()
			st := &c.Steps[at]
			switch g.r.n(4) {
			case 0:
				st.Sched = []Switch{{g.r.n(k), 1}}
			case 1:
				x := g.r.n(k)
				st.Sched = []Switch{{x, 1}, {x + g.r.n(k), 0}}
			case 2: // lock-step
				for j, t := 0, 0; j < 150; j++ {
					t += 1 + g.r.n(3)
					st.Sched = append(st.Sched, Switch{t, j % n})
				}
			default:
				st.Sched = g.switches(2+g.r.n(10), n, k*n)
			}
			if g.r.p(1, 6) {
				st.Procs[g.r.n(n)].Faults = []Fault{{Class: "any", N: g.r.n(k), Act: "crash-before"}}
			}
			vs = append(vs, c)
		}
		return vs
	}}}
}

func (g *genCtx) grepData(buf, ctx int) []byte {
	// lines short enough that a buffer holds one with its context
	maxLine := buf/(ctx+3) - 1
	if g.over {
		maxLine = 4 * buf
	}
	long := 400
	if g.r.p(1, 150) {
		long = 100_000
	}
	var extra []string
	switch {
	case g.raw:
		extra = []string{"\xff", "\x80", "\xe4\xb8", "\xc3", "\xa0", "\x85", "\xed\xa0\x80", "\x00"}
	case g.r.p(1, 8):
		extra = []string{"\x00", "\x01", "\r", "\x7f", "\f", "\v", "\ufeff", "\u2028", "\u0085", "\u00a0", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000"}
	}
	if maxLine > long {
		maxLine = long
	}
	var b bytes.Buffer
	n := g.r.n(30)
	if g.r.p(1, 4) {
		n *= 4
	}
	for i := 0; i < n; i++ {
		l := g.line()
		if g.r.p(1, 8) {
			l = ""
		}
		for extra != nil && g.r.p(1, 2) {
			x := pick(g.r, extra)
			if k := g.r.n(len(l) + 1); k == len(l) || l[k] < 0x80 || g.raw {
				l = l[:k] + x + l[k:]
			}
		}
		if g.over && g.r.p(1, 3) {
			for k := g.r.n(3 * buf); k > 0; k -= len(l) {
				l += " " + l + g.word()
			}
		}
		if long > 400 && i == n/2 {
			l += strings.Repeat(" "+g.word(), max(0, maxLine/8))
		}
		if len(l) > maxLine {
			l = l[:max(maxLine, 0)]
			for len(l) > 0 && l[len(l)-1] >= 0x80 {
				l = l[:len(l)-1]
			}
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	d := b.Bytes()
	if g.r.p(1, 4) && len(d) > 0 {
		d = d[:len(d)-1]
	}
	return d
}

func genC09(g *genCtx) *Job {
	p := g.newPlan("C09")
	flags := g.grepFlags(true)
	ctx := 0
	for i, f := range flags {
		if f == "-A" || f == "-B" || f == "-C" {
			fmt.Sscan(flags[i+1], &ctx)
			if f == "-C" {
				ctx *= 2
			}
		}
	}
	buf := 1 << 20
	if g.r.p(9, 10) {
		buf = pick(g.r, []int{16, 24, 33, 48, 64, 100, 128, 200, 512, 1000, 4096})
		for buf/(ctx+3) < 6 {
			buf *= 2
		}
	}
	p.Knobs = []string{fmt.Sprintf("VERIF_GREPBUF=%d", buf)}
	sp := &ProcSpec{Bin: "cgrep", Args: flags}
	g.perturb(sp)
	var all []byte
	var names []string
	g.raw = ctx == 0 && g.r.p(1, 15)
	g.over = buf <= 512 && g.r.p(1, 10) // lines that do not fit the buffer
	if g.r.p(1, 3) {
		sp.Stdin = g.grepData(buf, ctx)
		all = sp.Stdin
	} else {
		n := 1 + g.r.n(3)
		if g.r.p(1, 40) {
			n = 45 + g.r.n(20)
		}
		for i := 0; i < n; i++ {
			n := fmt.Sprintf("/w/%s%d", pick(g.r, fileElems), i)
			d := g.grepData(buf, ctx)
			if g.r.p(1, 30) {
				d = nil
			}
			p.Tree = append(p.Tree, Edit{Op: "write", Path: n, Data: d})
			if g.r.p(1, 15) {
				p.Tree = append(p.Tree, Edit{Op: "lie", Path: n, Mode: 1 + uint32(g.r.n(2))})
			}
			all = append(all, d...)
			if g.r.p(1, 20) {
				n = "/w/missing" + n[3:]
			} else if g.r.p(1, 60) {
				n = "/w"
			}
			names = append(names, n)
			if g.r.p(1, 20) { // again
				names = append(names, pick(g.r, names))
			}
		}
	}
	pat := ""
	if g.raw {
		for pat == "" || !okPattern(pat) {
			pat = regexp.QuoteMeta(strings.Map(func(c rune) rune {
				if c < ' ' || c > '~' {
					return -1
				}
				return c
			}, g.lit(all)))
		}
	} else {
		pat = g.pattern(all)
	}
	sp.Args = append(append(sp.Args, "--", pat), names...)
	if g.r.p(1, 25) && len(names) > 0 {
		sp.Faults = []Fault{{Class: "read", Role: "src", N: g.r.n(4), Act: "err", Errno: eio}}
	}
	p.Steps = []Step{{Kind: "grep", Procs: []*ProcSpec{sp}}}
	if buf == 1<<20 && len(all) > 0 && len(names) < 4 && g.r.p(1, 60) { // more than one buffer of the usual size
		long := func(d []byte) []byte {
			if len(d) == 0 || d[len(d)-1] != '\n' {
				return d
			}
			return append(bytes.Repeat(d, min(1+pick(g.r, []int{300_000, 1_048_576, 1_500_000, 3_000_000})/len(d), 1+60_000/bytes.Count(d, []byte("\n")))), d[:g.r.n(len(d))]...)
		}
		if sp.Stdin != nil {
			sp.Stdin = long(sp.Stdin)
		} else {
			p.Tree[0].Data = long(p.Tree[0].Data)
		}
		if sp.Frag > 0 {
			sp.Frag = max(sp.Frag, 5000)
		}
	}
	if g.over {
		p.Steps[0].N = buf
	}
	return &Job{Plan: p}
}

func genC10(g *genCtx) *Job {
	b := newBuilder(g, "C10", treeOpt{modes: g.r.p(1, 2), fifos: g.r.p(1, 3), files: 3 + g.r.n(10), lines: 10, zips: g.r.p(1, 4)})
	if g.r.p(1, 60) { // no regular expression
		b.index()
		bad := pick(g.r, []string{"a(b", "*x", "[z-a]", "a{2,1}", "x**", "(?<n", "a\\", "(?z)", "[", ")", "\\pX", "x{1001}"})
		b.add(Step{Kind: "bad-pattern", Procs: []*ProcSpec{pick(g.r, []*ProcSpec{
			{Bin: "csearch", Args: []string{"-n", "--", bad}}, {Bin: "csearch", Args: []string{"-f", bad, "the"}}, {Bin: "csearch", Args: []string{"-html", "-i", "--", bad}},
			{Bin: "cgrep", Args: []string{"--", bad}, Stdin: []byte("the\n")}, {Bin: "cgrep", Args: []string{"-v", "-c", "--", bad, "/w"}}})}})
		return b.job()
	}
	b.p.Knobs = append(b.p.Knobs, fmt.Sprintf("VERIF_GREPBUF=%d", pick(g.r, []int{8192, 16384, 1 << 20})))
	if g.r.p(1, 3) { // cgrep
		var names []string
		var all []byte
		for _, e := range b.p.Tree {
			if d, ok := b.fs.Get(e.Path); ok && e.Op == "write" && isText(d) && len(names) < 4 && !slices.Contains(names, e.Path) {
				names = append(names, e.Path)
				all = append(all, d...)
			}
		}
		sp := &ProcSpec{Bin: "cgrep", Args: append([]string{"-n", "--", g.pattern(all)}, names...)}
		if len(names) == 0 || g.r.p(1, 4) {
			sp.Args = sp.Args[:3]
			sp.Stdin = g.grepData(4096, 0)
			if g.r.p(1, 2) {
				sp.StdinE = eio
			}
		}
		b.add(Step{Kind: "grep", Procs: []*ProcSpec{sp}})
	} else {
		b.index()
		if g.r.p(1, 3) {
			b.edit(3)
		}
		sp := &ProcSpec{Bin: "csearch", Args: g.search(b.md)}
		if g.r.p(1, 12) {
			sp = &ProcSpec{Bin: "cindex", Args: []string{"-list"}}
		}
		if sp.Bin == "csearch" && g.r.p(1, 6) { // files change while they are searched
			es := g.edits(b.fs, 1+g.r.n(6), b.topt)
			b.add(Step{Kind: "search-mutate", Procs: []*ProcSpec{sp, {Bin: "script", Edits: es}}})
			return &Job{b.p, g.meddle(len(b.p.Steps)-1, 16, b.fs, b.topt)}
		}
		b.add(Step{Kind: "search-faulty", Procs: []*ProcSpec{sp}})
	}
	at := len(b.p.Steps) - 1
	return &Job{b.p, &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
		var vs []*Plan
		vs = append(vs, p.clone())
		outBytes := 0
		var cand []Event
		for _, e := range evs {
			if e.Role == "stdout" && e.Class == "write" {
				outBytes += int(e.Ret)
			}
			if e.Errno == 0 && len(errnosFor(e.Class)) > 0 && e.Role != "stderr" && e.Role != "stdin" && e.Class != "openw" && !(e.Class == "close" && e.Role == "src") {
				cand = append(cand, e)
			}
		}
		for _, e := range sample(g.r, cand, 24) {
			vs = append(vs, withFault(p, at, 0, Fault{Class: "any", N: e.Ord, Act: "err", Errno: pick(g.r, errnosFor(e.Class)), Stick: g.r.p(1, 4) && e.Class == "read"}))
		}
		if outBytes > 0 {
			for i := 0; i < 8; i++ {
				c := p.clone()
				c.Steps[at].Procs[0].OutCap = 1 + g.r.n(outBytes)
				c.Steps[at].Procs[0].OutErr = pick(g.r, []int{0, 0, eio, epipe})
				vs = append(vs, c)
			}
		}
		return vs
	}}}
}

func genC11(g *genCtx) *Job {
	b := newBuilder(g, "C11", treeOpt{modes: g.r.p(1, 2), big: true, files: 3 + g.r.n(30), lines: 14, zips: g.r.p(1, 4)})
	for i := 0; i < g.r.n(3); i++ {
		b.index()
		b.edit(1 + g.r.n(5))
	}
	base := g.indexStep(b.fs, b.md.absent, b.iopt).Procs[0]
	b.shadow(base)
	s := b.add(Step{Kind: "same-index", Seed: g.r.u64()})
	for i := 0; i < 6; i++ {
		sp := *base
		if i > 0 {
			g.perturb(&sp)
			sp.Env = g.knobs()
			if g.r.p(1, 3) {
				sp.Faults = []Fault{{Class: "clock", N: 0, Act: "clock", Arg: int64(g.r.u64()>>20) - 1<<43}}
			}
		}
		s.Procs = append(s.Procs, &sp)
	}
	b.verify(1)
	return b.job()
}

func genC14(g *genCtx) *Job {
	b := newBuilder(g, "C14", treeOpt{modes: g.r.p(1, 2), fifos: g.r.p(1, 3), files: 4 + g.r.n(16), lines: 8})
	if g.r.p(1, 2) {
		b.index()
		b.edit(2)
	}
	b.iopt.must = true
	s := b.index()
	s.Kind = "index-mutate"
	at := len(b.p.Steps) - 1
	s.Procs = append(s.Procs, &ProcSpec{Bin: "script", Edits: g.edits(b.fs, 1+g.r.n(6), b.topt)})
	b.verify(2)
	// once things are quiet, another run is exact again
	b.add(Step{Kind: "index", Procs: []*ProcSpec{{Bin: "cindex"}}})
	b.verify(1)
	return &Job{b.p, g.meddle(at, 8, b.fs, b.topt)}
}

// meddle varies when the script that is process 1 of step at runs: spread over
// the run of process 0, or just before or after a call that concerns a
// certain file, which is what the script then changes.
func (g *genCtx) meddle(at, n int, fs *FS, o treeOpt) *Sweep {
	return &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
		var src []Event
		for _, e := range evs {
			if e.Role == "src" && e.Path != "" && e.Ord >= 0 {
				src = append(src, e)
			}
		}
		var vs []*Plan
		for i := 0; i < n; i++ {
			c := p.clone()
			s := &c.Steps[at]
			t := 0
			if i%3 == 0 || len(src) == 0 {
				es := s.Procs[1].Edits
				for range es {
					t += 1 + g.r.n(2*len(evs)/(len(es)+1)+1)
					s.Sched = append(s.Sched, Switch{t, 1}, Switch{t + 1, 0})
					t++
				}
			} else {
				s.Procs[1].Edits = nil
				j := 0
				for k := 0; k < 1+g.r.n(2) && j < len(src); k++ {
					j += g.r.n(len(src) - j)
					e := src[j]
					es := g.strike(e.Path, e.Class == "getdents", o)
					s.Procs[1].Edits = append(s.Procs[1].Edits, es...)
					x := e.Ord + 1 + t // before the call, or after it
					if g.r.p(1, 3) {
						x++
					}
					s.Sched = append(s.Sched, Switch{x, 1}, Switch{x + len(es), 0})
					t += len(es)
					j++
				}
			}
			vs = append(vs, c)
		}
		return vs
	}}
}

// strike changes the file or directory f in one of many ways.
func (g *genCtx) strike(f string, dir bool, o treeOpt) []Edit {
	rm := Edit{Op: "rm", Path: f}
	data := g.content(o.lines)
	if strings.HasSuffix(f, ".zip") && g.r.p(3, 4) {
		data = g.zip()
	}
	if dir {
		switch g.r.n(5) {
		case 0:
			return []Edit{{Op: "write", Path: f + "/" + g.elem(false, false), Data: data}}
		case 1:
			return []Edit{rm, {Op: "write", Path: f, Data: data}}
		case 2:
			return []Edit{rm, {Op: "mkdir", Path: f}, {Op: "write", Path: f + "/" + g.elem(false, false), Data: data}}
		case 3:
			return []Edit{rm, {Op: "symlink", Path: f, To: pick(g.r, []string{"/srv", "/w/b", "/nowhere"})}}
		}
		return []Edit{rm}
	}
	switch g.r.n(11) {
	case 0:
		return []Edit{rm, {Op: "fifo", Path: f}}
	case 1:
		return []Edit{rm, {Op: "mkdir", Path: f}}
	case 2:
		return []Edit{rm, {Op: "write", Path: f + "/" + g.elem(false, false), Data: data}}
	case 3:
		return []Edit{{Op: "replace", Path: f, Data: data}}
	case 4:
		return []Edit{{Op: "write", Path: f, Data: data}}
	case 5:
		return []Edit{{Op: "trunc", Path: f, Mode: uint32(g.r.n(2) * g.r.n(1000))}}
	case 6:
		return []Edit{{Op: "chmod", Path: f, Mode: 0}}
	case 7:
		return []Edit{{Op: "rename", Path: f, To: f + "x"}}
	case 8:
		return []Edit{rm, {Op: "symlink", Path: f, To: pick(g.r, []string{"/w/a", "/nowhere", path.Base(f)})}}
	case 9:
		return []Edit{{Op: "rm", Path: path.Dir(f)}}
	}
	return []Edit{rm}
}

func genC16(g *genCtx) *Job {
	b := newBuilder(g, "C16", treeOpt{modes: g.r.p(1, 2), files: 3 + g.r.n(14), lines: 8, odd: g.r.p(1, 2), links: g.r.p(1, 2), zips: g.r.p(1, 4)})
	if g.r.p(1, 2) { // the index inside an indexed tree
		b.p.Index, b.p.Home = pick(g.r, []string{"/w/ix.d/csindex", "/srv/ix.d/i", "/w/ix.d/.csearchindex"}), ""
		b.topt.keep = b.p.Index
	}
	for i := 0; i < g.r.n(3); i++ {
		b.index()
		b.verify(0)
		if g.r.p(1, 4) { // an index that others may read
			b.add(Step{Kind: "edit", Edits: []Edit{{Op: "chmod", Path: b.p.Index, Mode: pick(g.r, []uint32{0644, 0666, 0640})}}})
		}
		b.edit(1 + g.r.n(5))
	}
	var s *Step
	switch g.r.n(5) {
	case 0:
		s = b.add(Step{Kind: "quiet", Procs: []*ProcSpec{pick(g.r, []*ProcSpec{
			{Bin: "csearch", Args: g.search(b.md)}, {Bin: "cindex", Args: []string{"-list"}},
			{Bin: "cindex", Args: []string{"-list", "-check"}}, {Bin: "csearch", Args: []string{"-html", "-n", "the"}}})}})
	case 4:
		if b.md.absent {
			b.index()
		}
		s = b.add(Step{Kind: "search-faulty", Procs: []*ProcSpec{{Bin: "csearch", Args: g.search(b.md)}}})
	case 1:
		var names []string
		for _, f := range b.fs.Files("/w") {
			if n := b.fs.lookup(f, false); len(names) < 4 && n != nil && n.kind == KReg {
				names = append(names, f)
			}
		}
		if len(names) > 0 {
			d, _ := b.fs.Get(names[0])
			if !isText(d) {
				d = nil
			}
			s = b.add(Step{Kind: "quiet", Procs: []*ProcSpec{{Bin: "cgrep", Args: append([]string{"-n", "--", g.pattern(d)}, names...)}}})
			break
		}
		fallthrough
	default:
		s = b.index()
	}
	kind := s.Kind
	at := len(b.p.Steps) - 1
	if kind == "index" {
		b.verify(0)
	}
	return &Job{b.p, &Sweep{Step: at, Vary: func(p *Plan, evs []Event) []*Plan {
		var vs []*Plan
		for _, e := range sample(g.r, evs, 40) {
			es := errnosFor(e.Class)
			switch {
			case g.r.p(1, 3):
				vs = append(vs, withFault(p, at, 0, Fault{Class: "any", N: e.Ord, Act: "crash-before"}))
			case len(es) > 0 && e.Errno == 0 && e.Role != "stderr" && e.Role != "stdin" && (kind == "index" || e.Class != "openw" && !(e.Class == "close" && e.Role == "src")):
				vs = append(vs, withFault(p, at, 0, Fault{Class: "any", N: e.Ord, Act: "err", Errno: pick(g.r, es)}))
			}
		}
		return vs
	}}}
}

func genC19(g *genCtx) *Job {
	b := newBuilder(g, "C19", treeOpt{files: 3 + g.r.n(14), lines: 8})
	if g.r.p(3, 4) {
		b.index()
		b.verify(0)
	}
	for i := 0; i < 1+g.r.n(3); i++ {
		for j := 0; j < 1+g.r.n(3); j++ { // disturbed runs
			if g.r.p(1, 2) {
				b.edit(1 + g.r.n(3))
			}
			s := g.indexStep(b.fs, b.md.absent, b.iopt)
			sp := s.Procs[0]
			span := 150
			switch g.r.n(5) {
			case 0, 1:
				sp.Faults = append(sp.Faults, Fault{Class: "any", N: g.r.n(span), Act: "crash-before"})
			case 2:
				sp.Faults = append(sp.Faults, Fault{Class: pick(g.r, []string{"write", "rename", "openw", "close", "fsync", "unlink"}), Role: pick(g.r, []string{"indextmp", "indextmp", "tmp", ""}), N: g.r.n(4), Act: "err", Errno: pick(g.r, []int{eio, enospc}), Stick: g.r.p(1, 3)})
			case 3:
				sp.Free = 1 + g.r.n(4000)
			default:
				s.N = 1
				sp.Faults = append(sp.Faults, Fault{Class: "any", N: g.r.n(span), Act: "crash-after"})
			}
			// the shadow model is approximate from here on; it only steers generation
			b.add(s)
			if s.N == 1 {
				b.add(Step{Kind: "power", Seed: g.r.u64()})
			}
			b.verify(0)
		}
		if g.r.p(1, 2) {
			b.edit(1 + g.r.n(3))
		}
		b.md = absentModel() // roots must be named: the index may or may not exist
		b.index()
		b.verify(1)
	}
	return b.job()
}

var _ = strings.Contains
