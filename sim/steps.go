package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"html"
	"slices"
	"sort"
	"strings"
)

// doGrep runs cgrep and compares its whole output with the reference.
func (w *World) doGrep(s *Step) *Violation {
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	p := ps[0]
	w.tot.Checks["greps checked"]++
	if p.hung() {
		return w.viol("hang", "%s", p.describe())
	}
	o, _, _, rest := parseGrepArgs(p.spec.Args)
	re, err := o.compile()
	if err != nil {
		return w.viol("grep", "bad pattern %q", o.Pat)
	}
	loose := map[string]bool{}
	openErr := map[string]bool{}
	for _, e := range m.trace {
		if e.Proc == 0 && strings.HasPrefix(e.Fault, "err") && (e.Role == "src" || e.Role == "stdin") {
			if e.Class == "open" {
				openErr[e.Path] = true
			} else if e.Class == "read" || e.Class == "pread" {
				loose[e.Path] = true
			}
		}
	}
	type in struct {
		name string
		data []byte
		bad  bool // cannot be read at all
		lose bool
	}
	var ins []in
	if len(rest) == 0 {
		ins = append(ins, in{"<standard input>", p.spec.Stdin, false, p.spec.StdinE != 0 || loose["<stdin>"]})
	}
	for _, f := range rest {
		q := f
		if !strings.HasPrefix(q, "/") {
			cwd := p.spec.Cwd
			q = strings.TrimSuffix(cwd, "/") + "/" + f
		}
		n := w.fs.lookup(q, true)
		if n == nil || n.kind != KReg || n.mode&0400 == 0 || openErr[q] {
			ins = append(ins, in{name: f, bad: true})
		} else {
			ins = append(ins, in{f, n.data, false, loose[q]})
		}
	}
	if p.OutLost {
		if p.Exit == 0 {
			return w.viol("lost-output", "a write to standard output failed, yet %s", p.describe())
		}
		return nil
	}
	if len(p.Real) > 0 || p.Exit < 0 || p.Exit > 1 {
		return w.viol("grep-died", "%s", p.describe())
	}
	anyLoose := false
	var want []string
	matched := false
	for _, x := range ins {
		if x.bad || x.lose {
			if x.lose && o.L && hasLine(p.Out, x.name) {
				// -l stops at the first match: the rest does not matter
			} else if !bytes.Contains(p.Err, []byte(x.name)) {
				return w.viol("unreported", "%q could not be read, but nothing on standard error says so: %s", x.name, p.describe())
			}
			if x.lose {
				anyLoose = true
			}
			continue
		}
		b, any := grepBlock(&o, re, x.name, x.data)
		want = append(want, b...)
		matched = matched || any
	}
	got, ok := outLines(p.Out)
	if !ok {
		return w.viol("grep", "%s: output does not end in a newline: %q", p.describe(), tail(p.Out))
	}
	if s.N > 0 { // some lines do not fit the buffer
		if (p.Exit == 0) != (len(got) > 0) {
			return w.viol("grep-exit", "%s: matched=%v", p.describe(), matched)
		}
		if o.C || o.L {
			return nil
		}
		anyLoose = true
		var fit []string
		ctx := o.Pre+o.Post > 0
		if ctx { // only the line numbers of matching lines
			o.Pre, o.Post, o.N = 0, 0, true
		}
		for _, x := range ins {
			if x.bad || x.lose {
				continue
			}
			b, _ := grepBlock(&o, re, x.name, x.data)
			pre := 0
			if !o.H {
				pre = len(x.name) + 1
			}
			for _, l := range b {
				at := pre
				if o.N {
					at += 1 + strings.IndexByte(l[pre:], ':')
				}
				if len(l)-at < s.N/2 {
					if ctx {
						l = l[:at]
					}
					fit = append(fit, l)
				}
			}
		}
		want = fit
		w.tot.Checks["greps with lines longer than the buffer"]++
	}
	if anyLoose {
		// complete files' blocks must appear, in order
		j := 0
		for _, l := range want {
			for j < len(got) && got[j] != l {
				j++
			}
			if j == len(got) {
				return w.viol("grep", "%s: line %q is missing", p.describe(), l)
			}
			j++
		}
		if s.N == 0 && matched != (p.Exit == 0) && len(got) == len(want) {
			return w.viol("grep", "%s: matched=%v", p.describe(), matched)
		}
		return nil
	}
	if !sameLines(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return w.viol("grep", "%s: output differs at line %d: got %s, want %s", p.describe(), i+1, quoteLines(got[i:], 4), quoteLines(want[i:], 4))
	}
	if matched != (p.Exit == 0) {
		return w.viol("grep-exit", "%s: matched=%v", p.describe(), matched)
	}
	if matched {
		w.nMatch++
		w.tot.Checks["greps with matches"]++
	}
	return nil
}

// doFaultySearch runs csearch with faults on its reads and writes.
func (w *World) doFaultySearch(s *Step) *Violation {
	ps, m := w.run(w.fs, s.Procs, nil)
	w.last = ps
	w.fs.free = -1
	p := ps[0]
	w.tot.Checks["searches under faults"]++
	if p.hung() {
		return w.viol("hang", "%s", p.describe())
	}
	if p.Crashed {
		return nil
	}
	if p.OutLost {
		if p.Exit == 0 {
			return w.viol("lost-output", "a write to standard output failed, yet %s", p.describe())
		}
		return nil
	}
	if p.spec.Bin == "cindex" { // -list
		for _, md := range w.models {
			if p.Exit == 0 && string(p.Out) == strings.Join(append(slices.Clone(md.roots), ""), "\n") {
				return nil
			}
		}
		for _, e := range m.trace {
			if strings.HasPrefix(e.Fault, "err") && p.Exit > 0 && len(p.Err)+len(p.Real) > 0 {
				return nil
			}
		}
		return w.viol("list", "%s", p.describe())
	}
	loose := map[string]bool{}
	gone := map[string]bool{}
	indexHit := false
	for _, e := range m.trace {
		if !strings.HasPrefix(e.Fault, "err") {
			continue
		}
		switch {
		case e.Role == "index":
			if e.Class != "close" && e.Class != "munmap" {
				indexHit = true
			}
		case e.Role == "src" && (e.Class == "read" || e.Class == "pread" || e.Class == "fstat" || e.Class == "lseek"):
			loose[e.Path] = true
		case e.Role == "src" && e.Class == "open":
			gone[e.Path] = int(e.Errno) != enoent
		}
	}
	if indexHit {
		if p.Exit == 0 || len(p.Err)+len(p.Real) == 0 {
			// tolerated only if the answer is right all the same
			if v := w.judgeSearch(p, m, w.fs, w.models); v != nil {
				v.Kind = "index-read-error"
				return v
			}
		}
		return nil
	}
	if len(p.Real) > 0 || p.Exit < 0 || p.Exit > 1 {
		return w.viol("search-died", "%s", p.describe())
	}
	o, fpat, brute, _ := parseGrepArgs(p.spec.Args)
	fs := w.fs
	lz := map[string]bool{}
	md := w.models[0]
	for n := range md.files {
		src := n
		if i := strings.Index(n, ".zip\x01"); i >= 0 {
			src = n[:i+4]
		}
		if loose[src] {
			lz[n] = true
		}
		if _, ok := gone[src]; ok {
			if fs == w.fs {
				fs = w.fs.Clone()
			}
			fs.RemoveAll(src)
		}
	}
	if msg := checkSearch(md, fs, &o, fpat, brute, p.Out, p.Exit, lz); msg != "" {
		return w.viol("search", "csearch %s under read faults: %s", strings.Join(p.spec.Args, " "), msg)
	}
	errs, shown := string(p.Err), p.Out
	if o.HTML {
		errs = html.UnescapeString(errs)
		shown, _ = htmlText(&o, shown)
	}
	listed := map[string]bool{} // files and archives of the index
	for n := range md.files {
		if z, _, ok := strings.Cut(n, ".zip\x01"); ok {
			n = z + ".zip"
		}
		listed[n] = true
	}
	for f := range loose {
		if o.L && (hasLine(shown, f) || strings.HasSuffix(f, ".zip")) {
			continue // -l stops at the first match: the rest does not matter
		}
		if !strings.Contains(errs, f) && listed[f] {
			return w.viol("unreported", "reading %q failed, but nothing on standard error says so: %s", f, p.describe())
		}
	}
	for f, loud := range gone {
		if loud && !strings.Contains(errs, f) && listed[f] {
			return w.viol("unreported", "opening %q failed, but nothing on standard error says so: %s", f, p.describe())
		}
	}
	return nil
}

func hasLine(out []byte, l string) bool {
	return bytes.Contains(append([]byte("\n"), out...), []byte("\n"+l+"\n"))
}

// doSearchMutate runs csearch while a script changes the files it searches:
// what it prints for the others must be exact.
func (w *World) doSearchMutate(s *Step) *Violation {
	before := w.fs.Clone()
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	if m.dead {
		return w.viol("deadlock", "the processes block each other forever")
	}
	touched := touchedBy(s.Procs[1:])
	var ms []*Model
	for _, md := range w.models {
		c := md.weaken(touched, false)
		for k, e := range c.files {
			e.free = inAny(k, touched)
		}
		ms = append(ms, c)
	}
	w.tot.Checks["searches of changing files checked"]++
	if v := w.judgeSearch(ps[0], m, before, ms); v != nil {
		v.Msg = "while other files changed: " + v.Msg
		return v
	}
	return nil
}

// touchedBy lists the paths that scripts change.
func touchedBy(ps []*ProcSpec) (out []string) {
	for _, p := range ps {
		for _, e := range p.Edits {
			out = append(out, e.Path)
			if e.Op == "rename" {
				out = append(out, e.To)
			}
		}
	}
	return out
}

// doParSearch runs one cindex and any number of csearch processes together.
func (w *World) doParSearch(s *Step) *Violation {
	before := w.fs.Clone()
	olds := w.models
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	if m.dead {
		return w.viol("deadlock", "the processes block each other forever")
	}
	ms, v := w.indexOutcome(ps[0], m, olds, before)
	if v != nil {
		return v
	}
	w.models = ms
	for _, p := range ps[1:] {
		w.tot.Checks["concurrent searches checked"]++
		if p.Crashed {
			continue
		}
		if v := w.judgeSearch(p, m, w.fs, append(append([]*Model(nil), olds...), ms...)); v != nil {
			v.Kind = "torn-view"
			v.Msg = "while the index was being replaced: " + v.Msg
			return v
		}
	}
	return nil
}

// doParIndex runs several cindex processes together.
func (w *World) doParIndex(s *Step) *Violation {
	before := w.fs.Clone()
	olds := w.models
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	if m.dead {
		return w.viol("deadlock", "the processes block each other forever")
	}
	failed := 0
	anyFault, limited := false, false
	for _, sp := range s.Procs {
		limited = limited || sp.Free != 0
	}
	bf := map[string]bool{}
	for _, f := range before.Files("/") {
		bf[f] = true
	}
	for i, p := range ps {
		if p.hung() {
			return w.viol("hang", "%s", p.describe())
		}
		if p.Crashed || len(p.spec.Faults) > 0 {
			anyFault = true
		}
		if p.Exit != 0 {
			failed++
			if !p.Crashed && p.panicked() {
				return w.viol("overlap-died", "%s", p.describe())
			}
			if !p.Crashed && len(p.spec.Faults) == 0 && !limited && !w.mayFail(i, ps, olds) {
				return w.viol("overlap-failed", "nothing disturbed this run and no other one removes the index: %s", p.describe())
			}
		}
	}
	if failed == 0 && !anyFault {
		for _, f := range w.fs.Files("/") {
			if !bf[f] && f != w.plan.Index {
				return w.viol("residue", "the runs succeeded and left %s behind", f)
			}
		}
	}
	// Any order of any of the runs is acceptable (nothing promises that
	// overlapping runs wait for each other), and a run without paths may have
	// read the list of roots before another run replaced the index.
	var cands []*Model
	var lists [][]string
	var rec func(md *Model, used int)
	rec = func(md *Model, used int) {
		if used != 0 || failed == len(ps) || anyFault {
			cands = append(cands, md)
		}
		for i, p := range ps {
			if used&(1<<i) != 0 {
				continue
			}
			a := w.parseIndexArgs(p.spec)
			if len(a.roots) == 0 && md.absent && !a.reset {
				continue
			}
			if len(a.roots) == 0 && a.reset {
				rec(absentModel(), used|1<<i)
				continue
			}
			rec(md.indexed(before, a.roots, a.reset, a.zip), used|1<<i)
			if len(a.roots) == 0 {
				for _, l := range lists {
					rec(md.indexed(before, l, a.reset, a.zip), used|1<<i)
				}
			}
		}
	}
	for _, o := range olds {
		rec(o, 0)
	}
	seen := map[string]bool{}
	for _, md := range cands {
		if k := strings.Join(md.roots, "\n"); !seen[k] && len(md.roots) > 0 {
			seen[k] = true
			lists = append(lists, md.roots)
		}
	}
	cands = nil
	for _, o := range olds {
		rec(o, 0)
	}
	w.models = distinct(cands)
	w.tot.Checks["overlapping runs judged"]++
	return nil
}

// mayFail reports whether the i-th of overlapping undisturbed runs may find no
// index where it needs one: another run removes it, or a run without paths
// started when there may have been none.
func (w *World) mayFail(i int, ps []*Proc, olds []*Model) bool {
	if len(w.parseIndexArgs(ps[i].spec).roots) == 0 {
		for _, o := range olds {
			if o.absent {
				return true
			}
		}
	}
	for j, p := range ps {
		if a := w.parseIndexArgs(p.spec); j != i && a.reset && len(a.roots) == 0 {
			return true
		}
	}
	return false
}

// doIndexMutate runs cindex while a script changes the tree under it.
func (w *World) doIndexMutate(s *Step) *Violation {
	before := w.fs.Clone()
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	ms, v := w.indexOutcome(ps[0], m, w.models, before)
	if v != nil {
		return v
	}
	touched := touchedBy(s.Procs[1:])
	w.models = nil
	for _, md := range ms {
		w.models = append(w.models, md.weaken(touched, true))
	}
	if ps[0].Exit != 0 && !ps[0].Crashed {
		return w.viol("index-failed", "the tree changed during the run, and %s", ps[0].describe())
	}
	return nil
}

// doTruncate cuts the index short and expects every tool to refuse it.
func (w *World) doTruncate(s *Step) *Violation {
	full, ok := w.fs.Get(w.plan.Index)
	if !ok || len(full) == 0 {
		return nil
	}
	r := newRand(s.Seed)
	for i := 0; i < s.N; i++ {
		var n int
		switch r.n(4) {
		case 0:
			n = r.n(min(len(full), 64))
		case 1:
			n = len(full) - 1 - r.n(min(len(full), 90))
		default:
			n = r.n(len(full))
		}
		fork := w.fs.Clone()
		cut := append([]byte(nil), full[:n]...)
		fork.Put(w.plan.Index, cut)
		w.tot.Checks["truncated indexes offered"]++
		w.tot.Fired["truncated index"]++
		for _, sp := range s.Procs {
			f2 := fork.Clone()
			ps, _ := w.run(f2, []*ProcSpec{sp}, nil)
			p := ps[0]
			if p.hung() {
				return w.viol("hang", "on an index cut to %d of %d bytes: %s", n, len(full), p.describe())
			}
			if p.Exit == 0 || len(p.Out) > 0 || len(p.Err)+len(p.Real) == 0 || p.Exit < 0 {
				return w.viol("accepted-torn-index", "on an index cut to %d of %d bytes: %s, stdout %q", n, len(full), p.describe(), tail(p.Out))
			}
			if d, ok := f2.Get(w.plan.Index); !ok || !bytes.Equal(d, cut) {
				return w.viol("index-state", "on an index cut to %d of %d bytes, %s changed it", n, len(full), p.describe())
			}
		}
	}
	return nil
}

// doSameIndex runs the same cindex command several times from the same state
// under different read fragmentation, buffer sizes, flush thresholds,
// interruptions and directory orders: the bytes must be the same.
func (w *World) doSameIndex(s *Step) *Violation {
	var ref []byte
	var refP *Proc
	for i, sp := range s.Procs {
		fork := w.fs.Clone()
		if i > 0 {
			fork.order = mix64(s.Seed, uint64(i)) * uint64(i%2)
		}
		before := fork.Clone()
		x := *w
		x.fs = fork
		ps, m := x.run(fork, []*ProcSpec{sp}, nil)
		w.hash, w.trace, w.pend = x.hash, x.trace, x.pend
		p := ps[0]
		ms, v := w.indexOutcome(p, m, w.models, before)
		if v != nil {
			return v
		}
		d, _ := fork.Get(w.plan.Index)
		w.tot.Checks["index images compared"]++
		if i == 0 {
			ref, refP = d, p
			continue
		}
		if !bytes.Equal(d, ref) {
			k := 0
			for k < len(d) && k < len(ref) && d[k] == ref[k] {
				k++
			}
			return w.viol("index-bytes", "same command, same files, different index: %d and %d bytes, first difference at %d (%s frag=%d env=%v; reference env=%v)", len(ref), len(d), k, strings.Join(sp.Args, " "), sp.Frag, sp.Env, refP.spec.Env)
		}
		if i == len(s.Procs)-1 {
			w.fs = fork
			w.models = ms
		}
	}
	return nil
}

// doPutV1 installs an index in the old on-disk format for the named roots.
func (w *World) doPutV1(s *Step) *Violation {
	a := w.parseIndexArgs(s.Procs[0])
	md := absentModel().indexed(w.fs, a.roots, true, false)
	w.fs.Put(w.plan.Index, encodeV1(md))
	w.models = []*Model{md}
	return nil
}

// encodeV1 is an independent encoder of the 32-bit index format.
func encodeV1(m *Model) []byte {
	var b bytes.Buffer
	b.WriteString("csearch index 1\n")
	u32 := func(x int) { binary.Write(&b, binary.BigEndian, uint32(x)) }
	pathOff := b.Len()
	for _, r := range m.roots {
		b.WriteString(r + "\x00")
	}
	b.WriteByte(0)
	nameOff := b.Len()
	var offs []int
	names := m.names()
	tri := map[uint32][]int{}
	for id, n := range names {
		offs = append(offs, b.Len()-nameOff)
		b.WriteString(n + "\x00")
		d := m.files[n].data
		seen := map[uint32]bool{}
		for i := 0; i+3 <= len(d); i++ {
			t := uint32(d[i])<<16 | uint32(d[i+1])<<8 | uint32(d[i+2])
			if !seen[t] {
				seen[t] = true
				tri[t] = append(tri[t], id)
			}
		}
	}
	offs = append(offs, b.Len()-nameOff)
	b.WriteByte(0)
	postOff := b.Len()
	var ts []uint32
	for t := range tri {
		ts = append(ts, t)
	}
	sortU32(ts)
	type pe struct{ t, count, off int }
	var pes []pe
	var vb [10]byte
	put := func(t uint32, ids []int) {
		pes = append(pes, pe{int(t), len(ids), b.Len() - postOff})
		b.Write([]byte{byte(t >> 16), byte(t >> 8), byte(t)})
		last := -1
		for _, id := range ids {
			b.Write(vb[:binary.PutUvarint(vb[:], uint64(id-last))])
			last = id
		}
		b.WriteByte(0)
	}
	for _, t := range ts {
		put(t, tri[t])
	}
	put(1<<24-1, nil)
	nameIdx := b.Len()
	for _, o := range offs {
		u32(o)
	}
	postIdx := b.Len()
	for _, e := range pes {
		b.Write([]byte{byte(e.t >> 16), byte(e.t >> 8), byte(e.t)})
		u32(e.count)
		u32(e.off)
	}
	u32(pathOff)
	u32(nameOff)
	u32(postOff)
	u32(nameIdx)
	u32(postIdx)
	b.WriteString("\ncsearch trailr\n")
	return b.Bytes()
}

func sortU32(a []uint32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }

// doCheck runs cindex -check -list on the current index: it must be accepted.
func (w *World) doCheck(s *Step) *Violation {
	if w.models[0].absent {
		return nil
	}
	ps, _ := w.run(w.fs.Clone(), []*ProcSpec{{Bin: "cindex", Args: []string{"-check", "-list"}}}, nil)
	p := ps[0]
	if p.hung() || p.Exit != 0 || len(p.Real) > 0 {
		return w.viol("check", "a sound index is rejected: %s", p.describe())
	}
	w.tot.Checks["-check runs"]++
	return nil
}

var _ = fmt.Sprint
