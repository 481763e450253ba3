package main

import (
	"bytes"
	"fmt"
	"time"
	"unicode/utf8"
)

// minimise shrinks a violating plan while the same kind of violation remains.
func minimise(p *Plan, v *Violation, bins *Bins, budget time.Duration) *Plan {
	deadline := time.Now().Add(budget)
	best := p.clone()
	tries := 0
	ok := func(c *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		_, x := runPlan(c.clone(), bins, newTotals())
		return x != nil && x.Kind == v.Kind
	}
	accept := func(c *Plan) bool {
		if ok(c) {
			best = c
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before := fmt.Sprint(describePlan(best), len(best.Tree))
		changed := false
		// steps after the failing one, then each step
		for i := len(best.Steps) - 1; i >= 0 && len(best.Steps) > 1; i-- {
			c := best.clone()
			c.Steps = append(c.Steps[:i], c.Steps[i+1:]...)
			changed = accept(c) || changed
		}
		// tree entries, in shrinking blocks
		for size := len(best.Tree); size > 0; size /= 2 {
			for at := 0; at < len(best.Tree); {
				c := best.clone()
				end := min(at+size, len(c.Tree))
				c.Tree = append(c.Tree[:at], c.Tree[end:]...)
				if accept(c) {
					changed = true
				} else {
					at += size
				}
			}
		}
		if len(best.Knobs) > 0 {
			c := best.clone()
			c.Knobs = nil
			changed = accept(c) || changed
		}
		if best.Order != 0 {
			c := best.clone()
			c.Order = 0
			changed = accept(c) || changed
		}
		for i := range best.Steps {
			for k := len(best.Steps[i].Edits) - 1; k >= 0; k-- {
				c := best.clone()
				c.Steps[i].Edits = append(c.Steps[i].Edits[:k], c.Steps[i].Edits[k+1:]...)
				changed = accept(c) || changed
			}
			for k := len(best.Steps[i].Sched) - 1; k >= 0; k-- {
				c := best.clone()
				c.Steps[i].Sched = append(c.Steps[i].Sched[:k], c.Steps[i].Sched[k+1:]...)
				changed = accept(c) || changed
			}
			for k := len(best.Steps[i].Procs) - 1; k > 0; k-- {
				c := best.clone()
				c.Steps[i].Procs = append(c.Steps[i].Procs[:k], c.Steps[i].Procs[k+1:]...)
				changed = accept(c) || changed
			}
			for k := range best.Steps[i].Procs {
				q := best.Steps[i].Procs[k]
				for f := len(q.Faults) - 1; f >= 0; f-- {
					c := best.clone()
					x := c.Steps[i].Procs[k]
					x.Faults = append(x.Faults[:f], x.Faults[f+1:]...)
					changed = accept(c) || changed
				}
				simpler := []func(x *ProcSpec){
					func(x *ProcSpec) { x.Eintr = 0 },
					func(x *ProcSpec) { x.Frag, x.FragS = 0, 0 },
					func(x *ProcSpec) { x.FragS = 0 },
					func(x *ProcSpec) { x.Free = 0 },
					func(x *ProcSpec) { x.OutCap, x.OutErr = 0, 0 },
					func(x *ProcSpec) { x.Env = nil },
				}
				for _, s := range simpler {
					c := best.clone()
					x := c.Steps[i].Procs[k]
					was := fmt.Sprint(*x)
					s(x)
					if fmt.Sprint(*x) != was {
						changed = accept(c) || changed
					}
				}
				if best.Steps[i].Procs[k].Web != nil {
					for n := len(best.Steps[i].Procs[k].Web.Reqs) - 1; n >= 0; n-- {
						c := best.clone()
						c.Steps[i].Procs[k].Web.drop(n)
						if len(c.Steps[i].Procs[k].Web.Reqs) > 0 {
							changed = accept(c) || changed
						}
					}
					for size := len(best.Steps[i].Procs[k].Web.Sched); size > 0; size /= 2 {
						for at := 0; at < len(best.Steps[i].Procs[k].Web.Sched); {
							c := best.clone()
							x := c.Steps[i].Procs[k].Web
							x.Sched = append(x.Sched[:at], x.Sched[min(at+size, len(x.Sched)):]...)
							if accept(c) {
								changed = true
							} else {
								at += size
							}
						}
					}
					if best.Steps[i].Procs[k].Web.Turns > 0 {
						c := best.clone()
						c.Steps[i].Procs[k].Web.Turns = 0
						changed = accept(c) || changed
					}
					for n := range best.Steps[i].Procs[k].Web.Reqs {
						c := best.clone()
						x := &c.Steps[i].Procs[k].Web.Reqs[n]
						if x.Hangup > 0 || x.Alone {
							x.Hangup, x.Alone = 0, false
							changed = accept(c) || changed
						}
					}
				}
				for a := len(best.Steps[i].Procs[k].Args) - 1; a >= 0 && best.Steps[i].Procs[k].Bin == "cindex"; a-- {
					c := best.clone()
					x := c.Steps[i].Procs[k]
					x.Args = append(x.Args[:a:a], x.Args[a+1:]...)
					changed = accept(c) || changed
				}
				for d := best.Steps[i].Procs[k].Stdin; len(d) > 0; {
					shrunk := false
					for _, part := range halves(d) {
						c := best.clone()
						c.Steps[i].Procs[k].Stdin = part
						if accept(c) {
							d, shrunk, changed = part, true, true
							break
						}
					}
					if !shrunk {
						break
					}
				}
			}
		}
		// file contents
		shrink := func(get func(p *Plan) *Edit) {
			for {
				d := get(best).Data
				if len(d) == 0 {
					return
				}
				done := true
				for _, part := range halves(d) {
					c := best.clone()
					get(c).Data = part
					if accept(c) {
						changed, done = true, false
						break
					}
				}
				if done || time.Now().After(deadline) {
					return
				}
			}
		}
		for t := range best.Tree {
			shrink(func(p *Plan) *Edit { return &p.Tree[t] })
		}
		for i := range best.Steps {
			for e := range best.Steps[i].Edits {
				shrink(func(p *Plan) *Edit { return &p.Steps[i].Edits[e] })
			}
		}
		_ = before
		if !changed || time.Now().After(deadline) {
			break
		}
	}
	fmt.Printf("minimiser: %d executions\n", tries)
	return best
}

// halves proposes smaller versions of d: each half, then without one line.
// It keeps text text, and does not cut zip files.
func halves(d []byte) [][]byte {
	if bytes.HasPrefix(d, []byte("PK")) {
		return [][]byte{nil}
	}
	var out [][]byte
	for _, x := range smaller(d) {
		if utf8.Valid(x) || !utf8.Valid(d) {
			out = append(out, x)
		}
	}
	return out
}

func smaller(d []byte) [][]byte {
	n := len(d) / 2
	out := [][]byte{nil}
	if n > 0 {
		out = append(out, d[:n:n], d[n:])
	}
	ls := splitLines(d)
	if len(ls) > 1 && len(ls) <= 24 {
		for i := range ls {
			var x []byte
			for j, l := range ls {
				if j != i {
					x = append(append(x, l...), '\n')
				}
			}
			if len(x) < len(d) {
				out = append(out, x)
			}
		}
	}
	return out
}
