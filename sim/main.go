package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Replay is what a replay file holds.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Faults    []string   `json:"fault_trace"`
	Plan      *Plan      `json:"plan"`
	Original  *Plan      `json:"original_plan,omitempty"`
	Seed      uint64     `json:"verif_seed"`
	Job       int        `json:"job"`
	Trace     []string   `json:"trace"`
}

type result struct {
	job   int
	tot   *Totals
	viol  *Violation
	plan  *Plan
	descr []string
}

var (
	flagTier  = flag.String("tier", "quick", "")
	flagSeed  = flag.Uint64("seed", 1, "")
	flagBins  = flag.String("bins", "", "directory of guest binaries")
	flagOut   = flag.String("out", "", "directory for evidence and replays")
	flagJobs  = flag.Int("jobs", 0, "override the number of jobs")
	flagFrom  = flag.Int("from", 0, "first job")
	flagWall  = flag.Int("wall", 0, "stop starting jobs after this many seconds")
	flagWork  = flag.Int("workers", 0, "")
	flagNoMin = flag.Bool("nomin", false, "")
	flagKeep  = flag.Bool("keepgoing", false, "report every violation, not just the first")
)

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 2 {
		die("usage: sim [flags] check ID | replay FILE | selftest ID | instr REPO OVERLAY OUT")
	}
	if args[0] == "instr" {
		instrument(args[1], args[2], args[3])
		return
	}
	bins := openBins(*flagBins)
	switch args[0] {
	case "check":
		os.Exit(runCheck(args[1], bins))
	case "replay":
		os.Exit(runReplay(args[1], bins))
	case "selftest":
		os.Exit(selfTest(args[1], bins))
	case "calls":
		dumpCalls(args[1], bins)
	case "plan":
		dumpPlan(args[1])
	default:
		die("unknown command %q", args[0])
	}
}

func propByID(id string) *PropDef {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	die("unknown property %q", id)
	return nil
}

func jobSeed(id string, seed uint64, i int) uint64 {
	return mix64(mix64(seed, hashBytes([]byte(id))), uint64(i))
}

// runJob generates and executes job i. It returns the first violation and the
// plan that shows it.
func runJob(pd *PropDef, seed uint64, i int, bins *Bins, hashes *[]uint64) *result {
	g := &genCtx{r: newRand(jobSeed(pd.ID, seed, i))}
	j := pd.make(g)
	j.Plan.Seed = jobSeed(pd.ID, seed, i)
	res := &result{job: i, tot: newTotals(), plan: j.Plan}
	note := func(w *World) {
		if hashes != nil {
			*hashes = append(*hashes, w.hash)
		}
	}
	if j.Sweep == nil {
		w, v := runPlan(j.Plan, bins, res.tot)
		note(w)
		w.classify(pd)
		res.viol = v
		return res
	}
	// common prefix, once
	at := j.Sweep.Step
	w := newWorld(j.Plan, bins, res.tot)
	for k := 0; k < at; k++ {
		w.step = k
		if v := w.do(&j.Plan.Steps[k]); v != nil {
			res.tot.Runs++
			res.viol = v
			return res
		}
	}
	// the undisturbed run, for its events
	finish := func(p *Plan) (*World, *Violation) {
		x := w.fork()
		x.plan = p
		x.base = copyFired(res.tot.Fired)
		res.tot.Runs++
		for k := at; k < len(p.Steps); k++ {
			x.step = k
			if k == at {
				x.trace = nil
			}
			if v := x.do(&p.Steps[k]); v != nil {
				return x, v
			}
			if k == at {
				x.swept = append([]Event(nil), x.trace...)
			}
			res.tot.StateHash[x.fs.Hash()] = true
		}
		x.classify(pd)
		return x, nil
	}
	x, v := finish(j.Plan)
	note(x)
	if v != nil {
		res.viol = v
		return res
	}
	evs := visible(x.swept, j.Sweep.Proc)
	for _, p := range j.Sweep.Vary(j.Plan, evs) {
		y, v := finish(p)
		note(y)
		if v != nil {
			res.viol, res.plan = v, p
			return res
		}
	}
	return res
}

func copyFired(m map[string]int) map[string]int {
	c := map[string]int{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func runCheck(id string, bins *Bins) int {
	pd := propByID(id)
	start := time.Now()
	n := pd.Quick
	wall := 400
	if *flagTier == "thorough" {
		n = pd.Thorough
		wall = 3000
	}
	if *flagJobs > 0 {
		n = *flagJobs
	}
	if *flagWall > 0 {
		wall = *flagWall
	}
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	if *flagWork > 0 {
		workers = *flagWork
	}
	fmt.Printf("check %s tier=%s seed=%d jobs=%d workers=%d\n", id, *flagTier, *flagSeed, n, workers)
	results := make([]*result, n)
	var next atomic.Int64
	next.Store(int64(*flagFrom) - 1)
	var stop atomic.Int64 // jobs above this one are not started
	stop.Store(int64(n))
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1))
				if i >= n || int64(i) > stop.Load() || time.Since(start) > time.Duration(wall)*time.Second {
					return
				}
				r := runJob(pd, *flagSeed, i, bins, nil)
				results[i] = r
				if r.viol == nil {
					r.plan = nil
				}
				if r.viol != nil {
					if *flagKeep {
						fmt.Printf("job %d: %s\n", i, r.viol.Error())
						continue
					}
					for {
						s := stop.Load()
						if s <= int64(i) || stop.CompareAndSwap(s, int64(i)) {
							break
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	tot := newTotals()
	var bad *result
	done := 0
	for _, r := range results {
		if r == nil {
			continue
		}
		done++
		tot.add(r.tot)
		if r.viol != nil && bad == nil {
			bad = r
		}
	}
	elapsed := time.Since(start).Seconds()
	det := "not run"
	code := 0
	var replay string
	if bad != nil {
		replay, code = report(pd, bad, bins)
	} else {
		det = determinism(pd, bins, results)
	}
	writeEvidence(pd, tot, done, n, elapsed, det, replay, workers)
	fmt.Printf("%s: %d jobs, %d simulated runs, %d guest processes, %d system calls, %.1f s, determinism: %s\n", id, done, tot.Runs, tot.Guests, tot.Syscalls, elapsed, det)
	return code
}

// determinism re-executes a few jobs and compares execution hashes.
func determinism(pd *PropDef, bins *Bins, results []*result) string {
	same, diff := 0, 0
	for i := 0; i < len(results) && same+diff < 3; i++ {
		if results[i] == nil {
			continue
		}
		var a, b []uint64
		runJob(pd, *flagSeed, i, bins, &a)
		runJob(pd, *flagSeed, i, bins, &b)
		eq := len(a) == len(b)
		for k := range a {
			eq = eq && a[k] == b[k]
		}
		if eq {
			same++
		} else {
			diff++
		}
	}
	if diff > 0 {
		fmt.Printf("warning: %d of %d re-executed jobs did not repeat exactly\n", diff, same+diff)
	}
	return fmt.Sprintf("%d jobs executed twice more, %d differed", same+diff, diff)
}

// report confirms, minimises and writes out a violation.
func report(pd *PropDef, r *result, bins *Bins) (string, int) {
	fmt.Printf("job %d violates: %s\n", r.job, r.viol.Error())
	// confirm from the beginning
	var v *Violation
	for k := 0; k < 3 && v == nil; k++ {
		_, v = runPlan(r.plan.clone(), bins, newTotals())
	}
	if v == nil {
		fmt.Printf("error: the violation did not reproduce when the plan was executed again\n")
		return "", 3
	}
	min := r.plan.clone()
	if !*flagNoMin {
		min = minimise(r.plan, v, bins, 75*time.Second)
	}
	w, v2 := runPlan(min.clone(), bins, newTotals())
	if v2 == nil {
		min = r.plan
		w, v2 = runPlan(min.clone(), bins, newTotals())
		if v2 == nil {
			v2 = v
		}
	}
	rep := Replay{Property: pd.ID, Violation: v2, Plan: min, Seed: *flagSeed, Job: r.job}
	tr := w.trace
	if len(tr) > 300 {
		tr = tr[len(tr)-300:]
	}
	for _, e := range tr {
		rep.Trace = append(rep.Trace, e.String())
	}
	for _, s := range min.Steps {
		for _, p := range s.Procs {
			for _, f := range p.Faults {
				rep.Faults = append(rep.Faults, f.String())
			}
		}
		for _, sw := range s.Sched {
			rep.Faults = append(rep.Faults, fmt.Sprintf("at step %d run process %d", sw.Step, sw.To))
		}
	}
	dir := filepath.Join(*flagOut, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", pd.ID, *flagSeed, r.job))
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("minimised: %s\n%s", v2.Error(), describePlan(min))
	fmt.Printf("VIOLATION property=%s replay=%s\n", pd.ID, path)
	return path, 1
}

func describePlan(p *Plan) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "index %s, knobs %v, %d tree entries\n", p.Index, p.Knobs, len(p.Tree))
	for i, s := range p.Steps {
		fmt.Fprintf(&sb, "step %d %s", i, s.Kind)
		for _, x := range s.Procs {
			fmt.Fprintf(&sb, " [%s %s", x.Bin, strings.Join(x.Args, " "))
			for _, f := range x.Faults {
				fmt.Fprintf(&sb, " {%s}", f)
			}
			if x.Free > 0 {
				fmt.Fprintf(&sb, " {%d bytes free}", x.Free-1)
			}
			if x.OutCap > 0 {
				fmt.Fprintf(&sb, " {stdout takes %d bytes, errno %d}", x.OutCap-1, x.OutErr)
			}
			if x.Frag > 0 {
				fmt.Fprintf(&sb, " {reads of at most %d}", x.Frag)
			}
			if x.Web != nil {
				for k, r := range x.Web.Reqs {
					if k == 12 {
						fmt.Fprintf(&sb, " ... %d requests", len(x.Web.Reqs))
						break
					}
					fmt.Fprintf(&sb, " <%.60q", r.Target)
					if r.Hangup > 0 {
						fmt.Fprintf(&sb, " hangs up after %d bytes", r.Hangup-1)
					}
					sb.WriteString(">")
				}
				if x.Web.Turns > 0 {
					fmt.Fprintf(&sb, " {requests take turns}")
				}
				if n := len(x.Web.Sched); n > 0 {
					fmt.Fprintf(&sb, " {%d planned switches between requests}", n)
				}
			}
			sb.WriteString("]")
		}
		for _, e := range s.Edits {
			fmt.Fprintf(&sb, " %s %s;", e.Op, e.Path)
		}
		if len(s.Sched) > 0 {
			fmt.Fprintf(&sb, " schedule %v", s.Sched)
		}
		sb.WriteString("\n")
	}
	return printable(sb.String())
}

func runReplay(file string, bins *Bins) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		die("%s: %v", file, err)
	}
	w, v := runPlan(rep.Plan, bins, newTotals())
	for _, e := range w.trace {
		fmt.Println(printable(fmt.Sprint(e)))
	}
	fmt.Print(describePlan(rep.Plan))
	if v == nil {
		fmt.Printf("the property held: no violation on this tree\n")
		return 0
	}
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", v.Error(), rep.Property, file)
	return 1
}

func selfTest(id string, bins *Bins) int {
	ids := []string{id}
	if id == "all" {
		ids = nil
		for _, p := range props {
			ids = append(ids, p.ID)
		}
	}
	bad := 0
	for _, id := range ids {
		pd := propByID(id)
		n := 24
		if *flagJobs > 0 {
			n = *flagJobs
		}
		run := func(workers int) [][]uint64 {
			out := make([][]uint64, n)
			var next atomic.Int64
			var wg sync.WaitGroup
			for k := 0; k < workers; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						i := int(next.Add(1)) - 1
						if i >= n {
							return
						}
						runJob(pd, *flagSeed, i, bins, &out[i])
					}
				}()
			}
			wg.Wait()
			return out
		}
		a, b, c := run(8), run(3), run(16)
		d := 0
		for i := range a {
			x, y, z := fmt.Sprint(a[i]), fmt.Sprint(b[i]), fmt.Sprint(c[i])
			if x != y || y != z {
				d++
				fmt.Printf("%s job %d differs\n", id, i)
			}
		}
		fmt.Printf("%s: %d jobs at 8, 3 and 16 workers, %d differ\n", id, n, d)
		bad += d
	}
	if bad > 0 {
		return 3
	}
	return 0
}

func dumpPlan(arg string) {
	var id string
	var i int
	fmt.Sscanf(strings.Replace(arg, ":", " ", 1), "%s %d", &id, &i)
	g := &genCtx{r: newRand(jobSeed(id, *flagSeed, i))}
	j := propByID(id).make(g)
	b, _ := json.MarshalIndent(j.Plan, "", " ")
	fmt.Println(string(b))
}

func topCounts(m map[string]int) map[string]int { return m }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// dumpCalls executes job ID:N and prints every call of every guest.
func dumpCalls(arg string, bins *Bins) {
	id, ns, _ := strings.Cut(arg, ":")
	n, _ := strconv.Atoi(ns)
	callLog = func(p *Proc, c *Call, r *Reply) {
		s := fmt.Sprintf("%s.%d %s %v", p.spec.Bin, p.id, classOf[c.trap], c.a)
		for _, b := range c.in {
			if len(b) > 0 {
				s += fmt.Sprintf(" %.3000q", b)
			}
		}
		if r != nil {
			s += fmt.Sprintf(" = %d %d", r.r1, int(r.e))
			for _, b := range r.outs {
				if len(b) > 0 {
					s += fmt.Sprintf(" %016x", hashBytes(b))
				}
			}
		}
		fmt.Println(s)
	}
	runJob(propByID(id), *flagSeed, n, bins, nil)
}
