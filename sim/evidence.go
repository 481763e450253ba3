package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// classify records whether the finished run counts as non-trivial for pd.
func (w *World) classify(pd *PropDef) {
	fired := 0
	for k, v := range w.tot.Fired {
		if d := v - w.base[k]; d > 0 {
			fired += d
		}
	}
	ok := false
	switch pd.ID {
	case "C01", "C15", "C18", "C20":
		ok = w.nIndex >= 2
	case "C02":
		ok = w.nMatch > 0
	case "C03", "C04", "C05", "C06", "C16", "C19":
		ok = fired > 0
	case "C10":
		ok = fired > 0
	case "C07", "C08":
		ok = w.maxSwitch >= 2
	case "C09":
		ok = w.nMatch > 0
	case "C12":
		ok = w.maxSwitch >= 1
	case "C13":
		ok = fired > 0
	case "C14":
		ok = w.maxSwitch >= 2
	default:
		ok = true
	}
	w.tot.Hashes[w.hash] = true
	if ok {
		w.tot.Nontrivial[w.hash] = true
	}
	h := uint64(3)
	for _, x := range w.order {
		h = mix64(h, uint64(x))
	}
	w.tot.Orders[h] = true
}

func writeEvidence(pd *PropDef, t *Totals, done, want int, wall float64, det, replay string, workers int) {
	var samples []any
	for i := 0; i < 3; i++ {
		g := &genCtx{r: newRand(jobSeed(pd.ID, *flagSeed, i))}
		j := pd.make(g)
		s := describePlan(j.Plan)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		samples = append(samples, map[string]any{"job": i, "seed": jobSeed(pd.ID, *flagSeed, i), "plan": s})
	}
	hours := wall / 3600
	cov := map[string]any{
		"evaluations":                    t.Runs,
		"distinct_nontrivial":            len(t.Nontrivial),
		"rule":                           pd.Rule,
		"samples":                        samples,
		"jobs":                           done,
		"jobs_planned":                   want,
		"simulated_runs_per_hour":        int(float64(t.Runs) / hours),
		"seeds_per_hour":                 int(float64(done) / hours),
		"guest_processes":                t.Guests,
		"system_calls_simulated":         t.Syscalls,
		"simulated_time_s":               float64(t.SimNs) / 1e9,
		"faults_fired":                   t.Fired,
		"processes_killed":               t.Crashes,
		"distinct_executions":            len(t.Hashes),
		"distinct_schedules":             len(t.Orders),
		"distinct_disk_states":           len(t.StateHash),
		"schedule_switches":              t.Switches,
		"checks_made":                    t.Checks,
		"outcomes":                       t.Outcomes,
		"determinism":                    det,
		"workers":                        workers,
		"distinct_interleavings_measure": "hash of (global step, process) at every context switch; executions: hash over every system call with its path, result and error of every process, plus all output and exit codes",
		"real_components":                "cindex, csearch, cgrep binaries of the tree under test, whole process: flag parsing, path handling, index, regexp, sparse, the Go runtime and standard library above the system-call layer",
		"simulated_components":           "kernel file system, descriptors, directory order, mmap, clock, getrandom, flock, process scheduling and kill, power loss, disk space",
	}
	if replay != "" {
		cov["violation_replay"] = replay
	}
	ev := map[string]any{"property": pd.ID, "tier": *flagTier, "seed": *flagSeed, "level": pd.Level, "coverage": cov, "wall_s": wall}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(*flagOut, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*flagOut, "evidence", pd.ID+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	_ = fmt.Sprint
}
