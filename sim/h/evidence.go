package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

func writeEvidence(c *Check, outs []*BatchOut, start time.Time, explore time.Duration, det, code int) {
	if *fEvidence == "" {
		return
	}
	t := &BatchOut{Fired: map[string]int{}, Cover: map[string]int{}}
	cases, states, scheds := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	var samples []interface{}
	for _, o := range outs {
		t.Runs += o.Runs
		t.Steps += o.Steps
		t.SimNanos += o.SimNanos
		t.FSOps += o.FSOps
		t.Accesses += o.Accesses
		t.MapIters += o.MapIters
		t.Switches += o.Switches
		t.NT += o.NT
		for k, n := range o.Fired {
			t.Fired[k] += n
		}
		for k, n := range o.Cover {
			t.Cover[k] += n
		}
		for _, h := range o.CaseHash {
			cases[h] = struct{}{}
		}
		for _, h := range o.States {
			states[h] = struct{}{}
		}
		for _, h := range o.Scheds {
			scheds[h] = struct{}{}
		}
		if len(samples) < 3 {
			for _, s := range o.Samples {
				samples = append(samples, map[string]interface{}{"batch_from_run": o.From, "trace": s})
			}
		}
	}
	secs := explore.Seconds()
	if secs <= 0 {
		secs = 1e-9
	}
	planned := c.Quick
	if *fTier == "thorough" {
		planned = c.Thor
	}
	cov := map[string]interface{}{
		"evaluations":                         t.Runs,
		"distinct_nontrivial":                 len(cases),
		"rule":                                c.Rule,
		"samples":                             samples,
		"seeds_planned":                       planned,
		"runs_per_hour":                       int64(float64(t.Runs) / secs * 3600),
		"simulated_steps":                     t.Steps,
		"simulated_time":                      fmt.Sprintf("%d statement-level steps of logical time; the repository reads no clock, so simulated wall time is %d ns", t.Steps, t.SimNanos),
		"simulated_file_operations":           t.FSOps,
		"faults_fired":                        t.Fired,
		"context_switches":                    t.Switches,
		"distinct_schedules":                  len(scheds),
		"distinct_states":                     len(states),
		"states_measure":                      "hash of the abstract state the scenario records after each step (phase, verdict, body sizes relative to their limits, fault position, fired rules)",
		"shared_accesses_checked_for_races":   t.Accesses,
		"map_iterations_ordered_by_simulator": t.MapIters,
		"situations":                          t.Cover,
		"real_components":                     c.Real,
		"stub_components":                     c.Stub,
		"determinism":                         fmt.Sprintf("%d runs executed again twice in fresh processes, event-log and schedule hashes equal; in %d the number of steps was not", det, uneven),
	}
	if det < 0 {
		cov["determinism"] = "not re-executed: a violation was being confirmed"
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": *fTier, "seed": *fSeed, "level": c.Level,
		"coverage": cov, "assumptions": append([]string{}, c.Assume...), "wall_s": time.Since(start).Seconds(),
		"violations": map[bool]int{true: 1, false: 0}[code == 1],
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(*fEvidence, append(b, '\n'), 0644)
}
