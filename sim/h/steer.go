package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"verifsim/r/modsecurity"
)

// ---- C30: actions that steer the transaction themselves

func (a ActSpec) custom() bool {
	switch a.Name {
	case "log", "deny", "allow", "pass", "skip", "block", "status":
		return false
	}
	return true
}

// genSteer draws an action that calls the transaction's own operations.
func genSteer(x *X, o specOpt, allow *bool) ActSpec {
	a := ActSpec{Group: x.G.Choose(modsecurity.ActionGroupCount), N: x.G.Choose(1000)}
	switch k := x.G.Pick(4, 2, 4, 3, 2, 5); {
	case k == 0:
		a.Name, a.N = "jumpto", 1+x.G.Choose(5)
		if x.G.Bool(1, 6) {
			a.N = 1000
		}
	case k == 1:
		a.Name, a.Arg = "back", fmt.Sprint(x.G.Choose(3))
	case k == 2 && !*allow:
		*allow = true
		a.Name = "jumpphase"
		var p []string
		for n := 1 + x.G.Pick(4, 1); n > 0; n-- {
			to := x.G.Choose(11) - 2
			if x.G.Bool(1, 6) {
				to = []int{9, 10, 100, -50, 1 << 40, -1 << 40}[x.G.Choose(6)]
			}
			p = append(p, fmt.Sprint(to))
		}
		a.Arg = strings.Join(p, ",")
	case k == 3 && o.pass == 0:
		a.Name, a.N = []string{"abort", "aborterr"}[x.G.Choose(2)], []int{403, 401, 413, 500, 599, 302}[x.G.Choose(6)]
	case k == 4:
		a.Name = "line"
	default:
		a.Name = "look"
	}
	return a
}

// steerAct stands for what users write themselves.
type steerAct struct {
	a  ActSpec
	id int
	to recorders
}

func (s *steerAct) Name() string     { return s.a.Name }
func (s *steerAct) Value() string    { return s.a.Arg }
func (s *steerAct) ActionGroup() int { return s.a.Group }
func (s *steerAct) Do(t *modsecurity.Transaction) {
	switch s.a.Name {
	case "jumpto":
		t.JumpTo(t.CurrentRule() + s.a.N)
	case "back": // once
		key := fmt.Sprintf("verif.back.%d.%d", s.id, s.a.N)
		if t.Data[key] == nil && t.CurrentRule() >= 0 {
			t.Data[key] = true
			n, _ := strconv.Atoi(s.a.Arg)
			t.JumpTo(max(t.CurrentRule()-n, 0))
		}
	case "jumpphase":
		for _, p := range strings.Split(s.a.Arg, ",") {
			n, _ := strconv.Atoi(p)
			t.JumpToPhase(n)
		}
	case "abort":
		t.AbortWithStatus(s.a.N)
	case "aborterr":
		t.AbortWithError(s.a.N, errors.New("steered"))
	case "line":
		t.Logf("steered %d", s.a.N)
	case "look":
		if r := s.to[t]; r != nil {
			id, given := t.CurrentRule(), -1
			if c := t.CurrentSecRule(); c != nil {
				given = c.Id
			}
			i := t.Intervention()
			r.events = append(r.events, lookEvent(s.id, s.a.N, t.CurrentPhase(), id, given, i.Disruptive, t.Abort, i.Status, len(i.Log)))
		}
	}
}

func lookEvent(id, n, phase, rule, given int, dis, abort bool, status, logs int) string {
	if rule < 0 {
		rule = -1
	}
	return fmt.Sprintf("%d.look%d phase=%d rule=%d id=%d dis=%v abort=%v st=%d lines=%d", id, n, phase, rule, given, dis, abort, status, logs)
}

// steer is what such an action means.
func (t *mtx) steer(a ActSpec, id, idx int) {
	in := t.cur == t.done // the phase was not left by the same rule
	switch a.Name {
	case "jumpto":
		if in {
			t.next = idx + a.N
		}
	case "back":
		key := fmt.Sprint(id, ".", a.N)
		if in && !t.went[key] {
			if t.went == nil {
				t.went = map[string]bool{}
			}
			t.went[key] = true
			n, _ := strconv.Atoi(a.Arg)
			t.next = max(idx-n, 0)
		}
	case "jumpphase":
		for _, p := range strings.Split(a.Arg, ",") {
			n, _ := strconv.Atoi(p)
			t.leave(n)
		}
	case "abort", "aborterr":
		if t.mode != 2 {
			t.abort, t.dis, t.status, t.abortStatus = true, true, a.N, a.N
		}
		if a.Name == "aborterr" {
			t.logs++
			t.line()
		}
	case "line":
		t.logs++
		t.line()
	case "look":
		rule, given := -1, -1
		if in {
			rule, given = idx, t.byPhase[t.done][idx].Given
		}
		t.events = append(t.events, lookEvent(id, a.N, t.cur, rule, given, t.dis, t.abort, t.status, t.logs))
	}
}

func init() {
	register(&Check{ID: "C30", Quick: 720000, Thor: 12000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = a seeded rule set whose rules have, beside the engine's actions, actions that themselves jump to rules and phases, abort, write lines and look at the transaction; a seeded message and a disturbed history of notifications; after every step what fired, what the actions saw, verdicts, line counts and aborts are compared with the reference interpreter; non-trivial: at least one action reported",
		Run: func(x *X) {
			so := specOpt{rules: 8, steer: 8, allow: 1, deny: 1, log: 1, status: 1, skip: 1, consts: 3, plainVars: 2, bodyVars: 1, matchBias: true, seclang: 1, everyPhase: true, probes: true, block: 1, chains: x.G.Bool(1, 3)}
			if x.G.Bool(1, 4) {
				so.pass = 2
			}
			modes := x.G.Bool(1, 6)
			lifeRun(x, lifeOpt{spec: so, script: scriptOpt{collectNum: x.G.Choose(5), collectDen: 5, disorder: 5, modes: modes}, modes: modes,
				small: x.G.Bool(1, 4), verdicts: true, logs: true})
		}})
}
