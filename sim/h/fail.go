package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"

	"github.com/sirupsen/logrus"

	"verifsim/r/modsecurity"
)

// ---- components of rules that do more than they should

// tap is called before and after every call of a component of a rule.
type tap func(t *modsecurity.Transaction, r *RuleSpec, what string)

type tapVar struct {
	modsecurity.Variable
	r *RuleSpec
	f tap
}

func (v *tapVar) Fetch(t *modsecurity.Transaction) []string {
	v.f(t, v.r, "variable")
	s := v.Variable.Fetch(t)
	v.f(t, v.r, "variable, done")
	return s
}

type tapTrans struct {
	t modsecurity.Trans
	r *RuleSpec
	f tap
}

func (v *tapTrans) Name() string { return v.t.Name() }

func (v *tapTrans) Trans(t *modsecurity.Transaction, s string) string {
	v.f(t, v.r, "transformation")
	s = v.t.Trans(t, s)
	v.f(t, v.r, "transformation, done")
	return s
}

type tapOp struct {
	modsecurity.Operator
	r *RuleSpec
	f tap
}

func (v *tapOp) Match(t *modsecurity.Transaction, s string) bool {
	v.f(t, v.r, "operator")
	b := v.Operator.Match(t, s)
	v.f(t, v.r, "operator, done")
	return b
}

type tapAct struct {
	modsecurity.Action
	r *RuleSpec
	f tap
}

func (v *tapAct) Do(t *modsecurity.Transaction) {
	v.f(t, v.r, "action")
	v.Action.Do(t)
	v.f(t, v.r, "action, done")
}

// tap wraps all components of all rules of an engine built from sp.
func (sp *SetSpec) tap(e *modsecurity.Engine, f tap) {
	byPhase := map[int][]*RuleSpec{}
	for _, r := range sp.Rules {
		byPhase[r.Phase] = append(byPhase[r.Phase], r)
	}
	var walk func(sr *modsecurity.SecRule, r *RuleSpec, top *RuleSpec)
	walk = func(sr *modsecurity.SecRule, r, top *RuleSpec) {
		for i, v := range sr.Variables {
			sr.Variables[i] = &tapVar{v, top, f}
		}
		for i, v := range sr.Trans {
			sr.Trans[i] = &tapTrans{v, top, f}
		}
		if sr.Operator != nil {
			sr.Operator = &tapOp{sr.Operator, top, f}
		}
		for i, v := range sr.Actions {
			sr.Actions[i] = &tapAct{v, top, f}
		}
		for i, s := range sr.SubRules {
			if i < len(r.Subs) {
				walk(s, r.Subs[i], top)
			}
		}
	}
	none := &RuleSpec{Phase: -1}
	for i, v := range e.RuleSet.DefaultActions {
		e.RuleSet.DefaultActions[i] = &tapAct{v, none, f}
	}
	for p := 1; p <= 6; p++ {
		for i, sr := range e.RuleSet.Phases[p] {
			if i < len(byPhase[p]) {
				walk(sr, byPhase[p][i], byPhase[p][i])
			}
		}
	}
}

// ---- C27: diagnostic output

type sink struct {
	kind int
	n    int
}

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	switch s.kind {
	case 1:
		return 0, errors.New("no space left on device")
	case 2:
		return len(p) / 2, io.ErrShortWrite
	case 3:
		if s.n%2 == 0 {
			return 0, os.ErrClosed
		}
	case 4: // a writer that uses the buffer it is given
		for i := range p {
			p[i] = 'x'
		}
	}
	return len(p), nil
}

type failHook struct{ err error }

func (h *failHook) Levels() []logrus.Level     { return logrus.AllLevels }
func (h *failHook) Fire(e *logrus.Entry) error { return h.err }

type failFormatter struct{}

func (failFormatter) Format(*logrus.Entry) ([]byte, error) { return nil, errors.New("no format") }

func diagReset() {
	logrus.SetLevel(logrus.InfoLevel)
	logrus.SetOutput(io.Discard)
	logrus.SetFormatter(&logrus.TextFormatter{})
	logrus.SetReportCaller(false)
	logrus.StandardLogger().ReplaceHooks(logrus.LevelHooks{})
}

func c27(x *X) {
	diagReset()
	defer diagReset()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil { // where a failure to log is reported
		real := os.Stderr
		os.Stderr = null
		defer func() { os.Stderr = real; null.Close() }()
	}
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	n := 1 + x.G.Pick(3, 2)
	ms, scripts := make([]*Msg, n), make([][]Step, n)
	var order []int
	for i := range ms {
		ms[i] = genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 120, crowd: 20})
		if x.G.Bool(1, 6) {
			damage(x, &ms[i].Body)
		}
		scripts[i] = append(genScript(x, ms[i], scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)}), Step{Op: oClose})
		for range scripts[i] {
			order = append(order, i)
		}
	}
	if x.SC.Bool(1, 2) {
		for i := len(order) - 1; i > 0; i-- {
			j := x.SC.Choose(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	seed := uint64(x.M.Choose(4))
	var first []string
	for k := 0; k < 3; k++ {
		diagReset()
		what := "the default"
		out := &sink{}
		if k > 0 {
			x.NewSim()
			lv := []logrus.Level{logrus.DebugLevel, logrus.TraceLevel, logrus.PanicLevel, logrus.ErrorLevel}[x.F.Pick(5, 3, 1, 1)]
			out.kind = x.F.Pick(2, 2, 1, 1, 1)
			logrus.SetLevel(lv)
			logrus.SetOutput(out)
			what = fmt.Sprintf("level %v, sink %d", lv, out.kind)
			switch x.F.Pick(6, 1, 1, 1) {
			case 1:
				logrus.SetFormatter(&logrus.JSONFormatter{})
				what += ", JSON"
			case 2:
				logrus.SetFormatter(failFormatter{})
				what += ", a formatter that fails"
				x.S.FS.Fired["formatter-fails"]++
			case 3:
				logrus.AddHook(&failHook{errors.New("no hook")})
				what += ", a hook that fails"
				x.S.FS.Fired["hook-fails"]++
			}
			if x.F.Bool(1, 10) {
				logrus.SetReportCaller(true)
			}
		}
		x.S.MapSeed = seed
		to := recorders{}
		e := sp.build(x, to)
		rs := make([]*runner, n)
		for _, i := range order {
			if k > 0 && x.F.Bool(1, 8) { // the level may change at any time
				lv := []logrus.Level{logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel, logrus.WarnLevel}[x.F.Choose(4)]
				logrus.SetLevel(lv)
				x.Hit("level-changed")
			}
			i := i
			if rs[i] == nil {
				x.Call("NewTransaction", 100000, func() { rs[i] = newRunner(e, ms[i], scripts[i], to) })
			}
			if !rs[i].done() {
				x.Call("step", 20000000, rs[i].step)
			}
		}
		var lines []string
		for i, r := range rs {
			lines = append(lines, fmt.Sprintf("transaction %d", i))
			lines = append(lines, r.out.lines...)
		}
		if left := x.S.FS.Files(); len(left) > 0 {
			x.Fail("leftover-file", "all transactions are closed and %v are left", left)
		}
		if k == 0 {
			first = lines
			for _, l := range lines {
				x.Tracef("%s", l)
			}
			continue
		}
		if out.n > 0 && anyFired(first) {
			x.NonTrivial = true
			x.Hit("diagnostics-written")
		}
		if out.kind > 0 && out.n > 0 {
			x.S.FS.Fired["diagnostic-sink-fails"] += out.n
		}
		x.S.Log(strings.Join(lines, "\n"))
		if d := diffLines(lines, first); d != "" {
			x.Fail("diagnostics-matter", "with diagnostics at %s: %s (by default)", what, d)
		}
		x.State(len(lines), out.kind, min(out.n, 30), logrus.GetLevel())
	}
}

// ---- C28: components that fail

// boom is what a component of the harness panics with.
type boom struct{ at string }

func (b *boom) Error() string { return "component failed: " + b.at }

func c28(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	n := x.crowd(2+x.G.Pick(5, 3, 1), 12)
	type job struct {
		m      *Msg
		script []Step
		r      *runner
		left   int // calls of components until one fails; 0: none does
		failed string
		times  int
		phase  int
		again  int // calls of components of that phase afterwards
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		if i > 0 && x.G.Bool(1, 4) {
			j.m = jobs[i-1].m
		} else {
			j.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 120})
			if x.G.Bool(1, 8) {
				damage(x, &j.m.Body)
			}
		}
		j.script = append(genScript(x, j.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(4)}), Step{Op: oClose})
		jobs[i] = j
	}
	for k := 1 + x.F.Pick(4, 1); k > 0; k-- {
		jobs[x.F.Choose(n)].left = 1 + x.F.Choose([]int{3, 10, 40}[x.F.Choose(3)])
	}
	repeats := x.F.Bool(1, 3) // the component fails again
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	byTx := map[*modsecurity.Transaction]*job{}
	e := sp.build(x, to)
	kind := x.F.Choose(4)
	sp.tap(e, func(t *modsecurity.Transaction, r *RuleSpec, what string) {
		j := byTx[t]
		if j == nil {
			return
		}
		if r.Phase > 0 && j.phase == r.Phase {
			j.again++
		}
		if j.left == 0 {
			return
		}
		if j.left--; j.left > 0 {
			return
		}
		j.times++
		if repeats && j.times < 4 {
			j.left = 1 + j.times*5
		}
		if j.failed == "" {
			j.failed = fmt.Sprintf("%s of rule %d", what, r.ID)
		}
		j.phase, j.again = r.Phase, 0
		x.S.FS.Fired["component-panics:"+strings.TrimSuffix(what, ", done")]++
		switch kind {
		case 0:
			panic(&boom{j.failed})
		case 1:
			panic("component failed")
		case 2:
			var p *boom
			p.at = "" // a nil dereference
		case 3:
			var s []string
			_ = s[j.times]
		}
	})
	step := func(j *job) {
		times := j.times
		defer func() {
			if j.times == times {
				return
			}
			if e := recover(); e != nil { // as a connector does for its requests
				switch v := e.(type) {
				case *boom:
				case string:
					if v != "component failed" {
						panic(e)
					}
				case runtime.Error:
				default:
					panic(e)
				}
				x.Hit("recovered")
			} else {
				x.Hit("failure-contained-by-the-engine")
			}
		}()
		j.r.step()
	}
	start := func(j *job) {
		j.r = newRunner(e, j.m, j.script, to)
		if j.r.tx != nil {
			byTx[j.r.tx] = j
		}
	}
	if concurrent := x.SC.Bool(1, 4); concurrent {
		x.S.RaceOn = true
		var names []string
		var fns []func()
		for i, j := range jobs {
			j := j
			names = append(names, fmt.Sprintf("tx%d", i))
			fns = append(fns, func() {
				start(j)
				for !j.r.done() {
					step(j)
				}
			})
		}
		x.Hit("concurrent")
		x.RunTasks(names, fns, 2+x.SC.Choose(16), []int{4000, 200, 20}[x.SC.Choose(3)], 100000000)
	} else {
		open := append([]*job(nil), jobs...)
		for len(open) > 0 {
			k := x.SC.Choose(len(open))
			j := open[k]
			if j.r == nil {
				x.Call("NewTransaction", 100000, func() { start(j) })
			}
			for n := 1 + x.SC.Choose(6); n > 0 && !j.r.done(); n-- {
				s, times := j.r.script[j.r.pos], j.times
				x.Call(s.String(), 20000000, func() { step(j) })
				if j.times == times && j.again > 0 {
					x.Fail("run-again", "the %s failed in phase %d; %v runs that phase again", j.failed, j.phase, s)
				}
			}
			if j.r.done() {
				open = append(open[:k:k], open[k+1:]...)
			}
		}
	}
	if left := x.S.FS.Files(); len(left) > 0 {
		x.Fail("leftover-file", "all transactions are closed and %v are left", left)
	}
	for i, j := range jobs {
		x.Tracef("tx%d: %d steps; failed: %q, %d times", i, len(j.script), j.failed, j.times)
		if j.times > 0 {
			x.NonTrivial = true
		}
		x.State(i, j.failed, j.times, j.r.tx != nil && j.r.tx.Abort)
	}
	// a transaction after them
	var last *runner
	lm := jobs[x.G.Choose(n)]
	x.Call("NewTransaction", 100000, func() { last = newRunner(e, lm.m, lm.script, to) })
	last.all(x, "after the failures", 20000000)
	alone := func(j *job, got *runner, what string) {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, j.m, j.script, to) })
		r.all(x, "alone", 20000000)
		if d := diffLines(got.out.lines, r.out.lines); d != "" {
			x.Fail("harmed", "%s: %s (on an engine where no component fails)", what, d)
		}
	}
	for i, j := range jobs {
		if j.times == 0 {
			alone(j, j.r, fmt.Sprintf("transaction %d, beside one whose component failed", i))
		}
	}
	alone(lm, last, "a transaction after those whose components failed")
}

// ---- C29: transactions inside transactions

func c29(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	type job struct {
		m      *Msg
		script []Step
		r      *runner
		own    bool // on an engine of its own
		e      *modsecurity.Engine
		to     recorders
		at     string
		busy   bool
	}
	n := x.crowd(2+x.G.Pick(5, 3, 1), 12)
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		if i > 0 && x.G.Bool(1, 4) {
			j.m = jobs[i-1].m
		} else {
			j.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 120})
			if x.G.Bool(1, 8) {
				damage(x, &j.m.Body)
			}
		}
		j.own = i > 0 && x.G.Bool(1, 5)
		j.script = append(genScript(x, j.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(3)}), Step{Op: oClose})
		jobs[i] = j
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	depth, inner := 0, 0
	rate := []int{1, 3, 10, 40}[x.SC.Choose(4)]
	var hook tap
	var run func(j *job, steps int)
	run = func(j *job, steps int) {
		j.busy = true
		defer func() { j.busy = false }()
		if j.r == nil {
			j.e, j.to = e, to
			if j.own {
				j.to = recorders{}
				j.e = sp.build(x, j.to)
				sp.tap(j.e, hook)
			}
			j.r = newRunner(j.e, j.m, j.script, j.to)
		}
		for ; steps > 0 && !j.r.done(); steps-- {
			j.r.step()
		}
	}
	hook = func(t *modsecurity.Transaction, r *RuleSpec, what string) {
		if depth >= 2 || !x.SC.Bool(1, rate) {
			return
		}
		var idle []*job
		for _, j := range jobs[1:] {
			if !j.busy && (j.r == nil || !j.r.done()) {
				idle = append(idle, j)
			}
		}
		if len(idle) == 0 {
			return
		}
		j := idle[x.SC.Choose(len(idle))]
		if j.at == "" {
			j.at = fmt.Sprintf("the %s of rule %d", what, r.ID)
		}
		depth++
		inner++
		x.Hit("inside:" + strings.TrimSuffix(what, ", done"))
		run(j, []int{1, 3, 100}[x.SC.Choose(3)])
		depth--
	}
	sp.tap(e, hook)
	for _, j := range jobs {
		for j.r == nil || !j.r.done() {
			x.Call("transactions with others inside", 100000000, func() { run(j, 1) })
		}
	}
	if left := x.S.FS.Files(); len(left) > 0 {
		x.Fail("leftover-file", "all transactions are closed and %v are left", left)
	}
	for i, j := range jobs {
		x.Tracef("tx%d: %d steps, first inside %q, engine of its own: %v", i, len(j.script), j.at, j.own)
	}
	x.NonTrivial = inner > 0
	x.State(inner, n, depth, jobs[0].r.tx != nil && jobs[0].r.tx.Abort, len(jobs[0].r.out.lines))
	for i, j := range jobs {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, j.m, j.script, to) })
		r.all(x, "alone", 20000000)
		if d := diffLines(j.r.out.lines, r.out.lines); d != "" {
			x.Fail("nested", "transaction %d (first notified inside %q, with %d notifications made from inside components): %s (alone)", i, j.at, inner, d)
		}
	}
}

func init() {
	register(&Check{ID: "C27", Quick: 100000, Thor: 5000000, Batch: 250, Real: append([]string{"the logging library"}, lifeReal...), Stub: append([]string{"what the logging library writes to: sinks that discard, fail, write short or overwrite what they are given; formatters and hooks that fail"}, lifeStub...),
		Rule: "one run = a seeded configuration and up to 2 interleaved transactions executed 3 times: with the logging library as it starts, and with other levels (changed between notifications, too), sinks, formatters and hooks; all outcomes must be equal; non-trivial: diagnostics were written while a probe fired",
		Run:  c27})
	register(&Check{ID: "C28", Quick: 100000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: append([]string{"components of rules that panic at a seeded call, and a connector that recovers"}, lifeStub...),
		Rule: "one run = 2-4 transactions, interleaved or as tasks with race detection; in 1-2 of them a component of a rule panics at a seeded call (an error, a string, a nil dereference, an index out of range), once or repeatedly, and the connector recovers; the phase is not run again, no file is left after Close, and every other transaction, one begun afterwards included, has the outcome it has alone; non-trivial: a component panicked",
		Run:  c28})
	register(&Check{ID: "C29", Quick: 100000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = an outer transaction and 1-3 others of which notifications are made from inside the components of rules (variables, transformations, operators, actions) of the outer one and of each other, on the same engine or one built there; every outcome must be that of the transaction alone; non-trivial: a notification was made from inside a component",
		Run:  c29})
}
