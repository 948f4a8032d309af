package main

import (
	"fmt"

	"verifsim/r/modsecurity"
	"verifsim/r/seclang"
)

// ---- C21: engines made from one rule set are independent

const (
	gExec = iota
	gMode
	gAccess
	gLimits
	gDefaults
	gRule
	gTx
)

type engOp struct {
	kind   int
	mode   int
	req    bool
	lim    [3]int64
	dir    string
	acts   []ActSpec
	rule   *RuleSpec
	m      *Msg
	script []Step
	texts  int // of the texts accepted by then, those that this execution applies
}

// engJob is what happens to one engine.
type engJob struct {
	e    *modsecurity.Engine
	ops  []*engOp
	pos  int
	open *runner // in between the steps of a transaction
	out  []string
}

func (o *engOp) String() string {
	switch o.kind {
	case gExec:
		return "apply the rule set"
	case gMode:
		return fmt.Sprintf("mode %d", o.mode)
	case gAccess:
		return fmt.Sprintf("request body %v", o.req)
	case gLimits:
		return fmt.Sprintf("limits %v in %s", o.lim, o.dir)
	case gDefaults:
		return fmt.Sprintf("default actions %v", o.acts)
	case gRule:
		return fmt.Sprintf("add %v", o.rule)
	}
	return fmt.Sprintf("transaction of %d steps", len(o.script))
}

// one performs the next operation, or the next step of a transaction.
func (j *engJob) one(x *X, ds func(o *engOp) *seclang.DireSet, to recorders) {
	o := j.ops[j.pos]
	if o.kind == gTx {
		if j.open == nil {
			j.open = newRunner(j.e, o.m, o.script, to)
		}
		if !j.open.done() {
			j.open.step()
			return
		}
		j.out = append(j.out, j.open.out.lines...)
		j.open = nil
		j.pos++
		return
	}
	j.pos++
	switch o.kind {
	case gExec:
		err := ds(o).Execute(j.e)
		j.out = append(j.out, "apply: "+errText(err))
	case gMode:
		j.e.Enable(o.mode)
	case gAccess:
		j.e.RequestBodyAccess, j.e.ResponseBodyAccess = o.req, !o.req
	case gLimits:
		j.e.RequestBodyInMem, j.e.RequestBody, j.e.ResponseBody = o.lim[0], o.lim[1], o.lim[2]
		j.e.TmpPath = o.dir
	case gDefaults:
		for _, a := range o.acts {
			j.e.RuleSet.AddDefaultActions(makeAct(a, 0, to))
		}
	case gRule:
		j.e.AddSecRule(makeRule(x, o.rule, to))
	}
	j.out = append(j.out, dumpEngine(j.e))
}

func (j *engJob) done() bool { return j.pos >= len(j.ops) }

func c21(x *X) {
	o := mixSpec(x, x.G.Bool(1, 3))
	o.seclang = 4
	sp := genSet(x, o)
	x.traceSet(sp)
	own := mixSpec(x, false) // rules that one engine has beside those of the set
	own.seclang, own.rules = 0, 1
	n := 2 + x.G.Pick(5, 2)
	jobs := make([]*engJob, n)
	msg := genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120})
	for i := range jobs {
		j := &engJob{}
		for k := x.G.Choose(3); k > 0; k-- {
			j.ops = append(j.ops, genEngOp(x, own, msg))
		}
		if !x.G.Bool(1, 10) {
			j.ops = append(j.ops, &engOp{kind: gExec})
		}
		for k := 1 + x.G.Choose(5); k > 0; k-- {
			j.ops = append(j.ops, genEngOp(x, own, msg))
		}
		jobs[i] = j
		x.Tracef("engine %d: %v", i, j.ops)
	}
	// load makes a rule set of the first texts, with probes in the rules of the very first.
	var texts []string
	load := func(k int, to recorders) *seclang.DireSet {
		ds, err := seclang.NewDireSetFromSecLangString(texts[0])
		if err == nil {
			e := modsecurity.NewEngine()
			if err = ds.Execute(e); err == nil {
				sp.attach(x, e, to)
			}
		}
		for _, t := range texts[1:k] {
			if err == nil {
				err = ds.AddSecLangString(t)
			}
		}
		if err != nil {
			x.Fail("load", "a valid configuration is rejected: %v\n%q", err, texts[:k])
		}
		return ds
	}
	texts = []string{sp.Text}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	var set *seclang.DireSet
	x.Call("load", 10000000, func() { set = load(1, to) })
	shared := func(o *engOp) *seclang.DireSet {
		o.texts = len(texts)
		return set
	}
	if x.G.Bool(1, 2) { // in parallel
		var names []string
		var fns []func()
		for i, j := range jobs {
			j := j
			names = append(names, fmt.Sprintf("engine%d", i))
			fns = append(fns, func() {
				j.e = modsecurity.NewEngine()
				for !j.done() {
					j.one(x, shared, to)
				}
			})
		}
		x.S.RaceOn = true
		gap := []int{4000, 200, 20, 1000}[x.SC.Choose(4)]
		x.RunTasks(names, fns, 2+x.SC.Choose(24), gap, 100000000)
		x.Hit("in-parallel")
	} else { // in turn; the rule set may grow meanwhile
		grow := x.G.Bool(1, 2)
		for {
			var live []*engJob
			for _, j := range jobs {
				if !j.done() {
					live = append(live, j)
				}
			}
			if len(live) == 0 {
				break
			}
			if grow && x.SC.Bool(1, 12) {
				c := genConf(x, confOpt{n: 3, bad: x.G.Bool(1, 3)})
				if x.addText(set, c.text) == nil {
					texts = append(texts, c.text)
					x.Hit("rule-set-grown")
				}
				x.Tracef("add %q: %d texts accepted", trunc(c.text, 200), len(texts))
			}
			j := live[x.SC.Choose(len(live))]
			if j.e == nil {
				x.Call("NewEngine", 10000, func() { j.e = modsecurity.NewEngine() })
			}
			for k := 1 + x.SC.Choose(4); k > 0 && !j.done(); k-- {
				x.Call("operation", 20000000, func() { j.one(x, shared, to) })
			}
		}
	}
	for _, j := range jobs {
		if j.e == nil {
			continue
		}
		j.out = append(j.out, dumpEngine(j.e))
	}
	fired := 0
	for i, j := range jobs {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		to := recorders{}
		a := &engJob{ops: j.ops}
		x.Call("alone", 100000000, func() {
			a.e = modsecurity.NewEngine()
			for !a.done() {
				a.one(x, func(o *engOp) *seclang.DireSet { return load(o.texts, to) }, to)
			}
			a.out = append(a.out, dumpEngine(a.e))
		})
		if d := diffLines(j.out, a.out); d != "" {
			x.Fail("shared", "engine %d of %d made from one rule set: %s (with a rule set of its own)", i, n, d)
		}
		if anyFired(a.out) {
			fired++
		}
		x.State(n, len(a.out), len(texts), a.e.Enabled, a.e.DetectionOnly)
	}
	if fired > 0 {
		x.NonTrivial = true
	}
	if fired > 1 {
		x.Hit("rules-fired-on-several-engines")
	}
}

func genEngOp(x *X, own specOpt, msg *Msg) *engOp {
	o := &engOp{}
	switch x.G.Pick(5, 1, 1, 1, 1, 1, 1) {
	case 0:
		o.kind, o.m = gTx, msg
		if x.G.Bool(1, 2) {
			o.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120})
		}
		o.script = append(genScript(x, o.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(3)}), Step{Op: oClose})
	case 1:
		o.kind, o.mode = gMode, x.G.Choose(3)
	case 2:
		o.kind, o.req = gAccess, x.G.Bool(1, 2)
	case 3:
		o.kind = gLimits
		o.lim[0] = []int64{1 << 17, 24, 8, 100}[x.G.Choose(4)]
		o.lim[1] = o.lim[0] + int64(x.G.Choose(120))
		o.lim[2] = 1 + int64(x.G.Choose(60))
		o.dir = []string{"/data/waf", "/tmp", "/data/waf2"}[x.G.Choose(3)]
	case 4:
		own.block = 0
		d := false
		o.kind, o.acts = gDefaults, append(genActs(x, own, &d), ActSpec{Name: "probe", N: 90, Group: 2})
	case 5:
		o.kind = gRule
		o.rule = genSet(x, own).Rules[0]
		o.rule.ID, o.rule.Given = 900, x.G.Choose(2)*900
	case 6:
		o.kind = gExec // once more
	}
	return o
}

func init() {
	register(&Check{ID: "C21", Quick: 90000, Thor: 2000000, Batch: 250, Real: append(loadReal, lifeReal...), Stub: append(loadStub, lifeStub...),
		Rule: "one run = 2-3 engines configured from one loaded rule set, each with its own sequence of applying it (again), mode, body access, limit, directory and default action changes, additional rules and transactions, run in turn (the rule set growing by accepted and rejected texts meanwhile) or as concurrent tasks with seeded switches and race detection; then each sequence alone on an engine with a rule set of its own; settings, rules and outcomes must be equal after every operation; non-trivial: a probe fired",
		Run:  c21})
}
