package main

import (
	"fmt"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/r/seclang"
)

// follower is an open transaction together with the reference interpreter that follows it.
type follower struct {
	name     string
	e        *modsecurity.Engine
	tx       *modsecurity.Transaction
	sp       *SetSpec
	m        *Msg
	mod      *mtx
	rec      *recorder
	script   []Step
	pos      int
	dir      string   // of its body files
	log      []string // lines not collected, after the last step
	verdicts []*verdict
	lines    int  // of the verdicts
	texts    bool // whether lines are compared
	closed   bool
	call     func(what string, budget int64, f func()) // how steps are run
}

func (f *follower) done() bool { return f.pos >= len(f.script) }

// step performs the next step of the script and compares what it did.
func (f *follower) step(x *X) {
	s, i := f.script[f.pos], f.pos
	f.pos++
	if s.Op == oCollect {
		f.collect(x, i)
		return
	}
	if s.Op == oClose {
		f.closed = true
	}
	ne, nm := len(f.rec.events), len(f.mod.events)
	var err error
	f.call(f.name+" "+s.String(), stepBudget(f.sp, f.m), func() { err = apply(f.tx, f.e, f.m, s) })
	before := f.mod.logs
	ok := f.mod.step(s)
	ge, me := f.rec.events[ne:], f.mod.events[nm:]
	x.Tracef("%s %d %v: fired %v err=%v, %d log lines", f.name, i, s, ge, err, len(f.tx.Intervention().Log))
	if strings.Join(ge, ";") != strings.Join(me, ";") {
		x.Fail("rules", "%s step %d %v: the rules that fired (rule.action with the verdict at that time) are %v, expected %v (%v; aborted %v, body error %v)", f.name, i, s, ge, me, f.mod, f.tx.Abort, f.tx.RequestBodyError)
	}
	if (s.Op == oReqApp || s.Op == oResApp) && (err == nil) != ok && len(s.Chunk) > 0 {
		x.Fail("append", "%s step %d %v: accepted=%v, expected %v: %v", f.name, i, s, err == nil, ok, err)
	}
	if s.Op == oClose && err != nil {
		x.Fail("close", "%s: Close: %v", f.name, err)
	}
	if f.tx.Abort != f.mod.abort {
		x.Fail("abort", "%s step %d %v: aborted=%v, expected %v", f.name, i, s, f.tx.Abort, f.mod.abort)
	}
	f.live(x, fmt.Sprintf("step %d %v", i, s))
	if f.mod.logs > before {
		x.Hit("lines-written")
	}
	x.State(s.Op, len(me) > 0, f.mod.dis, f.mod.abort, f.mod.status, f.mod.cur, f.mod.done, min(f.mod.logs, 4))
}

// live compares the lines that wait to be collected.
func (f *follower) live(x *X, at string) {
	if !f.texts {
		return
	}
	got := f.tx.Intervention().Log
	f.compare(x, at+": waiting to be collected", got)
	if len(got) >= len(f.log) && f.mod.logs >= len(f.log) {
		for k, l := range f.log {
			if got[k] != l && !f.passed() {
				x.Fail("line-changed", "%s %s: line %d was %q and is %q", f.name, at, k, l, got[k])
			}
		}
	}
	f.log = append([]string(nil), got...)
}

// passed says whether lines may have been discarded.
func (f *follower) passed() bool {
	for _, r := range f.sp.Rules {
		for _, v := range append([]*RuleSpec{r}, r.Subs...) {
			for _, a := range v.Acts {
				if a.Name == "pass" {
					return true
				}
			}
		}
	}
	for _, a := range f.mod.defaults() {
		if a.Name == "pass" {
			return true
		}
	}
	return false
}

func (f *follower) compare(x *X, what string, got []string) {
	want := f.mod.logLines
	if len(got) != len(want) {
		x.Fail("lines", "%s %s: %d log lines, %d were written: %q", f.name, what, len(got), len(want), got)
	}
	for k, p := range want {
		if !strings.HasPrefix(got[k], p) {
			x.Fail("attribution", "%s %s: line %d of %d is %q, expected one that starts with %q", f.name, what, k, len(got), got[k], p)
		}
	}
}

func (f *follower) collect(x *X, i int) {
	var got *modsecurity.Intervention
	f.call(f.name+" Result", 10000, func() { got = f.tx.Result() })
	at := fmt.Sprintf("step %d: collected", i)
	x.Tracef("%s %s disruptive=%v status=%d log %q", f.name, at, got.Disruptive, got.Status, got.Log)
	if f.texts {
		f.compare(x, at, got.Log)
		for k, l := range f.log {
			if got.Log[k] != l {
				x.Fail("line-changed", "%s %s: line %d was %q and is %q", f.name, at, k, l, got.Log[k])
			}
		}
	}
	dis, status, logs := f.mod.collect()
	if got.Disruptive != dis || got.Status != status {
		x.Fail("verdict", "%s %s verdict is disruptive=%v status=%d, expected disruptive=%v status=%d (%v)", f.name, at, got.Disruptive, got.Status, dis, status, f.mod)
	}
	f.lines += logs
	if logs > 1 {
		x.Hit("lines-collected-together")
	}
	f.verdicts = append(f.verdicts, snap(got, i))
	f.log = nil
	f.live(x, fmt.Sprintf("step %d: after the collection", i))
}

// ---- C23: log lines

// logClients are addresses as clients have them.
var logClients = []string{"10.0.0.%d", "fe80::%d%%eth0", "2001:db8::%d", "host%d.example.com", "::ffff:10.0.0.%d", "10.0.0.%d%%s", "[::%d]", "client %d", "10.0.%d.1%%!d"}

func c23(x *X) {
	o := specOpt{rules: 7, allow: 1, deny: 2, log: 6, status: 1, skip: 1, block: 2, consts: 3, plainVars: 2, bodyVars: 2, matchBias: x.G.Bool(3, 4), seclang: 1, everyPhase: x.G.Bool(1, 2), probes: true, chains: x.G.Bool(1, 3)}
	if x.G.Bool(1, 4) {
		o.pass = 1
	}
	sp := genSet(x, o)
	smallLimits(x, sp)
	if !sp.SecLang && x.G.Bool(1, 100) { // very many lines
		for _, r := range sp.Rules {
			for i, a := range r.Acts {
				if a.Name == "log" {
					many := make([]ActSpec, []int{20, 70, 130, 300, 1100}[x.G.Choose(5)])
					for k := range many {
						many[k] = a
					}
					r.Acts = append(r.Acts[:i:i], append(many, r.Acts[i:]...)...)
					x.Hit("many-lines")
					break
				}
			}
		}
	}
	x.traceSet(sp)
	if len(sp.Defaults) > 0 {
		x.Tracef("default actions %v", sp.Defaults)
	}
	n := x.crowd(1+x.G.Pick(2, 4, 2), 40)
	ms := make([]*Msg, n)
	scripts := make([][]Step, n)
	for i := range ms {
		m := genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120})
		if i > 0 && x.G.Bool(1, 3) { // two clients send the same
			c := *ms[i-1]
			m = &c
		}
		f := logClients[0]
		if x.G.Bool(1, 2) {
			f = logClients[x.G.Choose(len(logClients))]
		}
		m.Src = fmt.Sprintf(f, i+1)
		m.SPort = []string{"1234", fmt.Sprint(40000 + i), "%d", ""}[x.G.Pick(4, 4, 1, 1)]
		ms[i] = m
		scripts[i] = genScript(x, m, scriptOpt{collectNum: x.G.Choose(4), collectDen: 4, disorder: x.G.Choose(4)})
		if x.G.Bool(1, 2) {
			scripts[i] = append(scripts[i], Step{Op: oClose}, Step{Op: oCollect})
		}
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	if x.G.Bool(1, 3) {
		e.Enable(modsecurity.StatusDect)
	}
	fs := make([]*follower, n)
	open := func(i int, call func(string, int64, func())) {
		f := &follower{name: fmt.Sprintf("tx%d", i), e: e, sp: sp, m: ms[i], script: scripts[i], rec: &recorder{}, texts: true, call: call}
		var err error
		call("NewTransaction", 100000, func() { f.tx, err = e.NewTransaction() })
		if err != nil {
			x.Fail("newtx", "NewTransaction: %v", err)
		}
		to[f.tx] = f.rec
		f.mod = newModel(sp, ms[i])
		if e.DetectionOnly {
			f.mod.mode = 2
		}
		x.Tracef("%s: client %s:%s", f.name, f.m.Src, f.m.SPort)
		fs[i] = f
	}
	if n > 1 && x.SC.Bool(1, 3) {
		var names []string
		var fns []func()
		x.S.RaceOn = true
		for i := range fs {
			i := i
			names = append(names, fmt.Sprintf("tx%d", i))
			fns = append(fns, func() {
				open(i, func(_ string, _ int64, f func()) { f() })
				for !fs[i].done() {
					fs[i].step(x)
				}
			})
		}
		gap := []int{4000, 200, 20, 1000}[x.SC.Choose(4)]
		x.RunTasks(names, fns, 2+x.SC.Choose(24), gap, 100000000)
		x.Hit("in-parallel")
	} else {
		live := make([]int, n)
		for i := range live {
			live[i] = i
		}
		for len(live) > 0 {
			k := x.SC.Choose(len(live))
			i := live[k]
			if fs[i] == nil {
				open(i, x.Call)
			}
			for n := 1 + x.SC.Choose(5); n > 0 && !fs[i].done(); n-- {
				fs[i].step(x)
			}
			if fs[i].done() {
				live = append(live[:k:k], live[k+1:]...)
			}
		}
	}
	lines, with := 0, 0
	for _, f := range fs {
		for _, v := range f.verdicts {
			v.check(x)
		}
		lines += f.lines
		if f.lines > 0 {
			with++
		}
	}
	if lines > 0 {
		x.NonTrivial = true
	}
	if with > 1 {
		x.Hit("lines-of-several-transactions")
	}
}

// ---- C22: live reconfiguration

const maxOpen = 3

// liveSet is a rule set in use and what the model knows of it.
type liveSet struct {
	rs   *modsecurity.SecRuleSet
	live *liveSpec
	all  []*RuleSpec
}

func c22(x *X) {
	acc := &access{}
	to := recorders{}
	x.S.MapSeed = uint64(x.M.Choose(4))
	ids := 0
	gen := func(rules int, every bool) *SetSpec {
		sp := genSet(x, specOpt{rules: rules, allow: 1, deny: 1, log: 1, status: 1, skip: 2, block: 3, consts: 4, plainVars: 2, bodyVars: 2, matchBias: true, seclang: 2, everyPhase: every, probes: true, chains: x.G.Bool(1, 3)})
		ids += 1000
		renumber(sp, ids)
		if sp.SecLang {
			sp.ReqBody, sp.ResBody = x.G.Bool(3, 4), x.G.Bool(3, 4)
			sp.render(x)
		}
		return sp
	}
	var e *modsecurity.Engine
	var sets []*liveSet
	var cur *liveSet
	newSet := func(rs *modsecurity.SecRuleSet) *liveSet {
		s := &liveSet{rs: rs, live: &liveSpec{byPhase: map[int][]*RuleSpec{}, access: acc}}
		sets = append(sets, s)
		return s
	}
	addDefaults := func(s *liveSet, d []ActSpec) {
		for _, a := range d {
			a := a
			x.Call("AddDefaultActions", 10000, func() { s.rs.AddDefaultActions(makeAct(a, 0, to)) })
		}
		s.live.defaults = append(s.live.defaults[:len(s.live.defaults):len(s.live.defaults)], d...)
		x.Tracef("default actions of set %d: %v", s.index(sets), s.live.defaults)
	}
	// load adds the rules of a specification to a set.
	load := func(s *liveSet, sp *SetSpec) {
		for _, r := range sp.Rules {
			x.Tracef("set %d += %v", s.index(sets), r)
		}
		if sp.SecLang && s == cur { // what a text says is applied to the engine
			x.Tracef("from %q", sp.Text)
			have := map[int]int{}
			for p := 1; p < modsecurity.PhaseEnd; p++ {
				have[p] = len(s.rs.Phases[p])
			}
			ds, err := (*seclang.DireSet)(nil), error(nil)
			x.Call("load", loadBound(len(sp.Text)), func() { ds, err = seclang.NewDireSetFromSecLangString(sp.Text) })
			if err != nil {
				x.Fail("load", "a valid configuration is rejected: %v\n%s", err, sp.Text)
			}
			x.execute(ds, e)
			sp.attachAfter(x, e, to, have)
			acc.req, acc.res = sp.ReqBody, sp.ResBody
			x.Hit("text-applied")
		} else {
			var made []*modsecurity.SecRule
			for _, r := range sp.Rules {
				made = append(made, makeRule(x, r, to))
			}
			x.Call("AddRules", 100000, func() {
				if s == cur && x.G.Bool(1, 2) {
					e.AddSecRule(made...)
				} else {
					s.rs.AddRules(made...)
				}
			})
		}
		for _, r := range sp.Rules {
			s.live.byPhase[r.Phase] = append(s.live.byPhase[r.Phase], r)
		}
		s.all = append(s.all, sp.Rules...)
		var d []ActSpec
		for _, a := range sp.Defaults {
			if a.Name != "allow" {
				d = append(d, a)
			}
		}
		if len(d) > 0 && x.G.Bool(1, 2) {
			addDefaults(s, d)
		}
	}
	x.Call("NewEngine", 10000, func() { e = modsecurity.NewEngine() })
	lim := &SetSpec{Dir: "/data/waf", InMem: 1 << 17} // of transactions to come
	e.TmpPath = lim.Dir
	cur = newSet(e.RuleSet)
	if !x.G.Bool(1, 6) {
		load(cur, gen(4, x.G.Bool(1, 2)))
	}
	acc.req, acc.res = x.G.Bool(4, 5), x.G.Bool(4, 5)
	e.RequestBodyAccess, e.ResponseBodyAccess = acc.req, acc.res
	total := 1 + x.G.Choose(4)
	var open []*follower
	started, changes, fired := 0, 0, 0
	budget := 6 + x.G.Choose(14) // changes of the configuration
	for started < total || len(open) > 0 {
		switch {
		case started < total && (len(open) == 0 || len(open) < maxOpen && x.SC.Bool(1, 5)):
			s := cur
			f := &follower{name: fmt.Sprintf("tx%d", started), e: e, rec: &recorder{}, call: x.Call, dir: e.TmpPath}
			var err error
			if x.G.Bool(1, 5) {
				s = sets[x.G.Choose(len(sets))]
				x.Call("NewTransaction", 100000, func() { f.tx, err = modsecurity.NewTransaction(e, s.rs) })
				x.Hit("explicit-set")
			} else {
				x.Call("NewTransaction", 100000, func() { f.tx, err = e.NewTransaction() })
			}
			if err != nil {
				x.Fail("newtx", "NewTransaction: %v", err)
			}
			started++
			to[f.tx] = f.rec
			c := *lim
			f.sp = &c
			f.sp.Rules = s.all
			f.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 150})
			f.script = genScript(x, f.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(3)})
			if x.G.Bool(3, 4) {
				f.script = append(f.script, Step{Op: oClose})
			}
			f.mod = newModel(f.sp, f.m)
			f.mod.follow(s.live)
			open = append(open, f)
			x.Tracef("%s starts with set %d, limits %d/%d/%d in %s; %s %s %q body %s", f.name, s.index(sets), c.InMem, c.ReqLimit, c.ResLimit, c.Dir, f.m.Method, f.m.Path, f.m.CT, q(f.m.Body))
		case budget > 0 && x.SC.Bool(1, 3):
			budget--
			if len(open) > 0 {
				changes++
			}
			switch x.G.Pick(3, 3, 2, 2, 3, 1) {
			case 0: // another rule set, new or used before
				s := sets[x.G.Choose(len(sets))]
				if x.G.Bool(1, 2) || len(sets) == 1 {
					s = newSet(modsecurity.NewSecRuleSet())
					load(s, gen(3, x.G.Bool(1, 3)))
				}
				e.RuleSet, cur = s.rs, s
				x.Hit("set-replaced")
				x.Tracef("set %d in use", s.index(sets))
			case 1: // more rules
				s := cur
				if x.G.Bool(1, 5) {
					s = sets[x.G.Choose(len(sets))]
				}
				load(s, gen(2, false))
				x.Hit("rules-added")
			case 2:
				allow := true // a rule executes at most one
				as := genActs(x, specOpt{deny: 2, log: 2, status: 1}, &allow)
				as = append(as, ActSpec{Name: "probe", N: 90 + x.G.Choose(9), Group: 2})
				addDefaults(cur, as)
				x.Hit("defaults-added")
			case 3:
				acc.req, acc.res = x.G.Bool(1, 2), x.G.Bool(1, 2)
				e.RequestBodyAccess, e.ResponseBodyAccess = acc.req, acc.res
				x.Tracef("body access %v %v", acc.req, acc.res)
				x.Hit("access-changed")
			case 4:
				lim.InMem = []int64{1 << 17, 24, 8, 100}[x.G.Choose(4)]
				lim.ReqLimit = lim.InMem + int64(x.G.Choose(120))
				lim.ResLimit = 1 + int64(x.G.Choose(80))
				if x.G.Bool(1, 2) {
					lim.Dir = []string{"/data/waf", "/data/waf2", "/data/waf3"}[x.G.Choose(3)]
				}
				if x.G.Bool(1, 2) { // the fields one by one, or new values as a whole
					e.RequestBodyInMem, e.RequestBody, e.ResponseBody, e.TmpPath = lim.InMem, lim.ReqLimit, lim.ResLimit, lim.Dir
				} else {
					e.Limits = &modsecurity.Limits{RequestBodyAccess: acc.req, ResponseBodyAccess: acc.res, RequestBody: lim.ReqLimit, RequestBodyInMem: lim.InMem, ResponseBody: lim.ResLimit}
					e.Config = &modsecurity.Config{TmpPath: lim.Dir}
				}
				x.Tracef("limits %d/%d/%d in %s", lim.InMem, lim.ReqLimit, lim.ResLimit, lim.Dir)
				x.Hit("limits-changed")
			case 5: // a text that is rejected
				x.Call("load", 1000000, func() {
					if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \"x\" \"id:1,phase:2,deny\"\nSecRule"); err == nil {
						x.Fail("accepted", "an incomplete text is accepted")
					}
				})
			}
		case len(open) > 0:
			k := x.SC.Choose(len(open))
			f := open[k]
			for n := 1 + x.SC.Choose(4); n > 0 && !f.done(); n-- {
				f.step(x)
			}
			if f.done() {
				fired += len(f.mod.events)
				open = append(open[:k:k], open[k+1:]...)
				if !f.closed {
					x.Call("Close", 100000, func() { f.tx.Close() })
				}
				for _, v := range f.verdicts {
					v.check(x)
				}
			}
		}
		for _, p := range x.S.FS.Files() {
			ok := strings.HasPrefix(p, "/tmp/") // parsing of uploads
			for _, f := range open {
				ok = ok || strings.HasPrefix(p, f.dir+"/")
			}
			if !ok {
				x.Fail("directory", "%s belongs to no open transaction", p)
			}
		}
	}
	x.State(len(sets), min(changes, 10), min(fired, 20), lim.InMem)
	if fired > 0 && changes > 0 {
		x.NonTrivial = true
	}
}

func (s *liveSet) index(sets []*liveSet) int {
	for i, t := range sets {
		if s == t {
			return i
		}
	}
	return -1
}

// renumber gives the rules ids that no other set has.
func renumber(sp *SetSpec, by int) {
	for _, r := range sp.Rules {
		for _, v := range append([]*RuleSpec{r}, r.Subs...) {
			if v.Given == v.ID {
				v.Given += by
			}
			v.ID += by
		}
	}
}

func init() {
	register(&Check{ID: "C23", Quick: 200000, Thor: 6000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 1-3 transactions of one engine, each with a client of its own, interleaved step by step or run as concurrent tasks with seeded switches and race detection; rules are biased to log, deny and block, bodies to exceed limits; after every step and collection the lines waiting and collected are compared in number, order, client and phase with what the reference interpreter says was written, and with themselves afterwards; non-trivial: a line was collected",
		Run:  c23})
	register(&Check{ID: "C22", Quick: 150000, Thor: 6000000, Batch: 250, Real: append(loadReal, lifeReal...), Stub: append(loadStub, lifeStub...),
		Rule: "one run = an engine reconfigured between the notifications of 1-3 open transactions: rule set replaced, rules and default actions added (through the Go API or by applying a SecLang text), body access, limits and directory changed; each transaction is followed by a reference interpreter that has the rules and limits it started with and the changes that reach it; non-trivial: a probe fired and the configuration changed under an open transaction",
		Run:  c22})
}
