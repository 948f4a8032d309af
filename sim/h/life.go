package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifsim/r/modsecurity"
)

// apply performs one step of a script on a real transaction.
func apply(tx *modsecurity.Transaction, e *modsecurity.Engine, m *Msg, s Step) error {
	if s.M != nil {
		m = s.M
	}
	switch s.Op {
	case oConn:
		tx.ProcessConnection(m.Src, m.SPort, m.Dst, m.DPort)
	case oURL:
		tx.ProcessRequestURL(m.URL(), m.Method, m.Proto)
	case oReqHdr:
		tx.ProcessRequestHeader(m.Header())
	case oReqApp:
		p := append([]byte(nil), s.Chunk...)
		err := tx.AppendRequestBody(p)
		for i := range p {
			p[i] = 0xEE
		}
		return err
	case oReqBody:
		tx.ProcessRequestBody()
	case oResHdr:
		tx.ProcessResponseHeaders(m.Code, m.RProto, m.RHeader())
	case oResApp:
		p := append([]byte(nil), s.Chunk...)
		err := tx.AppendResponseBody(p)
		for i := range p {
			p[i] = 0xEE
		}
		return err
	case oResBody:
		tx.ProcessResponseBody()
	case oLog:
		tx.ProcessLogging()
	case oMode:
		e.Enable(s.Mode)
	case oClose:
		return tx.Close()
	}
	return nil
}

// stepBudget bounds the statements of one step; it grows with message and rules.
func stepBudget(sp *SetSpec, m *Msg) int64 {
	rules, backs := 0, 1
	for _, r := range sp.Rules {
		for _, r := range append([]*RuleSpec{r}, r.Subs...) {
			rules += 1 + (len(r.Vars)-1)*(1+len(r.Trans))/4
			for _, a := range r.Acts {
				if a.Name == "back" {
					backs++
				}
			}
		}
	}
	size := len(m.Body) + len(m.RBody) + len(m.RawQuery) + 400
	for _, kv := range [][]KV{m.Hdr, m.Cookies, m.RHdr} {
		for _, e := range kv {
			size += len(e.K) + len(e.V)
		}
	}
	return 100000 + int64(backs)*int64(rules+1)*int64(size)*200
}

// verdict is a collected verdict with a copy of what it said when it was collected.
type verdict struct {
	got  *modsecurity.Intervention
	copy modsecurity.Intervention
	step int
}

func snap(i *modsecurity.Intervention, step int) *verdict {
	v := &verdict{got: i, copy: *i, step: step}
	v.copy.Log = append([]string(nil), i.Log...)
	return v
}

func (v *verdict) check(x *X) {
	if v.got.Status != v.copy.Status || v.got.Disruptive != v.copy.Disruptive || v.got.Pause != v.copy.Pause || v.got.Url != v.copy.Url ||
		len(v.got.Log) != len(v.copy.Log) || (len(v.got.Log) > 0 && !reflect.DeepEqual(v.got.Log, v.copy.Log)) {
		x.Fail("verdict-changed", "the verdict collected at step %d changed afterwards: was %+v, is %+v", v.step, v.copy, *v.got)
	}
}

type lifeOpt struct {
	spec   specOpt
	script scriptOpt
	msg    msgOpt
	small  bool // small body limits
	modes  bool
	// which differences count
	verdicts, logs, bodyErr bool
}

// lifeRun drives a transaction and the reference interpreter through the same history
// and compares what they did after every step.
func lifeRun(x *X, o lifeOpt) (sp *SetSpec, mod *mtx) {
	sp = genSet(x, o.spec)
	sp.InMem = 1 << 17
	if o.small {
		sp.InMem = []int64{1 << 17, 24, 8, 100}[x.G.Choose(4)]
		if x.G.Bool(1, 3) {
			sp.ReqLimit = sp.InMem + int64(x.G.Choose(100))
		}
		if x.G.Bool(1, 4) {
			sp.ResLimit = int64(1 + x.G.Choose(60))
		}
	}
	if o.modes {
		sp.SetMode = x.G.Bool(1, 2)
		sp.Mode = x.G.Choose(3)
		if sp.SecLang {
			sp.render(x)
		}
	}
	m := genMsg(x, o.msg)
	script := genScript(x, m, o.script)
	x.M.Choose(1)
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	tx := mustTx(x, e)
	rec := &recorder{}
	to[tx] = rec
	mod = newModel(sp, m)
	for _, r := range sp.Rules {
		x.Tracef("%v", r)
	}
	if len(sp.Defaults) > 0 {
		x.Tracef("default actions %v", sp.Defaults)
	}
	x.Tracef("%s %s?%s %q body %d bytes, response %d with %d bytes; seclang=%v in-memory limit %d body %q", m.Method, m.Path, m.RawQuery, m.CT, len(m.Body), m.Code, len(m.RBody), sp.SecLang, sp.InMem, trunc(string(m.Body), 700))
	budget := stepBudget(sp, m)
	var verdicts []*verdict
	aborted := 0
	for i, s := range script {
		if s.Op == oMode && mod.abort {
			continue // whether an abort outlives switching the engine off is left open
		}
		ne, nm := len(rec.events), len(mod.events)
		evals := rec.evals
		if s.Op == oCollect {
			var got *modsecurity.Intervention
			x.Call("Result", 10000, func() { got = tx.Result() })
			dis, status, logs := mod.collect()
			x.Tracef("%d collect: disruptive=%v status=%d logs=%d", i, got.Disruptive, got.Status, len(got.Log))
			if o.verdicts && (got.Disruptive != dis || got.Status != status) {
				x.Fail("verdict", "step %d: the collected verdict is disruptive=%v status=%d, expected disruptive=%v status=%d (%v)", i, got.Disruptive, got.Status, dis, status, mod)
			}
			if o.verdicts && (got.Url != nil || got.Pause != 0) {
				x.Fail("verdict", "step %d: the collected verdict has url %v, pause %v", i, got.Url, got.Pause)
			}
			if o.logs && len(got.Log) != logs {
				x.Fail("log", "step %d: the collected verdict has %d log lines, expected %d: %q", i, len(got.Log), logs, got.Log)
			}
			if mod.mode != 0 && !mod.abort && (got.Disruptive || got.Status != 200) && o.script.forceCollect {
				x.Fail("mode", "step %d: verdict %d disruptive=%v in mode %d", i, got.Status, got.Disruptive, mod.mode)
			}
			verdicts = append(verdicts, snap(got, i))
			x.State("collect", dis, status, mod.abort, mod.cur, mod.done)
			continue
		}
		var err error
		x.Call(s.String(), budget, func() { err = apply(tx, e, m, s) })
		ok := mod.step(s)
		ge, me := rec.events[ne:], mod.events[nm:]
		x.Tracef("%d %v: fired %v err=%v", i, s, ge, err)
		if len(ge) != len(me) || strings.Join(ge, ";") != strings.Join(me, ";") {
			x.Fail("rules", "step %d %v: the rules that fired (rule.action with the verdict at that time) are %v, expected %v (%v; aborted %v, body error %v)", i, s, ge, me, mod, tx.Abort, tx.RequestBodyError)
		}
		if mod.mode == 1 && rec.evals != evals && o.modes {
			x.Fail("mode", "step %d %v: a rule was evaluated while the engine is off", i, s)
		}
		if (s.Op == oReqApp || s.Op == oResApp) && o.bodyErr && (err == nil) != ok && len(s.Chunk) > 0 {
			x.Fail("append", "step %d %v: accepted=%v, expected %v (acknowledged %d, inspected %v): %v", i, s, err == nil, ok, len(mod.reqAck), mod.reqRead, err)
		}
		if tx.Abort != mod.abort {
			x.Fail("abort", "step %d %v: aborted=%v, expected %v", i, s, tx.Abort, mod.abort)
		}
		if o.bodyErr && (tx.RequestBodyError != nil) != mod.bodyErr {
			x.Fail("body-error", "step %d %v: RequestBodyError is %v, expected an error: %v", i, s, tx.RequestBodyError, mod.bodyErr)
		}
		if mod.abort {
			aborted++
			x.Hit("aborted")
		}
		x.State(s.Op, len(me) > 0, mod.dis, mod.abort, mod.status, mod.cur, mod.done, mod.mode, min(mod.logs, 3))
	}
	for _, v := range verdicts {
		v.check(x)
	}
	if len(mod.events) > 0 {
		x.NonTrivial = true
	}
	for _, r := range mod.fired {
		_ = r
		x.Hit("rule-fired")
	}
	x.Call("Close", 100000, func() {
		if err := tx.Close(); err != nil {
			x.Fail("close", "Close: %v", err)
		}
	})
	return sp, mod
}

func mustTx(x *X, e *modsecurity.Engine) *modsecurity.Transaction {
	var tx *modsecurity.Transaction
	var err error
	x.Call("NewTransaction", 100000, func() { tx, err = e.NewTransaction() })
	if err != nil {
		x.Fail("newtx", "NewTransaction: %v", err)
	}
	return tx
}

var lifeReal = []string{"modsecurity (engine, transaction, rules, body buffers), actions, operators, transforms, variables, seclang and its parser: all statements run as in /repo, instrumented", "mime/multipart (instrumented copy of the standard library)"}
var lifeStub = []string{"package os and io/ioutil: in-memory file system", "map iteration order, clock: chosen by the simulator", "probe actions and constant variables of the harness stand in for user-written ones"}

func init() {
	rule := "one run = a seeded rule set (built through the Go API or rendered to SecLang and loaded), a seeded message and a seeded history of notifications, appends and collections; after every step the fired actions, verdicts and aborts are compared with an independent reference interpreter; "
	register(&Check{ID: "C07", Quick: 720000, Thor: 12000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: rule + "histories are disturbed by up to 6 repeated, dropped, moved or extra notifications, rules are biased to allow actions, every phase has a rule that always matches; non-trivial: at least one probe fired",
		Run: func(x *X) {
			sp, mod := lifeRun(x, lifeOpt{
				spec:   specOpt{rules: 6, allow: 6, deny: 1, log: 1, status: 0, skip: 1, consts: 3, plainVars: 2, bodyVars: 1, matchBias: true, seclang: 1, everyPhase: true, probes: true, block: 1, chains: x.G.Bool(1, 3)},
				script: scriptOpt{collectNum: 3, collectDen: 4, disorder: 6},
			})
			last := 0
			for _, p := range mod.ranPhases {
				if p <= last {
					panic(fmt.Sprintf("model ran phase %d after %d", p, last))
				}
				last = p
			}
			_ = sp
		}})
	register(&Check{ID: "C08", Quick: 720000, Thor: 12000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: rule + "rules are biased to chains, skip, deny, status, block and negation; half of the sets are loaded from SecLang; non-trivial: at least one probe fired",
		Run: func(x *X) {
			dis := 0
			if x.G.Bool(1, 3) {
				dis = 4
			}
			lifeRun(x, lifeOpt{
				spec:     specOpt{rules: 9, allow: 1, deny: 3, log: 2, status: 3, skip: 4, pass: 2, block: 2, consts: 3, plainVars: 3, bodyVars: 1, matchBias: true, seclang: 2, probes: true, chains: true},
				script:   scriptOpt{collectNum: 1, collectDen: 2, disorder: dis},
				verdicts: true, logs: true,
			})
		}})
	register(&Check{ID: "C09", Quick: 720000, Thor: 12000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: rule + "rules are biased to deny and to bodies that are too large (abort), collections are rare or repeated, histories disturbed; every verdict ever collected is compared again at the end; non-trivial: at least one probe fired",
		Run: func(x *X) {
			num := x.G.Choose(5)
			_, mod := lifeRun(x, lifeOpt{
				spec:   specOpt{rules: 6, allow: 1, deny: 6, log: 3, status: 3, skip: 1, block: 1, consts: 3, plainVars: 1, bodyVars: 3, matchBias: true, seclang: 1, everyPhase: true, probes: true, chains: x.G.Bool(1, 4)},
				script: scriptOpt{collectNum: num, collectDen: 8, disorder: 4},
				msg:    msgOpt{bodyBias: true, maxPad: 120}, small: true,
				verdicts: true, logs: true,
			})
			if mod.dis || mod.abort {
				x.Hit("denied-at-end")
			}
		}})
	register(&Check{ID: "C16", Quick: 600000, Thor: 10000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: rule + "the mode of the engine changes between notifications (and is set in the configuration), verdicts are collected after every notification; non-trivial: at least one probe fired",
		Run: func(x *X) {
			lifeRun(x, lifeOpt{
				spec:   specOpt{rules: 6, allow: 2, deny: 5, log: 2, status: 3, skip: 2, pass: 1, block: 2, consts: 3, plainVars: 2, bodyVars: 2, matchBias: true, seclang: 2, everyPhase: true, probes: true, chains: x.G.Bool(1, 3)},
				script: scriptOpt{forceCollect: true, modes: x.G.Bool(3, 4), disorder: x.G.Choose(3)},
				msg:    msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120}, small: true,
				modes: true, verdicts: true, logs: true,
			})
		}})
}
