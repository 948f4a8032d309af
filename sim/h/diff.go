package main

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"verifsim/r/modsecurity"
)

// ---- what a transaction did

// outcome is everything the properties let a caller rely on.
type outcome struct {
	lines []string
	brief []string // without log texts
}

var tempName = regexp.MustCompile(`(modsecurity-buffer-|multipart-)\d+(\.data)?`)

func errText(e error) string {
	if e == nil {
		return "-"
	}
	return tempName.ReplaceAllString(e.Error(), "<temp>")
}

func (o *outcome) add(f string, a ...interface{}) { o.lines = append(o.lines, fmt.Sprintf(f, a...)) }

// runner performs the steps of a script and records what can be seen of them.
type runner struct {
	tx     *modsecurity.Transaction
	e      *modsecurity.Engine
	m      *Msg
	script []Step
	pos    int
	rec    *recorder
	out    outcome
	apply  func(s Step) error // in place of the default
}

func newRunner(e *modsecurity.Engine, m *Msg, script []Step, to recorders) *runner {
	r := &runner{e: e, m: m, script: script, rec: &recorder{}}
	tx, err := e.NewTransaction()
	r.out.add("new transaction: %s", errText(err))
	if err != nil {
		r.pos = len(script)
		return r
	}
	r.tx = tx
	if to != nil {
		to[tx] = r.rec
	}
	return r
}

func (r *runner) done() bool { return r.pos >= len(r.script) }

func (r *runner) step() {
	s := r.script[r.pos]
	i := r.pos
	r.pos++
	if s.Op == oCollect {
		v := r.tx.Result()
		r.out.brief = append(r.out.brief, fmt.Sprintf("%d verdict %d disruptive=%v url=%v pause=%v lines=%d", i, v.Status, v.Disruptive, v.Url, v.Pause, len(v.Log)))
		r.out.add("%d verdict %d disruptive=%v url=%v pause=%v log %q", i, v.Status, v.Disruptive, v.Url, v.Pause, v.Log)
		return
	}
	ne := len(r.rec.events)
	var err error
	if r.apply != nil {
		err = r.apply(s)
	} else {
		err = apply(r.tx, r.e, r.m, s)
	}
	l := fmt.Sprintf("%d %v: err=%s fired=%v abort=%v body error=%s phase=%d", i, s, errText(err), r.rec.events[ne:], r.tx.Abort, errText(r.tx.RequestBodyError), r.tx.CurrentPhase())
	r.out.lines = append(r.out.lines, l)
	r.out.brief = append(r.out.brief, l)
}

// all runs the rest of the script, each step within the budget.
func (r *runner) all(x *X, name string, budget int64) {
	for !r.done() {
		s := r.script[r.pos]
		x.Call(name+" "+s.String(), budget, r.step)
	}
}

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		var l, m string
		if i < len(a) {
			l = a[i]
		}
		if i < len(b) {
			m = b[i]
		}
		if l != m {
			return fmt.Sprintf("%s\n  instead of\n  %s", trunc(l, 600), trunc(m, 600))
		}
	}
	return ""
}

func anyFired(l []string) bool {
	for _, s := range l {
		if strings.Contains(s, " fired=[") && !strings.Contains(s, " fired=[]") {
			return true
		}
	}
	return false
}

// mixSpec is a balanced rule set of everything.
func mixSpec(x *X, chains bool) specOpt {
	return specOpt{rules: 6, allow: 1, deny: 2, log: 3, status: 2, skip: 1, pass: 1, block: 1, consts: 1, plainVars: 4, bodyVars: 4, matchBias: x.G.Bool(1, 2), seclang: 2, probes: true, chains: chains}
}

func smallLimits(x *X, sp *SetSpec) {
	sp.InMem = []int64{1 << 17, 24, 8, 100}[x.G.Choose(4)]
	if x.G.Bool(1, 4) {
		sp.ReqLimit = sp.InMem + int64(x.G.Choose(120))
	}
	if x.G.Bool(1, 6) {
		sp.ResLimit = int64(1 + x.G.Choose(60))
	}
}

func (x *X) traceSet(sp *SetSpec) {
	for _, r := range sp.Rules {
		x.Tracef("%v", r)
	}
	x.Tracef("seclang=%v in-memory limit %d limit %d", sp.SecLang, sp.InMem, sp.ReqLimit)
}

// ---- C05: concurrent transactions

func c05(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	n := x.crowd(2+x.G.Pick(6, 3, 1), 12)
	type job struct {
		m      *Msg
		script []Step
		r      *runner
		u      *url.URL
		h, rh  http.Header
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		if i > 0 && x.G.Bool(1, 6) { // two clients send the same
			j.m = jobs[i-1].m
			if jobs[i-1].u != nil || x.G.Bool(1, 2) { // or one request is looked at twice
				if jobs[i-1].u == nil {
					jobs[i-1].u, jobs[i-1].h, jobs[i-1].rh = j.m.URL(), j.m.Header(), j.m.RHeader()
				}
				j.u, j.h, j.rh = jobs[i-1].u, jobs[i-1].h, jobs[i-1].rh
				x.Hit("shared-request")
			}
		} else {
			j.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120})
			if x.G.Bool(1, 10) {
				damage(x, &j.m.Body)
			}
		}
		j.m.Src = fmt.Sprintf("10.0.%d.%d", i, 1+x.G.Choose(3))
		c := *j.m
		j.m = &c
		j.script = append(genScript(x, j.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(3)}), Step{Op: oClose})
		jobs[i] = j
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	x.S.RaceOn = true
	var names []string
	var fns []func()
	for i, j := range jobs {
		j := j
		names = append(names, fmt.Sprintf("tx%d", i))
		fns = append(fns, func() {
			j.r = newRunner(e, j.m, j.script, to)
			if tx := j.r.tx; tx != nil && j.u != nil {
				j.r.apply = func(s Step) error {
					switch s.Op {
					case oURL:
						tx.ProcessRequestURL(j.u, j.m.Method, j.m.Proto)
					case oReqHdr:
						tx.ProcessRequestHeader(j.h)
					case oResHdr:
						tx.ProcessResponseHeaders(j.m.Code, j.m.RProto, j.rh)
					default:
						return apply(tx, e, j.m, s)
					}
					return nil
				}
			}
			for !j.r.done() {
				j.r.step()
			}
		})
	}
	gap := []int{4000, 200, 20, 1000}[x.SC.Choose(4)]
	x.RunTasks(names, fns, 2+x.SC.Choose(24), gap, 100000000)
	if left := x.S.FS.Files(); len(left) > 0 {
		x.Fail("leftover-file", "all transactions are closed and %v are left", left)
	}
	switches := len(x.S.Switches)
	for i, j := range jobs {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, j.m, j.script, to) })
		r.all(x, fmt.Sprintf("tx%d alone", i), 20000000)
		if d := diffLines(j.r.out.lines, r.out.lines); d != "" {
			x.Fail("isolation", "tx%d among %d concurrent transactions (%d switches): %s (alone)", i, n, switches, d)
		}
		if anyFired(r.out.lines) {
			x.NonTrivial = true
			x.Hit("rule-fired")
		}
		x.Tracef("tx%d: %d steps, outcome equal", i, len(j.script))
		x.State(n, len(r.out.lines), r.tx != nil && r.tx.Abort)
	}
}

// ---- C06: unordered iteration

func c06(x *X) {
	o := mixSpec(x, x.G.Bool(1, 4))
	o.seclang = 3
	sp := genSet(x, o)
	smallLimits(x, sp)
	m := genMsg(x, msgOpt{bodyBias: x.G.Bool(3, 4), maxPad: 120, crowd: 12})
	if x.G.Bool(1, 3) {
		damage(x, &m.Body)
		x.Hit("damaged-body")
	}
	if x.G.Bool(1, 12) {
		damageCT(x, m)
	}
	script := genScript(x, m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)})
	x.traceSet(sp)
	x.Tracef("%s %s?%s %q body %s", m.Method, m.Path, m.RawQuery, m.CT, q(m.Body))
	var first []string
	for k := 0; k < 4; k++ {
		if k > 0 {
			x.NewSim()
			x.S.MapSeed = 1 + uint64(x.M.Choose(1000))
		}
		seed := x.S.MapSeed
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, m, script, to) })
		r.all(x, fmt.Sprintf("order %d", seed), 20000000)
		if r.tx != nil {
			x.Call("Close", 100000, func() { r.tx.Close() })
		}
		if k == 0 {
			first = r.out.brief
			for _, l := range first {
				x.Tracef("%s", l)
			}
			if x.S.MapIter > 0 && anyFired(first) {
				x.NonTrivial = true
			}
			continue
		}
		if d := diffLines(r.out.brief, first); d != "" {
			x.Fail("order-dependent", "with maps enumerated in order %d: %s (in sorted order)", seed, d)
		}
		x.State(len(first), r.tx != nil && r.tx.Abort, min(int(x.S.MapIter), 20))
	}
}

// damageCT mislabels the body.
func damageCT(x *X, m *Msg) {
	switch x.G.Choose(5) {
	case 0:
		b := []byte(m.CT)
		damage(x, &b)
		m.CT = string(b)
	default:
		cts := []string{"multipart/form-data", "multipart/form-data; boundary=", `multipart/form-data; boundary=""`, "multipart/mixed; boundary=XxBOUNDxX", "multipart/form-data; boundary=XxBOUNDxX; boundary=b",
			formCT, "application/x-www-form-urlencoded; =", "APPLICATION/X-WWW-FORM-URLENCODED", "multipart/", "application/x-www-form-urlencoded2", ";", "/", " ", "multipart/form-data; boundary=" + strings.Repeat("z", 100)}
		m.CT = cts[x.G.Choose(len(cts))]
	}
}

// ---- C19: engines do not age

func c19(x *X) {
	o := mixSpec(x, x.G.Bool(1, 4))
	busy := x.G.Bool(1, 250)
	if busy {
		o.rules, o.plainVars, o.bodyVars, o.log, o.deny, o.trans, o.matchBias = 12, 12, 2, 6, 1, true, false
	}
	sp := genSet(x, o)
	smallLimits(x, sp)
	x.traceSet(sp)
	probeMsg := genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120})
	if x.G.Bool(1, 6) {
		damage(x, &probeMsg.Body)
	}
	script := append(genScript(x, probeMsg, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)}), Step{Op: oClose})
	// a fresh engine
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	var ref *runner
	x.Call("NewTransaction", 100000, func() { ref = newRunner(e, probeMsg, script, to) })
	ref.all(x, "fresh", 20000000)
	// an engine with a past
	x.NewSim()
	x.S.MapSeed = uint64(x.M.Choose(4))
	to = recorders{}
	e = sp.build(x, to)
	fs := x.S.FS
	if x.G.Bool(1, 2) {
		x.planFaults(fs, allOps, 3)
	}
	n := 1 + x.G.Choose(6)
	if x.G.Bool(1, 40) {
		n = 20 + x.G.Choose(60)
		x.Hit("long-history")
	}
	reap := -1
	if x.F.Bool(1, 10) {
		reap = x.F.Choose(n)
	}
	if busy {
		c19busy(x, e, to, probeMsg, script)
	}
	var open []*runner
	for i := 0; i < n; i++ {
		if i == reap {
			fs.Reap(e.TmpPath)
			fs.Fired["reap-directory"]++
		}
		m := probeMsg
		if !x.G.Bool(1, 3) {
			m = genMsg(x, msgOpt{bodyBias: x.G.Bool(3, 4), maxPad: 150})
		}
		if x.G.Bool(1, 5) {
			c := *m
			damage(x, &c.Body)
			m = &c
		}
		s := genScript(x, m, scriptOpt{collectNum: x.G.Choose(3), collectDen: 3, disorder: x.G.Choose(4)})
		end := "never closed"
		if x.G.Bool(1, 3) {
			s = s[:x.G.Choose(len(s)+1)]
			end = "abandoned"
		} else if x.G.Bool(2, 3) {
			s = append(s, Step{Op: oClose})
			end = "closed"
		}
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, m, s, to) })
		open = append(open, r)
		// a transaction may be interleaved with its predecessors
		for k := x.SC.Choose(4); k > 0 && len(open) > 1; k-- {
			o := open[x.SC.Choose(len(open))]
			if !o.done() {
				x.Call("history", 20000000, o.step)
			}
		}
		if x.G.Bool(3, 4) {
			r.all(x, fmt.Sprintf("history %d", i), 20000000)
		}
		if i < 12 {
			x.Tracef("history %d: %d steps, %s, abort=%v", i, len(s), end, r.tx != nil && r.tx.Abort)
		}
		if r.tx != nil {
			x.State(end, r.tx.Abort, r.tx.RequestBodyError != nil, fs.FiredTotal() > 0, r.tx.CurrentPhase())
			if r.tx.Abort {
				x.Hit("history-aborted")
			}
		}
	}
	if fs.FiredTotal() > 0 {
		x.Hit("history-with-faults")
	}
	fs.Healed = true
	if gone := x.G.Bool(1, 4) && !under("/tmp", e.TmpPath); gone { // as on a fresh machine
		fs.Reap(e.TmpPath)
		fs.Fired["reap-directory"]++
		x.Hit("directory-gone-before-the-last-transaction")
	} else if fs.Reaps > 0 { // the directory is put back, as the operator would
		fs.Mkdir(e.TmpPath, true, 0700)
	}
	fs.Mkdir("/tmp", true, 0700) // uploads go here, and a fresh machine has it
	var r *runner
	x.Call("NewTransaction", 100000, func() { r = newRunner(e, probeMsg, script, to) })
	r.all(x, "after the history", 20000000)
	if d := diffLines(r.out.lines, ref.out.lines); d != "" {
		x.Fail("aged", "after %d transactions on the engine: %s (on a fresh engine)", n, d)
	}
	if anyFired(ref.out.lines) {
		x.NonTrivial = true
	}
}

func marked(kv []KV, u string) []KV {
	kv = append([]KV(nil), kv...)
	for i := range kv {
		if kv[i].K != "Content-Type" && kv[i].K != "Content-Length" {
			kv[i].V += u
		}
	}
	return kv
}

var clientOf = regexp.MustCompile(`\[client [^\]]*\]`)

// c19busy has very many transactions of a few kinds, often of a client and with values of their own.
func c19busy(x *X, e *modsecurity.Engine, to recorders, m *Msg, script []Step) {
	n := []int{70, 130, 260, 520, 1030, 1030, 2060, 4100}[x.G.Choose(8)]
	type kind struct {
		m *Msg
		s []Step
		l []string // what the first of them did
	}
	kinds := []*kind{{m: m, s: script}}
	fs := x.S.FS
	for i := x.G.Choose(4); i > 0; i-- {
		k := &kind{m: genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 60})}
		k.s = genScript(x, k.m, scriptOpt{collectNum: x.G.Choose(3), collectDen: 3, disorder: x.G.Choose(3)})
		if x.G.Bool(1, 6) {
			k.s = k.s[:x.G.Choose(len(k.s)+1)]
		} else if x.G.Bool(4, 5) {
			k.s = append(k.s, Step{Op: oClose})
		}
		kinds = append(kinds, k)
	}
	own := x.G.Choose(4)
	x.Tracef("history: %d transactions of %d kinds (of their own: %d)", n, len(kinds), own)
	for i := 0; i < n; i++ {
		k := kinds[(i*i+i/3)%len(kinds)]
		c := *k.m
		if own > 0 {
			c.Src = fmt.Sprintf("10.%d.%d.%d", 3+i>>16, i>>8&255, i&255)
			c.SPort = fmt.Sprint(1024 + i%60000)
		}
		if own > 1 {
			b := []byte("ghhhhhhh") // no pattern matches a part of it
			for k, v := 7, i; v > 0; k, v = k-1, v/4 {
				b[k] = "hgkm"[v%4]
			}
			u := string(b)
			if own > 2 { // values that match, too
				c.Query, c.Hdr, c.Cookies, c.RHdr = marked(c.Query, u), marked(c.Hdr, u), marked(c.Cookies, u), marked(c.RHdr, u)
			}
			c.Path += u
			c.Query = append(c.Query[:len(c.Query):len(c.Query)], KV{u, u})
			c.RawQuery = encodeKVs(c.Query)
			c.Hdr = append(c.Hdr[:len(c.Hdr):len(c.Hdr)], KV{"X-U" + u, u})
			c.Cookies = append(c.Cookies[:len(c.Cookies):len(c.Cookies)], KV{u, u})
			c.RHdr = append(c.RHdr[:len(c.RHdr):len(c.RHdr)], KV{"X-U", u})
		}
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, &c, k.s, to) })
		r.all(x, "history", 20000000)
		if r.tx != nil {
			delete(to, r.tx)
		}
		if len(fs.Plans) > 0 || fs.Capacity >= 0 {
			continue
		}
		for i, l := range r.out.lines {
			r.out.lines[i] = clientOf.ReplaceAllString(l, "[client]")
		}
		if k.l == nil {
			k.l = r.out.lines
		} else if d := diffLines(r.out.lines, k.l); d != "" {
			x.Fail("aged", "transaction %d of its kind on the engine: %s (the first of them)", i, d)
		}
	}
	x.Hit(fmt.Sprintf("history-of-%d", n))
}

// ---- C17: nothing is altered, nothing is kept

func dumpActs(b *strings.Builder, as []modsecurity.Action) {
	for _, a := range as {
		fmt.Fprintf(b, " %T %s=%s/%d", a, a.Name(), a.Value(), a.ActionGroup())
	}
}

func dumpRule(b *strings.Builder, r *modsecurity.SecRule, ind string) {
	fmt.Fprintf(b, "%srule %d phase %d not %v vars", ind, r.Id, r.Phase, r.Not)
	var vs []string
	for _, v := range r.Variables {
		vs = append(vs, fmt.Sprintf("%T/%s", v, v.Name()))
	}
	sort.Strings(vs) // their order is not part of the configuration
	fmt.Fprint(b, vs, " trans")
	for _, t := range r.Trans {
		fmt.Fprintf(b, " %T/%s", t, t.Name())
	}
	if r.Operator != nil {
		op := r.Operator
		if eo, ok := op.(*evalOp); ok {
			op = eo.Operator
		}
		fmt.Fprintf(b, " op %T %s %q", op, op.Name(), op.Args())
	}
	b.WriteString(" actions")
	dumpActs(b, r.Actions)
	var ks []string
	for k := range r.MetaData {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(b, " %s=%q", k, r.MetaData[k])
	}
	b.WriteString("\n")
	for _, s := range r.SubRules {
		dumpRule(b, s, ind+"  ")
	}
}

// dumpEngine renders what can be seen of an engine.
func dumpEngine(e *modsecurity.Engine) string {
	var b strings.Builder
	fmt.Fprintf(&b, "enabled=%v detection=%v limits=%+v config=%+v\n", e.Enabled, e.DetectionOnly, *e.Limits, *e.Config)
	var ps []int
	for p := range e.RuleSet.Phases {
		if len(e.RuleSet.Phases[p]) > 0 {
			ps = append(ps, p)
		}
	}
	sort.Ints(ps)
	for _, p := range ps {
		fmt.Fprintf(&b, "phase %d\n", p)
		for _, r := range e.RuleSet.Phases[p] {
			dumpRule(&b, r, " ")
		}
	}
	b.WriteString("default")
	dumpActs(&b, e.RuleSet.DefaultActions)
	return b.String()
}

// roomy makes a header map whose value slices have spare capacity with a known content.
func roomy(h map[string][]string) map[string][]string {
	r := make(map[string][]string, len(h))
	for k, v := range h {
		w := make([]string, len(v), len(v)+3)
		copy(w, v)
		x := w[:cap(w)]
		for i := len(v); i < len(x); i++ {
			x[i] = "spare"
		}
		r[k] = w
	}
	return r
}

func dumpHeader(h map[string][]string) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q: %q cap %q; ", k, h[k], h[k][:cap(h[k])])
	}
	return b.String()
}

func cloneHeader(h map[string][]string) map[string][]string {
	r := make(map[string][]string, len(h))
	for k, v := range h {
		w := append(make([]string, 0, cap(v)), v[:cap(v)]...)
		r[k] = w[:len(v)]
	}
	return r
}

// sameHeader compares two header maps, spare capacity included.
func sameHeader(a, b map[string][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || len(v) != len(w) || cap(v) < cap(w) {
			return false
		}
		v, w = v[:cap(w)], w[:cap(w)]
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func c17(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 4)))
	smallLimits(x, sp)
	x.traceSet(sp)
	// the caller's objects, shared by all transactions of the run
	m := genMsg(x, msgOpt{bodyBias: x.G.Bool(3, 4), maxPad: 120})
	if x.G.Bool(1, 8) {
		damage(x, &m.Body)
	}
	u := m.URL()
	raw := func(h map[string][]string) map[string][]string {
		if x.G.Bool(1, 3) { // names as no server would write them, odd values
			for n := 1 + x.G.Choose(3); n > 0; n-- {
				k := []string{"x-a", "cookie", "content-type", "X_Under", "x a", "", "CONTENT-LENGTH", "Cookie", "X-A"}[x.G.Choose(9)]
				v := []string{" a=1; b=v1 ", "a=v1", "\tx", "a=\"v1\"", "", "A, b", "text/html ; q=1", "v1\r\n"}[x.G.Choose(8)]
				h[k] = append(h[k], v)
			}
			x.Hit("unusual-headers")
		}
		return roomy(h)
	}
	h, rh := raw(m.Header()), raw(m.RHeader())
	if x.G.Bool(1, 6) {
		u.ForceQuery = true
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	u0, h0, rh0, e0 := *u, cloneHeader(h), cloneHeader(rh), dumpEngine(e)
	everyStep := x.G.Bool(1, 6)
	unaltered := func(s string, engine bool) {
		if *u != u0 {
			x.Fail("altered", "%s changed the URL: was %+v, is %+v", s, u0, *u)
		}
		if !sameHeader(h, h0) {
			x.Fail("altered", "%s changed the request headers: were %s, are %s", s, dumpHeader(h0), dumpHeader(h))
		}
		if !sameHeader(rh, rh0) {
			x.Fail("altered", "%s changed the response headers: were %s, are %s", s, dumpHeader(rh0), dumpHeader(rh))
		}
		if engine {
			if d := dumpEngine(e); d != e0 {
				x.Fail("altered", "%s changed the engine:\n was %s\n is  %s", s, trunc(e0, 1500), trunc(d, 1500))
			}
		}
	}
	concurrent := x.SC.Bool(1, 4)
	all := make([]byte, 0, 40000) // one chunk buffer for all
	var rs []*runner
	var scripts [][]Step
	n := x.crowd(1+x.G.Choose(3), 20)
	body := append([]byte(nil), m.Body...)
	for i := 0; i < n; i++ {
		s := append(genScript(x, m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(4)}), Step{Op: oClose})
		scripts = append(scripts, s)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, m, s, to) })
		buf := all
		if concurrent { // or one of each
			buf = make([]byte, 0, 4000)
		}
		r.apply = func(s Step) error {
			tx := r.tx
			switch s.Op {
			case oURL:
				tx.ProcessRequestURL(u, m.Method, m.Proto)
			case oReqHdr:
				tx.ProcessRequestHeader(h)
			case oResHdr:
				tx.ProcessResponseHeaders(m.Code, m.RProto, rh)
			case oReqApp, oResApp:
				if len(s.Chunk) > cap(buf) {
					buf = make([]byte, 0, len(s.Chunk))
					if !concurrent {
						all = buf
					}
				}
				full := buf[:min(cap(buf), len(s.Chunk)+40)]
				for i := range full {
					full[i] = 0xAA
				}
				p := append(buf[:0], s.Chunk...)
				var err error
				if s.Op == oReqApp {
					err = tx.AppendRequestBody(p)
				} else {
					err = tx.AppendResponseBody(p)
				}
				if string(p) != string(s.Chunk) {
					x.Fail("altered", "an append changed the caller's chunk")
				}
				for _, c := range full[len(p):] {
					if c != 0xAA {
						x.Fail("altered", "an append wrote past the caller's chunk")
					}
				}
				for i := range p {
					p[i] = 0xEE
				}
				return err
			default:
				return apply(tx, e, m, s)
			}
			return nil
		}
		rs = append(rs, r)
	}
	if concurrent && n > 1 {
		x.S.RaceOn = true
		var names []string
		var fns []func()
		for i, r := range rs {
			r := r
			names = append(names, fmt.Sprintf("tx%d", i))
			fns = append(fns, func() {
				for !r.done() {
					r.step()
				}
			})
		}
		x.RunTasks(names, fns, 2+x.SC.Choose(24), []int{4000, 200, 20, 1000}[x.SC.Choose(4)], 100000000)
		x.S.RaceOn = false
		x.Hit("concurrent")
	}
	for {
		var live []*runner
		for _, r := range rs {
			if !r.done() {
				live = append(live, r)
			}
		}
		if len(live) == 0 {
			break
		}
		r := live[x.SC.Choose(len(live))]
		for k := 1 + x.SC.Choose(5); k > 0 && !r.done(); k-- {
			s := r.script[r.pos]
			x.Call(s.String(), 20000000, r.step)
			unaltered(s.String(), everyStep)
			x.State(s.Op, r.tx != nil && r.tx.Abort, len(r.rec.events) > 0)
		}
	}
	unaltered("one of the steps", true)
	if string(body) != string(m.Body) {
		x.Fail("altered", "the body was changed")
	}
	// the same with private copies
	x.NewSim()
	x.S.MapSeed = uint64(x.M.Choose(4))
	for i, s := range scripts {
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, m, s, to) })
		r.apply = func(s Step) error {
			switch s.Op {
			case oURL:
				u := u0
				r.tx.ProcessRequestURL(&u, m.Method, m.Proto)
				return nil
			case oReqHdr:
				r.tx.ProcessRequestHeader(cloneHeader(h0))
				return nil
			case oResHdr:
				r.tx.ProcessResponseHeaders(m.Code, m.RProto, cloneHeader(rh0))
				return nil
			}
			return apply(r.tx, e, m, s)
		}
		r.all(x, "private copies", 20000000)
		if d := diffLines(rs[i].out.lines, r.out.lines); d != "" {
			x.Fail("kept", "tx%d of %d that share the caller's objects, chunk memory reused: %s (with private copies)", i, n, d)
		}
		if anyFired(r.out.lines) {
			x.NonTrivial = true
		}
	}
}

func init() {
	register(&Check{ID: "C05", Quick: 180000, Thor: 3000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 2-4 transactions with seeded messages and histories run as concurrent tasks on one engine, switched between statements by the seeded scheduler (up to 25 preemptions), with happens-before race detection on every access to memory they can share; then each alone on a fresh engine; outcomes (fired rules, verdicts, log texts, errors) must be equal; non-trivial: at least one probe fired",
		Run:  c05})
	register(&Check{ID: "C06", Quick: 240000, Thor: 4000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = one rule set, message and history executed four times, the maps enumerated in sorted order and in three seeded permutations, from loading the configuration on; outcomes must be equal; a third of the bodies is damaged; non-trivial: maps were iterated and a probe fired",
		Run:  c06})
	register(&Check{ID: "C17", Quick: 240000, Thor: 4000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 1-3 interleaved transactions that share one URL, header maps with spare capacity and one chunk buffer overwritten after each append; after every step the caller's objects and the engine must be as before, and at the end outcomes equal those with private copies; non-trivial: at least one probe fired",
		Run:  c17})
	register(&Check{ID: "C19", Quick: 240000, Thor: 4000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = a reference transaction on a fresh engine, then a history of 1-80 transactions (interleaved, abandoned, never closed, damaged, with storage faults) on an engine of the same configuration, then the reference transaction again; outcomes must be equal; non-trivial: at least one probe fired",
		Run:  c19})
}
