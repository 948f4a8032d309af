package main

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/r/modsecurity/actions"
	"verifsim/rt"
)

// Rules made of components that users wrote (C32).

// compSpec is a component; its name says what it is.
type compSpec struct {
	name  string
	vals  []string // of a variable
	suf   string   // what a transformation appends
	yes   int      // which inputs an operator likes: by their hash
	group int      // of an action
	keep  int      // what the component keeps in Transaction.Data: 0 nothing
	block bool
}

type compRule struct {
	id, phase int
	vars      []*compSpec
	trans     []*compSpec
	op        *compSpec
	not       bool
	acts      []*compSpec
	subs      []*compRule
}

// shown is what a transaction must show.
type shown struct {
	src, sport, dst, dport string
	url                    *url.URL
	method, proto          string
	h, rh                  http.Header
	code                   int
	rproto                 string
	req, res               int64
}

// compTx is a transaction with the model of what its components are asked.
type compTx struct {
	name   string
	tx     *modsecurity.Transaction
	m      *Msg
	script []Step
	pos    int
	shows  shown
	done   int
	data   map[string]string
	got    []string
	wrong  []string
	fired  int
}

type compWorld struct {
	x     *X
	rules []*compRule
	defs  []*compSpec
	mode  int
	txs   map[*modsecurity.Transaction]*compTx
	lost  int
}

// seen is called by each component with the transaction it was handed.
func (w *compWorld) seen(c *compSpec, t *modsecurity.Transaction, what string) {
	rt.Y(-60) // others may run meanwhile
	ct := w.txs[t]
	if ct == nil {
		w.lost++
		return
	}
	ct.got = append(ct.got, what)
	s, wrong := &ct.shows, func(f string, a ...interface{}) {
		if len(ct.wrong) < 5 {
			ct.wrong = append(ct.wrong, what+" is shown "+fmt.Sprintf(f, a...))
		}
	}
	if n := t.NetInfo; n.SrcIp != s.src || n.SrcPort != s.sport || n.DstIp != s.dst || n.DstPort != s.dport {
		wrong("the connection %v, reported was %v", *n, []string{s.src, s.sport, s.dst, s.dport})
	}
	if r := t.Request; r.URL != s.url || r.Method != s.method || r.Proto != s.proto || !showsHeader(r.Header, s.h) {
		wrong("the request %v %v %v %v, reported was %v %v %v %v", r.Method, r.URL, r.Proto, r.Header, s.method, s.url, s.proto, s.h)
	}
	if r := t.Response; r.Code != s.code || r.Proto != s.rproto || !showsHeader(r.Header, s.rh) {
		wrong("the response %v %v %v, reported was %v %v %v", r.Code, r.Proto, r.Header, s.code, s.rproto, s.rh)
	}
	if n, k := t.Request.Body.Len(), t.Response.Body.Len(); n != s.req || k != s.res {
		wrong("bodies of %d and %d bytes, acknowledged are %d and %d", n, k, s.req, s.res)
	}
	if c.keep > 0 {
		k := fmt.Sprint("own-", c.keep)
		if v, _ := t.Data[k].(string); v != ct.data[k] {
			wrong("%q in Data[%s], kept was %q", v, k, ct.data[k])
		}
		v := fmt.Sprint(c.name, len(ct.got), ct.name)
		ct.data[k] = v
		if t.Data == nil {
			wrong("no Data")
			return
		}
		t.Data[k] = v
	}
}

func showsHeader(a, b http.Header) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, v := range b {
		if strings.Join(a[k], "\x00") != strings.Join(v, "\x00") || len(a[k]) != len(v) {
			return false
		}
	}
	return true
}

type compVar struct {
	w *compWorld
	c *compSpec
}

func (v *compVar) Name() string       { return v.c.name }
func (*compVar) Include(string) error { return nil }
func (*compVar) Exclude(string) error { return nil }
func (v *compVar) Fetch(t *modsecurity.Transaction) []string {
	v.w.seen(v.c, t, "variable "+v.c.name)
	return append([]string(nil), v.c.vals...)
}

type compTrans struct {
	w *compWorld
	c *compSpec
}

func (v *compTrans) Name() string { return v.c.name }
func (v *compTrans) Trans(t *modsecurity.Transaction, s string) string {
	v.w.seen(v.c, t, "transformation "+v.c.name)
	return v.c.trans(s)
}

func (c *compSpec) trans(s string) string {
	switch c.suf {
	case "empty":
		return ""
	case "same":
		return s
	}
	return s + c.suf
}

func (c *compSpec) likes(s string) bool {
	h := uint32(c.yes)
	for i := 0; i < len(s); i++ {
		h = h*31 + uint32(s[i])
	}
	return h/7%3 == 0
}

type compOp struct {
	w *compWorld
	c *compSpec
}

func (v *compOp) Name() string { return v.c.name }
func (v *compOp) Args() string { return "" }
func (v *compOp) Match(t *modsecurity.Transaction, s string) bool {
	v.w.seen(v.c, t, fmt.Sprintf("operator %s %q", v.c.name, s))
	return v.c.likes(s)
}

type compAct struct {
	w *compWorld
	c *compSpec
}

func (v *compAct) Name() string     { return v.c.name }
func (v *compAct) Value() string    { return "" }
func (v *compAct) ActionGroup() int { return v.c.group }
func (v *compAct) Do(t *modsecurity.Transaction) {
	v.w.seen(v.c, t, "action "+v.c.name)
	if v.c.block {
		actions.NewActionBlock().Do(t)
	}
}

// asks is what operators and actions are asked in a phase, in order.
func (w *compWorld) asks(ct *compTx, p int) (r []string) {
	var acts func(list []*compSpec)
	acts = func(list []*compSpec) {
		l := append([]*compSpec(nil), list...)
		sort.SliceStable(l, func(i, j int) bool { return l[i].group < l[j].group })
		for _, a := range l {
			if a.group == modsecurity.ActionGroupDisruptive && w.mode == 2 {
				continue
			}
			r = append(r, "action "+a.name)
			if a.block {
				acts(w.defs)
			}
		}
	}
	match := func(c *compRule) bool {
		for _, v := range c.vars {
			for _, s := range v.vals {
				for _, t := range c.trans {
					s = t.trans(s)
				}
				r = append(r, fmt.Sprintf("operator %s %q", c.op.name, s))
				if c.op.likes(s) != c.not {
					return true
				}
			}
		}
		return false
	}
	for _, c := range w.rules {
		if c.phase != p || !match(c) {
			continue
		}
		all := true
		for _, s := range c.subs {
			if all = match(s); !all {
				break
			}
		}
		if !all {
			continue
		}
		ct.fired++
		acts(c.acts)
		for _, s := range c.subs {
			acts(s.acts)
		}
	}
	return r
}

func (w *compWorld) genRule(id int, sub bool) *compRule {
	x := w.x
	r := &compRule{id: id, phase: 1 + x.G.Choose(6), not: x.G.Bool(1, 4)}
	if !sub && x.G.Bool(1, 20) {
		r.phase = []int{0, 7, -1, 99}[x.G.Choose(4)]
	}
	n := 0
	comp := func(kind string) *compSpec {
		n++
		c := &compSpec{name: fmt.Sprintf("%s%d.%d", kind, id, n)}
		if x.G.Bool(1, 4) {
			c.keep = 1 + x.G.Choose(3)
		}
		return c
	}
	for k := x.G.Pick(1, 6, 4, 2); k > 0; k-- {
		c := comp("v")
		for i := x.G.Pick(1, 3, 3, 2, 1); i > 0; i-- {
			c.vals = append(c.vals, []string{"a", "b", "", "a", "value", "x y", "\x00\xff", strings.Repeat("long ", 40)}[x.G.Choose(8)]+fmt.Sprint(x.G.Choose(4)))
			if x.G.Bool(1, 6) {
				c.vals[len(c.vals)-1] = ""
			}
		}
		r.vars = append(r.vars, c)
	}
	for k := x.G.Pick(4, 3, 2, 1); k > 0; k-- {
		c := comp("t")
		c.suf = fmt.Sprint("/", n)
		if x.G.Bool(1, 6) {
			c.suf = []string{"empty", "same"}[x.G.Choose(2)]
		}
		r.trans = append(r.trans, c)
	}
	r.op = comp("o")
	r.op.yes = x.G.Choose(1000)
	r.acts = w.genActs(comp, true)
	return r
}

func (w *compWorld) genActs(comp func(string) *compSpec, block bool) (l []*compSpec) {
	x := w.x
	for k := x.G.Choose(5); k > 0; k-- {
		c := comp("a")
		c.group = x.G.Choose(modsecurity.ActionGroupFlow + 1)
		if block && x.G.Bool(1, 6) {
			c.block, c.group = true, modsecurity.ActionGroupDisruptive
		}
		l = append(l, c)
	}
	return
}

func (w *compWorld) real(c *compRule) *modsecurity.SecRule {
	r := modsecurity.NewSecRule()
	r.Id, r.Phase, r.Not = c.id, c.phase, c.not
	for _, v := range c.vars {
		r.AppendVariables(&compVar{w, v})
	}
	for _, v := range c.trans {
		r.AppendTrans(&compTrans{w, v})
	}
	r.SetOperator(&compOp{w, c.op})
	for _, v := range c.acts {
		r.AppendActions(&compAct{w, v})
	}
	for _, s := range c.subs {
		r.AppendSubRules(w.real(s))
	}
	return r
}

func (ct *compTx) step(w *compWorld) {
	s := ct.script[ct.pos]
	ct.pos++
	m, sh := ct.m, &ct.shows
	before := len(ct.got)
	switch s.Op {
	case oConn:
		sh.src, sh.sport, sh.dst, sh.dport = m.Src, m.SPort, m.Dst, m.DPort
	case oURL:
		sh.url, sh.method, sh.proto = m.URL(), m.Method, m.Proto
		ct.tx.ProcessRequestURL(sh.url, sh.method, sh.proto)
		return
	case oReqHdr:
		sh.h = m.Header()
	case oResHdr:
		sh.code, sh.rproto, sh.rh = m.Code, m.RProto, m.RHeader()
	case oReqApp:
		if apply(ct.tx, nil, m, s) == nil {
			sh.req += int64(len(s.Chunk))
		}
		return
	case oResApp:
		if apply(ct.tx, nil, m, s) == nil {
			sh.res += int64(len(s.Chunk))
		}
		return
	case oCollect:
		ct.tx.Result()
		return
	}
	var want []string
	if p := opPhase[s.Op]; p > ct.done {
		ct.done = p
		if w.mode != 1 {
			want = w.asks(ct, p)
		}
	}
	switch s.Op { // the very values that were noted
	case oReqHdr:
		ct.tx.ProcessRequestHeader(sh.h)
	case oResHdr:
		ct.tx.ProcessResponseHeaders(sh.code, sh.rproto, sh.rh)
	default:
		apply(ct.tx, nil, m, s)
	}
	var got []string
	for _, g := range ct.got[before:] {
		if strings.HasPrefix(g, "operator") || strings.HasPrefix(g, "action") {
			got = append(got, g)
		}
	}
	if a, b := strings.Join(got, "; "), strings.Join(want, "; "); a != b && len(ct.wrong) < 5 {
		ct.wrong = append(ct.wrong, fmt.Sprintf("step %d %v: asked were [%s], expected [%s]", ct.pos-1, s, trunc(a, 900), trunc(b, 900)))
	}
}

func c32(x *X) {
	w := &compWorld{x: x, txs: map[*modsecurity.Transaction]*compTx{}}
	e := modsecurity.NewEngine()
	if x.G.Bool(1, 3) {
		w.mode = x.G.Choose(3)
		e.Enable([]int{modsecurity.StatusOn, modsecurity.StatusOff, modsecurity.StatusDect}[w.mode])
	}
	e.RequestBodyInMem = []int64{1 << 17, 8, 100}[x.G.Choose(3)]
	if x.G.Bool(1, 4) {
		e.RequestBody = int64(x.G.Choose(100))
	}
	if x.G.Bool(1, 4) {
		e.ResponseBody = int64(x.G.Choose(60))
	}
	for id := 1 + x.G.Choose(x.crowd(7, 60)); id > 0; id-- {
		r := w.genRule(len(w.rules)+1, false)
		if x.G.Bool(1, 3) {
			for k := 1 + x.G.Choose(3); k > 0; k-- {
				r.subs = append(r.subs, w.genRule((len(w.rules)+1)*100+k, true))
			}
		}
		w.rules = append(w.rules, r)
	}
	n := 0
	w.defs = w.genActs(func(string) *compSpec { n++; return &compSpec{name: fmt.Sprintf("d%d", n)} }, false)
	for _, d := range w.defs {
		e.RuleSet.AddDefaultActions(&compAct{w, d})
	}
	for i := 0; i < len(w.rules); { // a few at a time
		var l []*modsecurity.SecRule
		for k := 1 + x.G.Choose(3); k > 0 && i < len(w.rules); k-- {
			l = append(l, w.real(w.rules[i]))
			i++
		}
		e.AddSecRule(l...)
	}
	for _, r := range w.rules {
		x.Tracef("rule %d phase %d: %s", r.id, r.phase, r)
	}
	var cts []*compTx
	for i, k := 0, x.crowd(1+x.G.Choose(3), 12); i < k; i++ {
		ct := &compTx{name: fmt.Sprintf("tx%d", i), data: map[string]string{}}
		ct.m = genMsg(x, msgOpt{bodyBias: true})
		ct.script = genScript(x, ct.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(6)})
		var err error
		x.Call("NewTransaction", 100000, func() { ct.tx, err = e.NewTransaction() })
		if err != nil {
			x.Fail("newtx", "NewTransaction failed without a fault: %v", err)
		}
		w.txs[ct.tx] = ct
		cts = append(cts, ct)
		x.Tracef("%s: %v", ct.name, ct.script)
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	const budget = 50000000
	check := func() {
		for _, ct := range cts {
			for _, s := range ct.wrong {
				x.Fail("components", "%s (mode %d): %s", ct.name, w.mode, s)
			}
		}
		if w.lost > 0 {
			x.Fail("components", "%d calls of components were handed a transaction that nobody made", w.lost)
		}
	}
	if len(cts) > 1 && x.G.Bool(1, 3) {
		var names []string
		var fns []func()
		for _, ct := range cts {
			ct := ct
			names = append(names, ct.name)
			fns = append(fns, func() {
				for ct.pos < len(ct.script) {
					ct.step(w)
				}
			})
		}
		x.RunTasks(names, fns, 2+x.SC.Choose(20), []int{400, 50, 2000}[x.SC.Choose(3)], budget)
		check()
	} else {
		for left := cts; len(left) > 0; {
			i := x.SC.Choose(len(left))
			ct := left[i]
			x.Call(fmt.Sprint(ct.name, " ", ct.script[ct.pos]), budget, func() { ct.step(w) })
			check()
			if ct.pos == len(ct.script) {
				left = append(left[:i:i], left[i+1:]...)
			}
		}
	}
	for _, ct := range cts {
		if ct.fired > 0 {
			x.NonTrivial = true
		}
		x.State(ct.fired, len(ct.got), ct.done, w.mode, len(ct.data))
		x.Call("Close", 100000, func() { ct.tx.Close() })
	}
}

func (r *compRule) String() string {
	l := func(cs []*compSpec) (s string) {
		for _, c := range cs {
			s += " " + c.name
			if c.vals != nil {
				s += fmt.Sprintf("%q", c.vals)
			}
			if strings.HasPrefix(c.name, "a") {
				s += fmt.Sprintf("(group %d)", c.group)
			}
		}
		return
	}
	s := fmt.Sprintf("values%s, through%s, %s negated %v, then%s", l(r.vars), l(r.trans), r.op.name, r.not, l(r.acts))
	for _, c := range r.subs {
		s += " / chained " + c.String()
	}
	return trunc(s, 900)
}

func init() {
	register(&Check{ID: "C32", Quick: 360000, Thor: 6000000, Batch: 250, Real: lifeReal, Stub: append([]string{"all variables, transformations, operators and actions: components of the simulated program that note what they are asked"}, lifeStub...),
		Rule: "one run = 1-3 transactions (step by step or concurrent under the seeded scheduler) with disturbed histories on an engine whose rules, chains and default actions are made of user-written components; after every notification what operators and actions were asked, in order, is compared with a model, and every component compares what the transaction shows it with what was reported and what was kept in Transaction.Data; non-trivial: a rule fired",
		Run:  c32})
}
