package main

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/r/modsecurity"
)

// ---- C33: what is reported may be corrected

// part describes what a message reports in a step.
func (m *Msg) part(op int) string {
	switch op {
	case oConn:
		return fmt.Sprintf("(%s)", m.Src)
	case oURL:
		return fmt.Sprintf("(%s %s)", m.Method, m.URL())
	case oReqHdr:
		return fmt.Sprintf("(%v)", m.Header())
	case oResHdr:
		return fmt.Sprintf("(%d %v)", m.Code, m.RHeader())
	}
	return ""
}

// report takes over what a step reports.
func (t *mtx) report(s Step) {
	if t.base == nil {
		t.base = t.msg
	}
	from := s.M
	if from == nil {
		from = t.base
	}
	c := *t.msg
	switch s.Op {
	case oConn:
		c.Src, c.SPort, c.Dst, c.DPort = from.Src, from.SPort, from.Dst, from.DPort
	case oURL:
		c.Method, c.Proto, c.Path, c.Abs, c.Query, c.RawQuery = from.Method, from.Proto, from.Path, from.Abs, from.Query, from.RawQuery
	case oReqHdr:
		c.Hdr, c.Cookies, c.CookieStyle, c.CT = from.Hdr, from.Cookies, from.CookieStyle, from.CT
	case oResHdr:
		c.Code, c.RProto, c.RHdr = from.Code, from.RProto, from.RHdr
	default:
		return
	}
	t.msg = &c
}

// corrected is another message with the same body.
func corrected(x *X, m *Msg) *Msg {
	c := genMsg(x, msgOpt{maxPad: 10})
	c.Src = "10.2.0." + fmt.Sprint(1+x.G.Choose(3))
	c.Proto = []string{"HTTP/1.1", "HTTP/1.0", "HTTP/2.0"}[x.G.Choose(3)]
	c.RProto = []string{"HTTP/1.1", "HTTP/1.0", "HTTP/2.0"}[x.G.Choose(3)]
	c.Kind, c.CT, c.Body, c.RBody = m.Kind, m.CT, m.Body, m.RBody
	same := []string{"GET", "HEAD", "DELETE"}
	for _, b := range []string{"POST", "PUT", "PATCH"} {
		if m.Method == b {
			same = []string{"POST", "PUT", "PATCH"}
			break
		}
	}
	c.Method = same[x.G.Choose(3)]
	// the parts that are not corrected
	if x.G.Bool(1, 3) {
		c.Query, c.RawQuery = m.Query, m.RawQuery
	}
	if x.G.Bool(1, 3) {
		c.Path, c.Abs = m.Path, m.Abs
	}
	if x.G.Bool(1, 3) {
		c.Hdr = m.Hdr
	}
	if x.G.Bool(1, 3) {
		c.Cookies, c.CookieStyle = m.Cookies, m.CookieStyle
	}
	if x.G.Bool(1, 3) {
		c.RHdr = m.RHdr
	}
	return c
}

// ascii puts a mark for each run of other bytes: cut escapes give bytes that are no text,
// about which transformations need not agree.
func ascii(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		if s[i] < 0x80 {
			b.WriteByte(s[i])
		} else if !in {
			b.WriteString("<?>")
		}
		in = s[i] >= 0x80
	}
	return b.String()
}

func c33(x *X) {
	sp := genSet(x, specOpt{rules: 8, plainVars: 5, bodyVars: 1, log: 2, deny: 1, allow: 1, skip: 1, matchBias: true, probes: true, seclang: 2})
	var pool []VarSpec
	for n := 1 + x.G.Choose(3); n > 0; n-- {
		pool = append(pool, genVars(x, specOpt{plainVars: 6, bodyVars: 1})...)
	}
	looks := map[int]bool{} // rules that match nothing, so that their operator is asked about every value
	for _, r := range sp.Rules {
		if x.G.Bool(3, 4) {
			r.Vars = nil
			for n := 1 + x.G.Choose(2); n > 0; n-- {
				r.Vars = append(r.Vars, pool[x.G.Choose(len(pool))])
			}
			r.Vars = distinct(r.Vars)
		}
		if x.G.Bool(4, 5) {
			r.Op, r.Arg, r.Not = "rx", "^no such value$", false
			looks[r.ID] = true
		}
	}
	if sp.SecLang {
		sp.render(x)
	}
	sp.InMem = 1 << 17
	if x.G.Bool(1, 8) {
		sp.InMem = 24
	}
	if x.G.Bool(1, 6) {
		sp.SetMode, sp.Mode = true, 2
		if sp.SecLang {
			sp.render(x)
		}
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	x.traceSet(sp)
	type client struct {
		m            *Msg
		tx           *modsecurity.Transaction
		mod          *mtx
		rec          *recorder
		script       []Step
		at           int
		budget       int64
		seen, expect []string
	}
	var cs []*client
	for n := 1 + x.G.Pick(3, 1); n > 0; n-- {
		c := &client{m: genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 60}), rec: &recorder{}}
		c.script = genScript(x, c.m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(4)})
		alts := []*Msg{corrected(x, c.m)}
		if x.G.Bool(1, 3) {
			alts = append(alts, corrected(x, c.m))
		}
		for k := 1 + x.G.Choose(5); k > 0; k-- {
			s := Step{Op: []int{oConn, oURL, oReqHdr, oResHdr}[x.G.Pick(1, 4, 4, 2)], M: alts[x.G.Choose(len(alts))]}
			c.script = insert(c.script, x.G.Choose(len(c.script)+1), s)
		}
		c.budget = stepBudget(sp, c.m)
		for _, a := range alts {
			c.budget += stepBudget(sp, a)
		}
		c.tx = mustTx(x, e)
		to[c.tx] = c.rec
		c.mod = newModel(sp, c.m)
		c.rec.see = func(id int, v string) {
			if looks[id] {
				c.seen = append(c.seen, fmt.Sprintf("rule %d asks about %q", id, ascii(v)))
			}
		}
		c.mod.see = func(id int, v string) {
			if looks[id] {
				c.expect = append(c.expect, fmt.Sprintf("rule %d asks about %q", id, ascii(v)))
			}
		}
		x.Tracef("%s %s %v %q body %q", c.m.Method, c.m.URL(), c.m.Header(), c.m.CT, trunc(string(c.m.Body), 300))
		cs = append(cs, c)
	}
	looked, again := 0, 0
	for left := len(cs); left > 0; {
		c := cs[x.G.Choose(len(cs))]
		if c.at == len(c.script) {
			for _, d := range cs {
				if d.at < len(d.script) {
					c = d
					break
				}
			}
		}
		s := c.script[c.at]
		c.at++
		if c.at == len(c.script) {
			left--
		}
		if s.Op == oCollect {
			var got *modsecurity.Intervention
			x.Call("Result", 10000, func() { got = c.tx.Result() })
			dis, status, logs := c.mod.collect()
			if got.Disruptive != dis || got.Status != status || len(got.Log) != logs {
				x.Fail("verdict", "%v: the collected verdict is disruptive=%v status=%d with %d lines, expected %v, %d, %d", s, got.Disruptive, got.Status, len(got.Log), dis, status, logs)
			}
			continue
		}
		c.seen, c.expect = nil, nil
		ne, nm := len(c.rec.events), len(c.mod.events)
		x.Call(s.String(), c.budget, func() { apply(c.tx, e, c.m, s) })
		c.mod.step(s)
		x.Tracef("%s %v", c.m.Src, s)
		sort.Strings(c.seen)
		sort.Strings(c.expect)
		if g, w := strings.Join(c.seen, "; "), strings.Join(c.expect, "; "); g != w {
			x.Fail("stale", "%v: %s; from what was reported last follows: %s", s, trunc(g, 2000), trunc(w, 2000))
		}
		if g, w := strings.Join(c.rec.events[ne:], "; "), strings.Join(c.mod.events[nm:], "; "); g != w {
			x.Fail("rules", "%v: fired %v, from what was reported last follows %v", s, g, w)
		}
		if len(c.seen) > 0 {
			looked++
			if c.mod.base != nil {
				again++
			}
		}
		x.State(s.Op, s.M != nil, len(c.seen) > 0, c.mod.cur, c.mod.done, c.mod.dis)
	}
	if again > 0 {
		x.NonTrivial = true
		x.Hit("looked-at-after-a-correction")
	}
	for _, c := range cs {
		x.Call("Close", 100000, func() { c.tx.Close() })
	}
}

func init() {
	register(&Check{ID: "C33", Quick: 300000, Thor: 8000000, Batch: 500, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 1-2 interleaved transactions of which connection, URL, request headers and response are reported again with other contents up to 5 times anywhere in disturbed histories; most rules match nothing, so that every value the operator is asked about is seen, and share variables across phases; after every step what operators were asked and what fired is compared with the interpreter, which follows what was reported last; non-trivial: values were inspected after a correction",
		Run:  c33})
}
