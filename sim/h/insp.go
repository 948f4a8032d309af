package main

import (
	"bytes"
	"fmt"
	"mime"
	"mime/multipart"
	"net/textproto"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/rt"
)

// watchVar sees what a rule gets from a variable.
type watchVar struct {
	modsecurity.Variable
	f func(t *modsecurity.Transaction, vals []string)
}

func (w *watchVar) Fetch(t *modsecurity.Transaction) []string {
	v := w.Variable.Fetch(t)
	w.f(t, v)
	return v
}

// watch wraps the variables of all rules of an engine built from sp.
func (sp *SetSpec) watch(x *X, e *modsecurity.Engine, f func(r *RuleSpec, v VarSpec, t *modsecurity.Transaction, vals []string)) {
	byPhase := map[int][]*RuleSpec{}
	for _, r := range sp.Rules {
		byPhase[r.Phase] = append(byPhase[r.Phase], r)
	}
	var walk func(sr *modsecurity.SecRule, r *RuleSpec)
	walk = func(sr *modsecurity.SecRule, r *RuleSpec) {
		for i, v := range sr.Variables {
			for _, vs := range r.Vars {
				if vs.Name == v.Name() {
					vs := vs
					sr.Variables[i] = &watchVar{v, func(t *modsecurity.Transaction, vals []string) { f(r, vs, t, vals) }}
				}
			}
		}
		for i, s := range sr.SubRules {
			if i < len(r.Subs) {
				walk(s, r.Subs[i])
			}
		}
	}
	for p := 1; p <= 6; p++ {
		for i, sr := range e.RuleSet.Phases[p] {
			if i < len(byPhase[p]) {
				walk(sr, byPhase[p][i])
			}
		}
	}
}

func multiset(v []string) string {
	w := append([]string(nil), v...)
	sort.Strings(w)
	return fmt.Sprintf("%q", w)
}

// bodyView is what the body means, independent of chunks and storage.
type bodyView struct {
	kind   int
	raw    []byte
	args   map[string][]string
	failed bool // not parsable, or beyond the parser's limits
	large  bool // beyond the parser's limits
}

func viewBody(ct string, raw []byte) *bodyView {
	v := &bodyView{raw: raw}
	mt, params, _ := mime.ParseMediaType(ct)
	switch {
	case mt == formCT:
		v.kind = bodyForm
		a, err := url.ParseQuery(string(raw))
		v.args, v.failed = a, err != nil
	case strings.HasPrefix(mt, "multipart/"):
		v.kind = bodyMultipart
		f, err := multipart.NewReader(bytes.NewReader(raw), params["boundary"]).ReadForm(1 << 30)
		if err != nil {
			v.failed, v.large = true, err == multipart.ErrMessageTooLarge
		} else {
			v.args = f.Value
		}
	default:
		v.kind = bodyOther
	}
	return v
}

// want is what a variable must yield for the view; ok is false when it does not
// inspect the request body.
func (b *bodyView) want(v VarSpec, query map[string][]string) (vals []string, ok bool) {
	switch v.Name {
	case "REQUEST_BODY":
		if b.kind != bodyForm {
			return nil, false
		}
		vals, ok = []string{string(b.raw)}, true
	case "ARGS_POST":
		vals, ok = pick(v, b.args, false), b.kind != bodyOther
	case "ARGS_POST_NAMES":
		vals, ok = pick(v, b.args, true), b.kind != bodyOther
	case "ARGS":
		vals, ok = append(pick(v, query, false), pick(v, b.args, false)...), b.kind != bodyOther
	case "ARGS_NAMES":
		vals, ok = append(pick(v, query, true), pick(v, b.args, true)...), b.kind != bodyOther
	}
	if v.Count && ok {
		vals = []string{strconv.Itoa(len(vals))}
	}
	return
}

func hasBody(method string) bool { return method == "POST" || method == "PUT" || method == "PATCH" }

// bulkMultipart makes a well-formed upload beyond the parser's limits.
func bulkMultipart(x *X, huge bool) (string, []byte) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.SetBoundary("XxBOUNDxX")
	n := 998 + x.G.Choose(5)
	if huge {
		n = 1
	}
	for i := 0; i < n; i++ {
		p, _ := w.CreatePart(textproto.MIMEHeader{"Content-Disposition": {`form-data; name="a"`}})
		if huge {
			p.Write(bytes.Repeat([]byte("0123456789abcde\n"), (10<<20+1<<18)/16))
		} else {
			p.Write([]byte("v1"))
		}
	}
	w.Close()
	return w.FormDataContentType(), b.Bytes()
}

func inspectSpec(x *X) specOpt {
	return specOpt{rules: 6, deny: 1, log: 3, allow: 1, skip: 1, block: 0, consts: 0, plainVars: 1, bodyVars: 6, matchBias: true, seclang: 2, everyPhase: x.G.Bool(1, 2), probes: true, chains: x.G.Bool(1, 4)}
}

// run C03: bodies that are too large or meet failing storage.
func c03(x *X) {
	o := inspectSpec(x)
	o.deny = 0
	sp := genSet(x, o)
	sp.InMem = []int64{24, 8, 1, 64, 100}[x.G.Choose(5)]
	sp.Dir = []string{"/data/waf", "/tmp"}[x.G.Choose(2)]
	if x.G.Bool(1, 3) {
		sp.ReqLimit = sp.InMem + int64(x.G.Choose(160))
	}
	sp.SetMode = x.G.Bool(1, 6)
	if sp.SetMode {
		sp.Mode = 2
		if sp.SecLang {
			sp.render(x)
		}
	}
	m := genMsg(x, msgOpt{bodyBias: true, maxPad: 150})
	budget := int64(20000000)
	if x.G.Bool(1, 60) {
		m.Kind, m.Method = bodyMultipart, "POST"
		m.CT, m.Body = bulkMultipart(x, x.G.Bool(1, 40))
		sp.ReqLimit = 0
		budget = 200000000
		x.Hit("bulk-multipart")
	}
	script := genScript(x, m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)})
	if x.G.Bool(1, 4) {
		script = append(script, Step{Op: oReqBody}, Step{Op: oCollect}, Step{Op: oLog}, Step{Op: oCollect})
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	to := recorders{}
	e := sp.build(x, to)
	var sent []byte
	urlDone, hdrDone := false, false
	var tx *modsecurity.Transaction
	uninspectable, refused, fetches := false, false, 0
	sp.watch(x, e, func(r *RuleSpec, v VarSpec, t *modsecurity.Transaction, vals []string) {
		if t != tx || !urlDone || !hdrDone || !hasBody(m.Method) || len(sent) == 0 {
			return
		}
		b := viewBody(m.CT, sent)
		want, ok := b.want(v, m.URL().Query())
		if !ok {
			return
		}
		fetches++
		x.NonTrivial = true
		if !t.Abort && !e.DetectionOnly && !refused && x.S.FS.FiredTotal() == 0 && (b.kind == bodyMultipart && b.large || b.kind == bodyForm && int64(len(sent)) > sp.InMem) {
			x.Fail("too-large", "rule %d inspects %v of a body of %d bytes, which is too large to be inspected (in-memory limit %d), and the transaction is not aborted (body error: %v)", r.ID, v, len(sent), sp.InMem, t.RequestBodyError)
		}
		if t.Abort || t.RequestBodyError != nil {
			uninspectable = true
			x.Hit("uninspectable-body-reported")
			return
		}
		if b.failed && v.Name != "REQUEST_BODY" {
			x.Fail("silent", "rule %d inspects %v of a body that cannot be parsed in full, and the transaction goes on with no body error (values %s)", r.ID, v, trunc(multiset(vals), 200))
		}
		if multiset(vals) != multiset(want) {
			x.Fail("silent", "rule %d inspects %v of a body of %d bytes (in-memory limit %d, faults %v) and gets %s instead of %s, and the transaction goes on with no body error", r.ID, v, len(sent), sp.InMem, x.S.FS.FaultLog, trunc(multiset(vals), 200), trunc(multiset(want), 200))
		}
		x.Hit("inspected-in-full")
	})
	x.planFaults(x.S.FS, []string{"write", "create", "read", "read", "read", "close", "remove", "read", "seek", "stat", "mkdir"}, 3)
	before := x.S.FS.FiredTotal()
	var err error
	x.Call("NewTransaction", 100000, func() { tx, err = e.NewTransaction() })
	if err != nil {
		if x.S.FS.FiredTotal() == before {
			x.Fail("newtx", "NewTransaction failed without a fault: %v", err)
		}
		return
	}
	rec := &recorder{}
	to[tx] = rec
	for _, r := range sp.Rules {
		x.Tracef("%v", r)
	}
	x.Tracef("%s %q, body of %d bytes, in-memory limit %d, limit %d", m.Method, m.CT, len(m.Body), sp.InMem, sp.ReqLimit)
	abortAt, abortStatus := -1, 0
	reap := -1
	if x.F.Bool(1, 8) {
		reap = x.F.Choose(len(script))
	}
	for i, s := range script {
		if i == reap {
			x.Tracef("the directory %s is removed", e.TmpPath)
			x.S.FS.Reap(e.TmpPath)
			x.S.FS.Fired["reap-directory"]++
		}
		if s.Op == oCollect {
			var got *modsecurity.Intervention
			x.Call("Result", 10000, func() { got = tx.Result() })
			x.Tracef("%d collect: disruptive=%v status=%d", i, got.Disruptive, got.Status)
			if tx.Abort && !got.Disruptive {
				x.Fail("abort-lost", "step %d: the transaction is aborted, and the collected verdict is not disruptive", i)
			}
			if abortAt >= 0 {
				if !got.Disruptive || got.Status != abortStatus {
					x.Fail("abort-lost", "step %d: aborted with status %d at step %d, the verdict collected now is disruptive=%v status=%d", i, abortStatus, abortAt, got.Disruptive, got.Status)
				}
			}
			continue
		}
		ne := len(rec.events)
		if s.Op == oURL {
			urlDone = true
		}
		if s.Op == oReqHdr {
			hdrDone = true
		}
		if s.Op == oReqApp {
			sent = append(sent, s.Chunk...)
		}
		var aerr error
		x.Call(s.String(), budget, func() { aerr = apply(tx, e, m, s) })
		if s.Op == oReqApp && aerr != nil {
			if tx.RequestBodyError == nil && !tx.Abort && len(s.Chunk) > 0 {
				x.Fail("silent", "step %d: an append of %d bytes of the body failed (%v) and the transaction records no body error", i, len(s.Chunk), aerr)
			}
			x.Hit("append-failed")
			refused = true
		}
		x.Tracef("%d %v: fired %v err=%v abort=%v bodyerr=%v", i, s, rec.events[ne:], aerr, tx.Abort, tx.RequestBodyError)
		if len(rec.aborted) > 0 {
			x.Fail("fired-after-abort", "step %d %v: rules fired while the transaction was aborted: %v", i, s, rec.aborted)
		}
		if abortAt >= 0 && len(rec.events) > ne {
			x.Fail("fired-after-abort", "step %d %v: rules fired after the abort at step %d: %v", i, s, abortAt, rec.events[ne:])
		}
		if abortAt >= 0 && !tx.Abort {
			x.Fail("abort-lost", "step %d %v: the abort of step %d is gone", i, s, abortAt)
		}
		if tx.Abort && abortAt < 0 {
			abortAt = i
			iv := tx.Intervention()
			abortStatus = iv.Status
			if !iv.Disruptive {
				x.Fail("abort", "step %d: aborted without a disruptive verdict", i)
			}
			if x.S.FS.FiredTotal() == 0 && abortStatus != 413 {
				x.Fail("abort", "step %d: aborted because of a body that is too large, with status %d", i, abortStatus)
			}
			x.Hit("aborted")
		}
		x.State(s.Op, tx.Abort, tx.RequestBodyError != nil, m.Kind, uninspectable, min(fetches, 3), int64(len(sent)) > sp.InMem)
	}
	x.S.FS.Healed = true
	tx.Close()
}

// run C10: inspection is complete and repeatable.
func c10(x *X) {
	sp := genSet(x, inspectSpec(x))
	sp.InMem = []int64{1 << 17, 24, 8, 1, 100, 300}[x.G.Choose(6)]
	if x.G.Bool(1, 5) {
		sp.ReqLimit = int64(1 + x.G.Choose(300))
	}
	if x.G.Bool(1, 3) {
		sp.ResLimit = int64(1 + x.G.Choose(120))
	}
	m := genMsg(x, msgOpt{bodyBias: true, maxPad: 200})
	if x.G.Bool(1, 5) {
		damage(x, &m.Body)
		x.Hit("damaged-body")
	}
	script := genScript(x, m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(5)})
	x.S.MapSeed = uint64(x.M.Choose(4))
	e := sp.build(x, nil)
	tx := mustTx(x, e)
	var ack, rack []byte
	urlDone, hdrDone, inspected, rinspected := false, false, false, false
	var inspAt, rinspAt int
	first := map[string]string{}
	seen := func(key, got string) {
		if f, ok := first[key]; ok && f != got {
			x.Fail("unrepeatable", "%s of the same body first yields %s, later %s", key, trunc(f, 300), trunc(got, 300))
		}
		first[key] = got
	}
	var postVals, postNames string
	havePost, haveNames := false, false
	sp.watch(x, e, func(r *RuleSpec, v VarSpec, t *modsecurity.Transaction, vals []string) {
		if t != tx {
			return
		}
		if v.Name == "RESPONSE_BODY" {
			if len(rack) == 0 {
				return
			}
			rinspected, rinspAt = true, len(rack)
			want := []string{string(rack)}
			if v.Count {
				want = []string{"1"}
			}
			if multiset(vals) != multiset(want) && !t.Abort {
				x.Fail("incomplete", "rule %d: RESPONSE_BODY of %d acknowledged bytes yields %s, want %s", r.ID, len(rack), trunc(multiset(vals), 200), trunc(multiset(want), 200))
			}
			x.Hit("response-inspected")
			return
		}
		if !urlDone || !hdrDone || !hasBody(m.Method) || len(ack) == 0 {
			return
		}
		b := viewBody(m.CT, ack)
		query := m.URL().Query()
		want, ok := b.want(v, query)
		if !ok {
			return
		}
		if !inspected {
			inspAt = len(ack)
		}
		inspected = true
		x.NonTrivial = true
		got := multiset(vals)
		seen(v.String(), got)
		tooLarge := int64(len(ack)) > sp.InMem && b.kind == bodyForm
		if tooLarge {
			x.Hit("too-large")
			return // C03
		}
		if !b.failed || v.Name == "REQUEST_BODY" {
			x.Hit("complete")
			if got != multiset(want) {
				x.Fail("incomplete", "rule %d: %v of a body of %d acknowledged bytes (%q, in-memory limit %d) yields %s, want %s", r.ID, v, len(ack), m.CT, sp.InMem, trunc(got, 300), trunc(multiset(want), 300))
			}
			return
		}
		x.Hit("malformed-inspected")
		if len(v.Incl)+len(v.Excl) > 0 || v.Count {
			return
		}
		// malformed: all variables must agree on what the arguments are
		q := VarSpec{Name: "ARGS_GET"}
		switch v.Name {
		case "ARGS":
			vals = minus(vals, pick(q, query, false))
		case "ARGS_NAMES":
			vals = minus(vals, pick(q, query, true))
		}
		if v.Name == "ARGS" || v.Name == "ARGS_POST" {
			s := multiset(vals)
			if havePost && s != postVals {
				x.Fail("unrepeatable", "rule %d: the arguments of the malformed body are %s through %v, and %s through another variable", r.ID, s, v, postVals)
			}
			havePost, postVals = true, s
		} else {
			s := multiset(vals)
			if haveNames && s != postNames {
				x.Fail("unrepeatable", "rule %d: the argument names of the malformed body are %s through %v, and %s through another variable", r.ID, s, v, postNames)
			}
			haveNames, postNames = true, s
		}
	})
	for _, r := range sp.Rules {
		x.Tracef("%v", r)
	}
	x.Tracef("%s %q, body of %d bytes, in-memory limit %d, limit %d", m.Method, m.CT, len(m.Body), sp.InMem, sp.ReqLimit)
	for i, s := range script {
		if x.G.Bool(1, 14) && len(ack) > 0 { // the caller itself looks at the body
			p := make([]byte, 1+x.G.Choose(60))
			inspected, inspAt = true, len(ack)
			var k int
			switch x.G.Choose(3) {
			case 0:
				x.Call("Read", 100000, func() { k, _ = tx.Request.Body.Read(p) })
			case 1:
				x.Call("Seek", 100000, func() { tx.Request.Body.Seek(int64(x.G.Choose(len(ack))), 0) })
			case 2:
				x.Call("WriteTo", 100000, func() { tx.Request.Body.WriteTo(&bytes.Buffer{}) })
			}
			x.Tracef("%d the caller reads the body: %d", i, k)
			x.Hit("caller-reads")
		}
		if s.Op == oCollect {
			tx.Result()
			continue
		}
		switch s.Op {
		case oURL:
			urlDone = true
		case oReqHdr:
			hdrDone = true
		}
		was, rwas := inspected, rinspected
		var err error
		x.Call(s.String(), 20000000, func() { err = apply(tx, e, m, s) })
		x.Tracef("%d %v: err=%v inspected=%v", i, s, err, inspected)
		switch s.Op {
		case oReqApp:
			if err == nil && was && len(s.Chunk) > 0 {
				x.Fail("append-after-inspection", "step %d: %d bytes appended to a request body that was inspected at %d bytes are accepted", i, len(s.Chunk), inspAt)
			}
			if err == nil {
				ack = append(ack, s.Chunk...)
			} else if was {
				x.Hit("append-after-inspection-refused")
			}
		case oResApp:
			if err == nil && rwas && len(s.Chunk) > 0 {
				x.Fail("append-after-inspection", "step %d: %d bytes appended to a response body that was inspected at %d bytes are accepted", i, len(s.Chunk), rinspAt)
			}
			if err == nil {
				rack = append(rack, s.Chunk...)
			}
		}
		x.State(s.Op, m.Kind, inspected, rinspected, int64(len(ack)) > sp.InMem, tx.Abort, tx.RequestBodyError != nil)
	}
	tx.Close()
}

func minus(a, b []string) []string {
	cnt := map[string]int{}
	for _, s := range b {
		cnt[s]++
	}
	var r []string
	for _, s := range a {
		if cnt[s] > 0 {
			cnt[s]--
			continue
		}
		r = append(r, s)
	}
	return r
}

// damage cuts off or changes bytes.
func damage(x *X, b *[]byte) {
	p := append([]byte(nil), *b...)
	for n := 1 + x.G.Choose(3); n > 0 && len(p) > 0; n-- {
		i := x.G.Choose(len(p))
		switch x.G.Choose(5) {
		case 0:
			p = p[:i]
		case 1:
			p[i] = byte(x.G.Choose(256))
		case 2:
			p = append(p[:i], p[i+1:]...)
		case 3:
			ins := []string{"%", "&", ";", "%zz", "\r\n", "--", "\x00", "=", "\xff", "%u00"}[x.G.Choose(10)]
			p = append(p[:i:i], append([]byte(ins), p[i:]...)...)
		case 4:
			j := i + x.G.Choose(len(p)-i)
			p = append(p[:i:i], p[j:]...)
		}
	}
	*b = p
}

var _ = rt.S

func init() {
	register(&Check{ID: "C03", Quick: 300000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = seeded rules biased to request-body variables, a message whose body is biased to outgrow the limits (now and then an upload beyond the parser's own limits), a history, and up to 2 storage fault plans, a full disk or a removed directory; whenever a rule fetches a body variable, it must get the values of everything sent, or the transaction must be aborted or carry a body error; non-trivial: a body variable was fetched with a body present",
		Run:  c03})
	register(&Check{ID: "C10", Quick: 600000, Thor: 10000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = seeded rules biased to body variables, a message with a body (one in five damaged) in seeded chunks, and a disturbed history in which the caller, too, may read the body; every fetch of a body variable is compared with the standard library's reading of the acknowledged bytes and with earlier fetches; non-trivial: a body variable was fetched with a body present",
		Run:  c10})
}
