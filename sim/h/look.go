package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/rt"
)

// ---- C34: looking at a transaction

// looker looks at transactions; what it is to see of the bodies is what was acknowledged.
type looker struct {
	x     *X
	e     *modsecurity.Engine
	rs    []*runner
	acks  [][2][]byte // of every transaction: the bodies, as acknowledged
	last  [][2]int    // of every transaction: the steps of the last appends
	looks int
	body  int
	depth int
}

func (l *looker) of(t *modsecurity.Transaction) int {
	for i, r := range l.rs {
		if r != nil && r.tx == t {
			return i
		}
	}
	return -1
}

type countWriter struct {
	bytes.Buffer
	left int
}

var errFull = errors.New("no room")

func (w *countWriter) Write(p []byte) (int, error) {
	if w.left < 0 {
		return w.Buffer.Write(p)
	}
	n := min(len(p), w.left)
	w.left -= n
	w.Buffer.Write(p[:n])
	if n < len(p) {
		return n, errFull
	}
	return n, nil
}

// bodyOf is what transactions offer of a body.
type bodyOf interface {
	io.Reader
	io.WriterTo
	io.Seeker
	Len() int64
	String() (string, error)
}

// peek reads of a body what the fault stream says.
func (l *looker) peek(b bodyOf, want []byte) {
	x := l.x
	x.Hit("body-looked-at")
	l.body++
	var plans []*rt.FaultPlan
	faulty := x.F.Bool(1, 8)
	if faulty {
		plans = []*rt.FaultPlan{{Op: "read", Kind: []string{"eio", "short", "einval"}[x.F.Choose(3)], Nth: 0, Arg: x.F.Choose(40)}}
	}
	x.S.FS.Plans = plans
	defer func() { x.S.FS.Plans = nil }()
	for n := 1 + x.F.Pick(4, 2, 1); n > 0; n-- {
		switch x.F.Pick(4, 3, 2, 2, 3) {
		case 0:
			p := make([]byte, []int{1, 3, 7, 40, 5000, 0}[x.F.Choose(6)])
			b.Read(p)
		case 1:
			b.Seek([]int64{0, 1, 5, int64(len(want)), int64(len(want)) + 9, -1}[x.F.Choose(6)], x.F.Choose(3))
		case 2:
			s, err := b.String()
			if err == nil && s != string(want) {
				x.Fail("look-shows", "the body reads %q when looked at, and is %q", trunc(s, 200), trunc(string(want), 200))
			}
		case 3:
			w := &countWriter{left: x.F.Choose(60)}
			b.WriteTo(w)
		case 4:
			if _, err := b.Seek(0, io.SeekStart); err != nil {
				break
			}
			w := &countWriter{left: -1}
			if _, err := b.WriteTo(w); err == nil && !faulty && w.String() != string(want) {
				x.Fail("look-shows", "the body reads %q when looked at, and is %q", trunc(w.String(), 200), trunc(string(want), 200))
			}
		}
	}
}

// look looks at transaction i. Within says that a component of the rule the transaction is at is called.
func (l *looker) look(i int, within bool) {
	x, r := l.x, l.rs[i]
	if r == nil || r.tx == nil {
		return
	}
	tx := r.tx
	l.looks++
	cp, cr, nr := tx.CurrentPhase(), tx.CurrentRule(), tx.NextRule()
	rules := tx.CurrentPhaseRules()
	cur := tx.CurrentSecRule()
	iv := *tx.Intervention()
	if cp >= modsecurity.PhaseBegin && cp <= modsecurity.PhaseEnd && len(rules)+len(l.e.RuleSet.Phases[cp]) > 0 && !reflect.DeepEqual(rules, l.e.RuleSet.Phases[cp]) {
		x.Fail("look-shows", "the transaction is at phase %d and shows other rules", cp)
	}
	if cur != nil && (cr < 0 || cr >= len(rules) || rules[cr] != cur) {
		x.Fail("look-shows", "the transaction is at rule %d of phase %d and shows another", cr, cp)
	}
	if within {
		if cur == nil {
			x.Fail("look-shows", "a component of a rule is called and the transaction shows no rule (phase %d, rule %d)", cp, cr)
		}
		if nr != cr+1 && !(nr == modsecurity.StatusEndOfRules && cr == len(rules)-1) {
			x.Fail("look-shows", "the transaction is at rule %d of %d of phase %d and goes on with %d", cr, len(rules), cp, nr)
		}
	}
	for _, sr := range rules {
		for _, v := range sr.Variables {
			_ = v.Name()
		}
		for _, v := range sr.Trans {
			_ = v.Name()
		}
		if sr.Operator != nil {
			_, _ = sr.Operator.Name(), sr.Operator.Args()
		}
		for _, v := range sr.Actions {
			_, _ = v.Name(), v.ActionGroup()
		}
	}
	for k, b := range []bodyOf{tx.Request.Body, tx.Response.Body} {
		want := l.acks[i][k]
		if b.Len() != int64(len(want)) {
			x.Fail("look-shows", "%d bytes of a body were acknowledged and its length is %d", len(want), b.Len())
		}
		if r.pos > l.last[i][k] && x.F.Bool(1, 3) {
			l.peek(b, want)
			if b.Len() != int64(len(want)) {
				x.Fail("look-changes", "a body of %d bytes has %d after it was looked at", len(want), b.Len())
			}
		}
	}
	// nothing of it moved anything
	if a, b, c := tx.CurrentPhase(), tx.CurrentRule(), tx.NextRule(); a != cp || b != cr || c != nr {
		x.Fail("look-changes", "the transaction was at phase %d rule %d next %d and is at phase %d rule %d next %d after it was looked at", cp, cr, nr, a, b, c)
	}
	if now := *tx.Intervention(); !reflect.DeepEqual(iv, now) {
		x.Fail("look-changes", "the verdict so far was %+v and is %+v after it was looked at", iv, now)
	}
}

func c34(x *X) {
	o := mixSpec(x, x.G.Bool(1, 3))
	if x.G.Bool(1, 2) {
		o.bodyVars = 10
	}
	sp := genSet(x, o)
	smallLimits(x, sp)
	x.traceSet(sp)
	n := 1 + x.G.Pick(3, 2)
	ms, scripts := make([]*Msg, n), make([][]Step, n)
	last := make([][2]int, n)
	var order []int
	for i := range ms {
		ms[i] = genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 120, crowd: 20})
		if x.G.Bool(1, 6) {
			damage(x, &ms[i].Body)
		}
		scripts[i] = append(genScript(x, ms[i], scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)}), Step{Op: oClose})
		for k, s := range scripts[i] {
			order = append(order, i)
			switch s.Op {
			case oReqApp:
				last[i][0] = k
			case oResApp:
				last[i][1] = k
			}
		}
	}
	if x.SC.Bool(1, 2) {
		for i := len(order) - 1; i > 0; i-- {
			j := x.SC.Choose(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	seed := uint64(x.M.Choose(4))
	var first []string
	for k := 0; k < 2; k++ {
		if k > 0 {
			x.NewSim()
		}
		x.S.MapSeed = seed
		to := recorders{}
		e := sp.build(x, to)
		rs := make([]*runner, n)
		l := &looker{x: x, e: e, rs: rs, acks: make([][2][]byte, n), last: last}
		den := 1 + x.F.Choose(6)
		if k == 1 {
			sp.tap(e, func(t *modsecurity.Transaction, r *RuleSpec, what string) {
				i := l.of(t)
				if i < 0 || l.depth > 0 || !x.F.Bool(1, den+2) {
					return
				}
				l.depth++
				l.look(i, r.Phase > 0 && (what == "variable" || what == "transformation" || what == "operator"))
				x.Hit("look-within-" + what)
				l.depth--
			})
		}
		for _, i := range order {
			i := i
			if rs[i] == nil {
				x.Call("NewTransaction", 100000, func() { rs[i] = newRunner(e, ms[i], scripts[i], to) })
				if rs[i].tx != nil {
					rs[i].apply = func(s Step) error {
						err := apply(rs[i].tx, e, ms[i], s)
						if err == nil && s.Op == oReqApp {
							l.acks[i][0] = append(l.acks[i][0], s.Chunk...)
						}
						if err == nil && s.Op == oResApp {
							l.acks[i][1] = append(l.acks[i][1], s.Chunk...)
						}
						return err
					}
				}
			}
			r := rs[i]
			if r.done() {
				continue
			}
			if k == 0 {
				x.Call("step", 20000000, r.step)
				continue
			}
			if x.F.Bool(1, den) {
				x.Call("look", 20000000, func() { l.look(i, false) })
			}
			if s := r.script[r.pos]; s.Op == oCollect && x.F.Bool(2, 3) {
				x.Call("collect", 20000000, func() {
					var iv modsecurity.Intervention
					if p := r.tx.Intervention(); p != nil {
						iv = *p
						iv.Log = append([]string(nil), p.Log...)
					}
					r.pos++
					v := r.tx.Result()
					if len(v.Log) == 0 && len(iv.Log) == 0 {
						iv.Log = v.Log
					}
					if !reflect.DeepEqual(iv, *v) {
						x.Fail("look-shows", "the verdict was %+v when it was looked at, and %+v was collected", iv, *v)
					}
					r.out.add("%d verdict %d disruptive=%v url=%v pause=%v log %q", r.pos-1, v.Status, v.Disruptive, v.Url, v.Pause, v.Log)
				})
				x.Hit("verdict-looked-at")
				continue
			}
			x.Call("step", 20000000, r.step)
		}
		var lines []string
		for i, r := range rs {
			lines = append(lines, fmt.Sprintf("transaction %d", i))
			lines = append(lines, r.out.lines...)
		}
		if left := x.S.FS.Files(); len(left) > 0 {
			x.Fail("leftover-file", "all transactions are closed and %v are left", left)
		}
		if k == 0 {
			first = lines
			for _, s := range lines {
				x.Tracef("%s", s)
			}
			continue
		}
		if l.looks > 0 && anyFired(first) {
			x.NonTrivial = true
		}
		x.S.Log(fmt.Sprintf("%d looks\n%s", l.looks, strings.Join(lines, "\n")))
		if d := diffLines(lines, first); d != "" {
			x.Fail("looking-matters", "looked at %d times, at bodies %d times: %s (when not looked at)", l.looks, l.body, d)
		}
		x.State(len(lines), min(l.looks, 30), min(l.body, 10), den)
	}
}

func init() {
	register(&Check{ID: "C34", Quick: 100000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 1-2 interleaved transactions in disturbed histories, run twice: left alone, and looked at between the steps and from within the components of the rules - verdict so far, phase, rule and next rule, the rules of the phase, size of the bodies and, once complete, their contents, read in parts, moved about in and with a storage that fails while they are read; what is seen must be what was acknowledged, and everything that can be observed of the steps must be the same; non-trivial: looked at, and a rule fired",
		Run:  c34})
}
