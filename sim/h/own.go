package main

import (
	"errors"
	"fmt"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/r/seclang"
	"verifsim/r/seclang/parser"
)

// Directives that a program registers for itself (C31).

const (
	tkNote = 9001 + iota
	tkPair
	tkLevel
	tkSwitch
	tkTrouble
	tkInclude
	tkMark
	tkMarker
	tkLow
	tkHigh
)

// ownWorld is what the registered directives work on.
type ownWorld struct {
	x     *X
	log   map[*modsecurity.Engine][]string
	texts map[string]string // what can be included
	out   map[string]bool   // what fails
}

var own *ownWorld

type pairDir struct{ a, b string }

func (*pairDir) Token() int { return tkPair }

type markDir struct{}

func (*markDir) Token() int { return tkMark }

type levelDir struct{ v string }

func (*levelDir) Token() int { return tkLevel }

type troubleDir struct{ v string }

func (*troubleDir) Token() int { return tkTrouble }

// ownDire is a registered directive; it does what f does.
type ownDire struct {
	tk int
	f  func(e *modsecurity.Engine) error
}

func (o *ownDire) Token() int                          { return o.tk }
func (o *ownDire) Execute(e *modsecurity.Engine) error { return o.f(e) }

func state(e *modsecurity.Engine) string {
	var n [6]int
	for p := range n {
		n[p] = len(e.RuleSet.Phases[p])
	}
	return fmt.Sprint(n, e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess)
}

func note(text string) func(e *modsecurity.Engine) error {
	return func(e *modsecurity.Engine) error {
		own.log[e] = append(own.log[e], text+" at "+state(e))
		return nil
	}
}

var errTrouble = errors.New("the directive is in trouble")

// trouble fails where it is asked to, by an error or a panic.
func trouble(arg, where string) error {
	switch arg {
	case where + "-error":
		return errTrouble
	case where + "-panic":
		panic("component failed")
	}
	return nil
}

func (o *ownDire) FromSecLang(d parser.Directive) (seclang.Dire, error) {
	if d.Token() != o.tk {
		return nil, fmt.Errorf("directive %d handed to %d", d.Token(), o.tk)
	}
	r := &ownDire{tk: o.tk}
	switch d := d.(type) {
	case *parser.StringArgDirective:
		r.f = note("note " + d.Value)
		if o.tk == tkInclude {
			set, err := seclang.NewDireSetFromSecLangString(own.texts[d.Value])
			if err != nil {
				return nil, err
			}
			r.f = set.Execute
		}
	case *markDir:
		r.f = note("mark")
	case *pairDir:
		r.f = note("pair " + d.a + " and " + d.b)
	case *levelDir:
		r.f = note("level " + d.v)
	case *parser.BoolArgDirective:
		r.f = note(fmt.Sprint("switch ", d.Value))
	case *troubleDir:
		if err := trouble(d.v, "make"); err != nil {
			return nil, err
		}
		r.f = func(e *modsecurity.Engine) error {
			if own.out[d.v] {
				if err := trouble(strings.SplitN(d.v, ":", 2)[0], "execute"); err != nil {
					return err
				}
			}
			return note("no trouble " + d.v)(e)
		}
	default:
		return nil, fmt.Errorf("unexpected %T", d)
	}
	return r, nil
}

// registerOwn registers the directives, as a program does when it starts.
func registerOwn() {
	if parser.DirectiveFromString("SecNote") != nil {
		return
	}
	parser.RegisterDir(tkNote, "SecNote", parser.StringArgDirectiveFactory(tkNote))
	parser.RegisterDir(tkInclude, "SecInclude", parser.StringArgDirectiveFactory(tkInclude))
	parser.RegisterDir(tkMark, "SecMark", func(s *parser.Scanner) (parser.Directive, error) { return &markDir{}, nil })
	parser.RegisterDir(tkMarker, "SecMarker", parser.StringArgDirectiveFactory(tkMarker))
	parser.RegisterDir(tkSwitch, "SecSwitch", parser.BoolArgDirectiveFactory(tkSwitch))
	parser.RegisterDir(tkPair, "SecPair", func(s *parser.Scanner) (parser.Directive, error) {
		a, err := s.ReadString()
		if err != nil {
			return nil, err
		}
		b, err := s.ReadString()
		if err != nil {
			return nil, err
		}
		return &pairDir{a, b}, nil
	})
	parser.RegisterDir(tkLevel, "SecLevel", func(s *parser.Scanner) (parser.Directive, error) {
		tk, str, err := s.ReadValue(tkLow, tkHigh)
		if err != nil {
			return nil, err
		}
		return &levelDir{fmt.Sprint(tk-tkLow, " ", str)}, nil
	})
	parser.RegisterDir(tkTrouble, "SecTrouble", func(s *parser.Scanner) (parser.Directive, error) {
		v, err := s.ReadString()
		if err == nil {
			err = trouble(v, "parse")
		}
		if err != nil {
			return nil, err
		}
		return &troubleDir{v}, nil
	})
	parser.RegisterValue(tkLow, "Low|Least")
	parser.RegisterValue(tkHigh, "High")
	for tk := tkNote; tk <= tkMarker; tk++ {
		seclang.RegisterDire(&ownDire{tk: tk})
	}
}

// ownItem is the model of a directive.
type ownItem struct {
	kind  string // rule, setting, note, trouble, include
	text  string // what is noted, or the setting
	phase int
	id    int
	subs  int
	items []ownItem
}

// ownEngine is the model of an engine.
type ownEngine struct {
	phases [6][]string
	mode   string
	req    bool
	res    bool
	log    []string
}

func (m *ownEngine) state() string {
	var n [6]int
	for p := range n {
		n[p] = len(m.phases[p])
	}
	return fmt.Sprint(n, m.mode == "On", m.mode == "DetectionOnly", m.req, m.res)
}

func (m *ownEngine) contents() string {
	return fmt.Sprint(m.phases, m.mode == "On", m.mode == "DetectionOnly", m.req, m.res)
}

func contents(e *modsecurity.Engine) string {
	var p [6][]string
	for ph := range p {
		for _, r := range e.RuleSet.Phases[ph] {
			p[ph] = append(p[ph], fmt.Sprintf("%d+%d", r.Id, len(r.SubRules)))
		}
	}
	return fmt.Sprint(p, e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess)
}

// run executes the items and says how they failed, or "".
func (m *ownEngine) run(items []ownItem, out map[string]bool) string {
	for _, it := range items {
		switch it.kind {
		case "rule":
			m.phases[it.phase] = append(m.phases[it.phase], fmt.Sprintf("%d+%d", it.id, it.subs))
		case "setting":
			n, v, _ := strings.Cut(it.text, " ")
			switch n {
			case "SecRuleEngine":
				m.mode = v
			case "SecRequestBodyAccess":
				m.req = v == "On"
			case "SecResponseBodyAccess":
				m.res = v == "On"
			}
		case "note":
			m.log = append(m.log, it.text+" at "+m.state())
		case "trouble":
			if out[it.text] {
				if strings.HasPrefix(it.text, "execute-error") {
					return errTrouble.Error()
				}
				return "panic"
			}
			m.log = append(m.log, "no trouble "+it.text+" at "+m.state())
		case "include":
			if f := m.run(it.items, out); f != "" {
				return f
			}
		}
	}
	return ""
}

var ownArgs = []string{"plain", "two words", "it's", `say "x"`, `back\slash`, "", "a,b|c", "caf\u00e9", "SecNote", "On", "line\nbreak", "tab\there", "# no comment", "$&*", "x=y"}

// genOwn makes a text and what it means; bad says that it must be rejected.
func genOwn(x *X, w *ownWorld, ids *int, depth int, wantBad bool) (text string, items []ownItem, bad bool) {
	var b strings.Builder
	n := 1 + x.G.Choose(6)
	badAt := -1
	if wantBad {
		badAt = x.G.Choose(n)
	}
	var dummy bool
	name := func(s string) string {
		switch x.G.Choose(8) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	nl := func() string { return []string{"\n", "\n", "\r\n", "\n\n \t\n"}[x.G.Choose(4)] }
	chain := -1 // the item that a chain hangs on
	for i := 0; i < n; i++ {
		if i == badAt {
			switch x.G.Choose(6) {
			case 0:
				if i == n-1 && x.G.Bool(1, 2) { // cut off where an argument begins
					b.WriteString(name([]string{"SecNote", "SecMarker", "SecPair x", "SecInclude"}[x.G.Choose(4)]) + gap(x) + []string{"\"", "'", "\"\\", "'a"}[x.G.Choose(4)])
					return b.String(), items, true
				}
				b.WriteString(name("SecTrouble") + gap(x) + []string{"parse-error", "parse-panic", "make-error", "make-panic"}[x.G.Choose(4)])
			case 1:
				b.WriteString(name("SecTrouble") + gap(x) + `"make-error"`)
			case 2:
				b.WriteString(name("SecLevel") + gap(x) + []string{"middle", "highest", "\"\"", "lo"}[x.G.Choose(4)])
			case 3:
				b.WriteString(name("SecSwitch") + gap(x) + []string{"DetectionOnly", "1", "Low"}[x.G.Choose(3)])
			case 4:
				if depth > 0 {
					t, _, _ := genOwn(x, w, ids, depth-1, true)
					k := fmt.Sprintf("file%d", len(w.texts))
					w.texts[k] = t
					b.WriteString(name("SecInclude") + gap(x) + k)
					break
				}
				fallthrough
			case 5:
				b.WriteString([]string{"SecNothing x", `SecRule NOSUCH "a" "id:1,phase:1"`, `SecPair "a`, "SecRuleEngine Low", `SecRule ARGS "@nosuch a" "id:1,phase:1"`}[x.G.Choose(5)])
			}
			b.WriteString(nl())
			bad = true
			continue
		}
		kind := x.G.Pick(4, 2, 3, 2, 1, 1, 2, 1)
		if kind == 7 && depth == 0 {
			kind = 2
		}
		switch kind {
		case 0:
			*ids++
			ph := 1 + x.G.Choose(5)
			acts := fmt.Sprintf("id:%d,phase:%d,log", *ids, ph)
			ch := x.G.Bool(1, 4) && i+1 < n
			if ch {
				acts += ",chain"
			}
			fmt.Fprintf(&b, `%s REQUEST_METHOD "@rx ." "%s"`, name("SecRule"), acts)
			if chain >= 0 {
				items[chain].subs++
			} else {
				items = append(items, ownItem{kind: "rule", phase: ph, id: *ids})
			}
			switch {
			case !ch:
				chain = -1
			case chain < 0:
				chain = len(items) - 1
			}
		case 1:
			s := []string{"SecRuleEngine On", "SecRuleEngine Off", "SecRuleEngine DetectionOnly", "SecRequestBodyAccess On", "SecRequestBodyAccess Off", "SecResponseBodyAccess On", "SecResponseBodyAccess Off"}[x.G.Choose(7)]
			k, v, _ := strings.Cut(s, " ")
			b.WriteString(name(k) + gap(x) + v)
			items = append(items, ownItem{kind: "setting", text: s})
		case 2:
			v := ownArgs[x.G.Choose(len(ownArgs))]
			switch x.G.Choose(8) {
			case 0:
				b.WriteString(name("SecMark"))
				items = append(items, ownItem{kind: "note", text: "mark"})
				b.WriteString(nl())
				continue
			case 1:
				b.WriteString(name("SecMarker") + gap(x) + ownArg(x, v))
			default:
				b.WriteString(name("SecNote") + gap(x) + ownArg(x, v))
			}
			items = append(items, ownItem{kind: "note", text: "note " + v})
		case 3:
			v, u := ownArgs[x.G.Choose(len(ownArgs))], ownArgs[x.G.Choose(len(ownArgs))]
			b.WriteString(name("SecPair") + gap(x) + ownArg(x, v) + gap(x) + ownArg(x, u))
			items = append(items, ownItem{kind: "note", text: "pair " + v + " and " + u})
		case 4:
			v := []string{"Low", "least", "HIGH", "High"}[x.G.Choose(4)]
			k := 0
			if v[0] == 'H' {
				k = 1
			}
			b.WriteString(name("SecLevel") + gap(x) + arg(x, v, &dummy))
			items = append(items, ownItem{kind: "note", text: fmt.Sprint("level ", k, " ", v)})
		case 5:
			on := x.G.Bool(1, 2)
			v := "off"
			if on {
				v = "On"
			}
			b.WriteString(name("SecSwitch") + gap(x) + arg(x, v, &dummy))
			items = append(items, ownItem{kind: "note", text: fmt.Sprint("switch ", on)})
		case 6:
			v := []string{"execute-error", "execute-panic"}[x.G.Choose(2)] + fmt.Sprint(":", x.G.Choose(3))
			b.WriteString(name("SecTrouble") + gap(x) + v)
			items = append(items, ownItem{kind: "trouble", text: v})
		case 7:
			t, sub, _ := genOwn(x, w, ids, depth-1, false)
			k := fmt.Sprintf("file%d", len(w.texts))
			w.texts[k] = t
			b.WriteString(name("SecInclude") + gap(x) + k)
			items = append(items, ownItem{kind: "include", items: sub})
		}
		b.WriteString(nl())
	}
	return b.String(), items, bad
}

// ownArg writes an argument out.
func ownArg(x *X, v string) string {
	var quoted bool
	if strings.ContainsAny(v, "\n\t") {
		return `"` + strings.NewReplacer("\n", `\n`, "\t", `\t`).Replace(v) + `"`
	}
	if strings.HasPrefix(v, "#") { // never bare
		return `"` + v + `"`
	}
	return arg(x, v, &quoted)
}

// guarded runs f as a program does that goes on when a directive panics.
func guarded(f func() error) (res string) {
	defer func() {
		switch e := recover(); e {
		case nil:
		case "component failed":
			res = "panic"
		default:
			panic(e)
		}
	}()
	return errText(f())
}

// ownJob is a program that loads texts and applies them.
type ownJob struct {
	name  string
	steps []ownStep
	got   []string // what went wrong
	set   *seclang.DireSet
	engs  []*modsecurity.Engine
}

type ownStep struct {
	text  string // added, unless it is ""
	items []ownItem
	bad   bool
	eng   int // executed on it, otherwise
	out   map[string]bool
}

func genOwnJob(x *X, w *ownWorld, name string, alone bool) *ownJob {
	j := &ownJob{name: name}
	ids := 100
	engs := 1 + x.G.Choose(2)
	for n := 2 + x.G.Choose(6); n > 0; n-- {
		if x.G.Bool(2, 5) {
			s := ownStep{eng: x.G.Choose(engs)}
			if alone { // what fails is common to all
				s.out = map[string]bool{}
				for _, k := range []string{"execute-error", "execute-panic"} {
					for i := 0; i < 3; i++ {
						if x.F.Bool(1, 4) {
							s.out[fmt.Sprint(k, ":", i)] = true
						}
					}
				}
			}
			j.steps = append(j.steps, s)
			continue
		}
		t, items, bad := genOwn(x, w, &ids, 2, x.G.Bool(1, 3))
		j.steps = append(j.steps, ownStep{text: t, items: items, bad: bad})
	}
	j.steps = append(j.steps, ownStep{eng: 0})
	for i := 0; i < engs; i++ {
		j.engs = append(j.engs, modsecurity.NewEngine())
	}
	j.set = seclang.NewDireSet()
	return j
}

func (j *ownJob) run(w *ownWorld) {
	var items []ownItem
	model := make([]*ownEngine, len(j.engs))
	for i := range model {
		model[i] = &ownEngine{mode: "On", req: j.engs[i].RequestBodyAccess, res: j.engs[i].ResponseBodyAccess}
	}
	wrong := func(f string, a ...interface{}) { j.got = append(j.got, j.name+": "+fmt.Sprintf(f, a...)) }
	for i, s := range j.steps {
		if s.text != "" {
			res := guarded(func() error { return j.set.AddSecLangString(s.text) })
			if s.bad && res == errText(nil) {
				wrong("step %d: a text with a directive that fails is accepted: %q", i, s.text)
			}
			if !s.bad && res != errText(nil) {
				wrong("step %d: a valid text is rejected (%s): %q", i, res, s.text)
			}
			if !s.bad {
				items = append(items, s.items...)
			}
			w.x.Hit("add " + map[bool]string{true: "rejected", false: "accepted"}[s.bad])
			continue
		}
		if s.out != nil {
			own.out = s.out
		}
		res := guarded(func() error { return j.set.Execute(j.engs[s.eng]) })
		want := model[s.eng].run(items, own.out)
		if want != "" {
			w.x.Hit("execution-failed")
		} else if len(items) > 2 {
			w.x.Hit("executed")
			w.x.NonTrivial = true
		}
		if want == "" {
			want = errText(nil)
		}
		if res != want {
			wrong("step %d: applying the set ends with %q, expected %q", i, res, want)
		}
		for k, e := range j.engs {
			if a, b := strings.Join(own.log[e], "; "), strings.Join(model[k].log, "; "); a != b {
				wrong("step %d: the registered directives ran on engine %d as [%s], expected [%s]", i, k, trunc(a, 600), trunc(b, 600))
			}
			if a, b := contents(e), model[k].contents(); a != b {
				wrong("step %d: engine %d holds %s, expected %s", i, k, trunc(a, 600), trunc(b, 600))
			}
		}
		w.x.State(len(items), s.eng, len(own.log[j.engs[s.eng]]), res, len(own.out))
	}
}

func c31(x *X) {
	registerOwn()
	own = &ownWorld{x: x, log: map[*modsecurity.Engine][]string{}, texts: map[string]string{}, out: map[string]bool{}}
	w := own
	x.S.MapSeed = uint64(x.M.Choose(4))
	n := 1
	if x.G.Bool(1, 4) {
		n = 2 + x.G.Choose(2)
	}
	var jobs []*ownJob
	var names []string
	var fns []func()
	for i := 0; i < n; i++ {
		j := genOwnJob(x, w, fmt.Sprintf("program%d", i), n == 1)
		jobs = append(jobs, j)
		names = append(names, j.name)
		fns = append(fns, func() { j.run(w) })
		for k, s := range j.steps {
			if s.text != "" {
				x.Tracef("%s step %d: add %q (bad %v)", j.name, k, s.text, s.bad)
			} else {
				x.Tracef("%s step %d: apply to engine %d, failing now: %v", j.name, k, s.eng, s.out)
			}
		}
	}
	if n == 1 {
		x.Call("load and apply", 20000000, fns[0])
	} else {
		x.S.RaceOn = true
		x.RunTasks(names, fns, 2+x.SC.Choose(24), []int{4000, 200, 20, 1000}[x.SC.Choose(4)], 100000000)
	}
	for _, j := range jobs {
		for _, g := range j.got {
			x.Fail("own-directives", "%s", g)
		}
	}
}

func init() {
	register(&Check{ID: "C31", Quick: 300000, Thor: 5000000, Batch: 250, Real: loadReal, Stub: append([]string{"six directives registered by the simulated program, one of which loads other texts and one of which fails by errors and panics when parsed, made or executed"}, loadStub[1:]...),
		Rule: "one run = 1-3 programs (concurrent under the seeded scheduler, with race detection) that add texts mixing built-in and registered directives to a rule set, some of them failing, and apply the set to 1-2 engines while directives fail; after every application the directives that ran, what they found on the engine and what it holds are compared with a model of the texts; non-trivial: more than two directives were applied",
		Run:  c31})
}
