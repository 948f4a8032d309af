package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/r/modsecurity/actions"
	"verifsim/r/modsecurity/operators"
	"verifsim/r/modsecurity/transforms"
	"verifsim/r/modsecurity/variables"
	"verifsim/r/seclang"
)

// ---- specifications of rules, from which the engine's rules and the model are made

type VarSpec struct {
	Name  string // a variable of the engine, or CONST
	Vals  []string
	Count bool
	Incl  []string
	Excl  []string
}

type ActSpec struct {
	Name  string // an action of the engine, or probe
	Arg   string
	Group int // of a probe
	N     int
}

type RuleSpec struct {
	ID    int // of its own
	Given int // the id it is configured with: most often its own, sometimes none or that of another rule
	Phase int
	Vars  []VarSpec
	Trans []string
	Op    string
	Arg   string
	Not   bool
	Acts  []ActSpec
	Subs  []*RuleSpec
}

type SetSpec struct {
	Rules    []*RuleSpec
	Defaults []ActSpec
	SecLang  bool
	Text     string // rendering, when SecLang
	ReqBody  bool
	ResBody  bool
	Mode     int
	SetMode  bool
	InMem    int64
	ReqLimit int64
	ResLimit int64
	Dir      string
}

func (v VarSpec) String() string {
	if v.Name == "CONST" {
		return fmt.Sprintf("const%q", v.Vals)
	}
	var p []string
	pre := ""
	if v.Count {
		pre = "&"
	}
	if len(v.Incl) == 0 {
		p = append(p, pre+v.Name)
	}
	for _, i := range v.Incl {
		p = append(p, pre+v.Name+":"+i)
	}
	for _, e := range v.Excl {
		p = append(p, "!"+v.Name+":"+e)
	}
	return strings.Join(p, "|")
}

func (a ActSpec) String() string {
	if a.custom() {
		return fmt.Sprintf("%s%d(group %d)%s", a.Name, a.N, a.Group, a.Arg)
	}
	if a.Arg != "" {
		return a.Name + ":" + a.Arg
	}
	return a.Name
}

func (r *RuleSpec) String() string {
	s := fmt.Sprintf("rule %d phase %d: %v t%v ", r.ID, r.Phase, r.Vars, r.Trans)
	if r.Not {
		s += "!"
	}
	s += fmt.Sprintf("@%s %q -> %v", r.Op, r.Arg, r.Acts)
	for _, c := range r.Subs {
		s += " chained " + c.String()
	}
	return s
}

// ---- custom parts of rules

type constVar struct{ vals []string }

func (c *constVar) Name() string         { return "CONST" }
func (c *constVar) Include(string) error { return nil }
func (c *constVar) Exclude(string) error { return nil }
func (c *constVar) Fetch(t *modsecurity.Transaction) []string {
	return append([]string(nil), c.vals...)
}

// recorder collects what the probes of a transaction see.
type recorder struct {
	events  []string
	evals   int
	see     func(id int, v string) // is told what operators are asked
	aborted []string               // events while the transaction was aborted
}

type recorders map[*modsecurity.Transaction]*recorder

type probe struct {
	id, n, group int
	to           recorders
}

func (p *probe) Name() string     { return fmt.Sprintf("probe%d", p.n) }
func (p *probe) Value() string    { return "" }
func (p *probe) ActionGroup() int { return p.group }
func (p *probe) Do(t *modsecurity.Transaction) {
	r := p.to[t]
	if r == nil {
		return
	}
	i := t.Intervention()
	r.events = append(r.events, probeEvent(p.id, p.n, i.Disruptive, i.Status))
	if t.Abort {
		r.aborted = append(r.aborted, r.events[len(r.events)-1])
	}
}

func probeEvent(id, n int, dis bool, status int) string {
	return fmt.Sprintf("%d.%d dis=%v st=%d", id, n, dis, status)
}

// evalOp counts the evaluations of an operator.
type evalOp struct {
	modsecurity.Operator
	to recorders
	id int
}

func (o *evalOp) Match(t *modsecurity.Transaction, s string) bool {
	if r := o.to[t]; r != nil {
		r.evals++
		if r.see != nil {
			r.see(o.id, s)
		}
	}
	return o.Operator.Match(t, s)
}

var varFactory = map[string]func() modsecurity.Variable{
	"ARGS": variables.NewVariableArgs, "ARGS_NAMES": variables.NewVariableArgsNames,
	"ARGS_GET": variables.NewVariableArgsGet, "ARGS_GET_NAMES": variables.NewVariableArgsGetNames,
	"ARGS_POST": variables.NewVariableArgsPost, "ARGS_POST_NAMES": variables.NewVariableArgsPostNames,
	"QUERY_STRING": variables.NewVariableQueryString, "REMOTE_ADDR": variables.NewVariableRemoteAddr,
	"REQUEST_BASENAME": variables.NewVariableRequestBasename, "REQUEST_BODY": variables.NewVariableRequestBody,
	"REQUEST_COOKIES": variables.NewVariableRequestCookies, "REQUEST_COOKIES_NAMES": variables.NewVariableRequestCookiesNames,
	"REQUEST_FILENAME": variables.NewVariableRequestFilename, "REQUEST_HEADERS": variables.NewVariableRequestHeaders,
	"REQUEST_HEADERS_NAMES": variables.NewVariableRequestHeadersNames, "REQUEST_METHOD": variables.NewVariableRequestMethod,
	"REQUEST_PROTOCOL": variables.NewVariableRequestProtocol, "REQUEST_URI": variables.NewVariableRequestURI,
	"RESPONSE_BODY": variables.NewVariableResponseBody, "RESPONSE_CONTENT_LENGTH": variables.NewVariableResponseContentLength,
	"RESPONSE_CONTENT_TYPE": variables.NewVariableResponseContentType, "RESPONSE_HEADERS": variables.NewVariableResponseHeaders,
	"RESPONSE_HEADERS_NAMES": variables.NewVariableResponseHeadersNames, "RESPONSE_PROTOCOL": variables.NewVariableResponseProtocol,
	"RESPONSE_STATUS": variables.NewVariableResponseStatus,
}

var transFactory = map[string]func() modsecurity.Trans{
	"lowercase": transforms.NewTransLowerCase, "none": transforms.NewTransNone, "urlDecode": transforms.NewTransUrlDecode,
	"urlDecodeUni": transforms.NewTransUrlDecodeUni, "compressWhitespace": transforms.NewTransCompressWhitespace,
	"removeWhitespace": transforms.NewTransRemoveWhitespace, "replaceNulls": transforms.NewTransReplaceNulls,
	"removeNulls": transforms.NewTransRemoveNulls,
}

var opFactory = map[string]func(string) (modsecurity.Operator, error){
	"rx": operators.NewOperatorRx, "eq": operators.NewOperatorEq, "ge": operators.NewOperatorGe,
	"gt": operators.NewOperatorGt, "le": operators.NewOperatorLe, "lt": operators.NewOperatorLt,
}

func makeVar(x *X, v VarSpec) modsecurity.Variable {
	if v.Name == "CONST" {
		return &constVar{v.Vals}
	}
	r := varFactory[v.Name]()
	if v.Count {
		r = variables.NewCountVariable(r)
	}
	for _, s := range v.Incl {
		if err := r.Include(s); err != nil {
			x.Fail("include", "%s.Include(%q): %v", v.Name, s, err)
		}
	}
	for _, s := range v.Excl {
		if err := r.Exclude(s); err != nil {
			x.Fail("exclude", "%s.Exclude(%q): %v", v.Name, s, err)
		}
	}
	return r
}

func makeAct(a ActSpec, id int, to recorders) modsecurity.Action {
	switch a.Name {
	case "deny":
		return actions.NewActionDeny()
	case "pass":
		return actions.NewActionPass()
	case "log":
		return actions.NewActionLog()
	case "block":
		return actions.NewActionBlock()
	case "skip":
		return actions.NewActionSkip()
	case "allow":
		return actions.NewActionAllow(a.Arg)
	case "status":
		n := 0
		fmt.Sscan(a.Arg, &n)
		return actions.NewActionStatus(n)
	case "probe":
	default:
		return &steerAct{a, id, to}
	}
	return &probe{id: id, n: a.N, group: a.Group, to: to}
}

func makeRule(x *X, r *RuleSpec, to recorders) *modsecurity.SecRule {
	sr := modsecurity.NewSecRule()
	sr.Id, sr.Phase, sr.Not = r.Given, r.Phase, r.Not
	for _, v := range r.Vars {
		sr.AppendVariables(makeVar(x, v))
	}
	for _, t := range r.Trans {
		sr.AppendTrans(transFactory[t]())
	}
	op, err := opFactory[r.Op](r.Arg)
	if err != nil {
		x.Fail("operator", "@%s %q: %v", r.Op, r.Arg, err)
	}
	sr.SetOperator(&evalOp{op, to, r.ID})
	for _, a := range r.Acts {
		sr.AppendActions(makeAct(a, r.ID, to))
	}
	for _, s := range r.Subs {
		sr.AppendSubRules(makeRule(x, s, to))
	}
	return sr
}

// build makes an engine of the specification.
func (sp *SetSpec) build(x *X, to recorders) *modsecurity.Engine {
	e := modsecurity.NewEngine()
	if sp.Dir != "" {
		e.TmpPath = sp.Dir
	}
	if sp.InMem > 0 {
		e.RequestBodyInMem = sp.InMem
	}
	if sp.ReqLimit > 0 {
		e.RequestBody = sp.ReqLimit
	}
	if sp.ResLimit > 0 {
		e.ResponseBody = sp.ResLimit
	}
	for _, d := range sp.Defaults {
		e.RuleSet.AddDefaultActions(makeAct(d, 0, to))
	}
	if !sp.SecLang {
		e.RequestBodyAccess, e.ResponseBodyAccess = sp.ReqBody, sp.ResBody
		if sp.SetMode {
			e.Enable(sp.Mode)
		}
		for _, r := range sp.Rules {
			e.AddSecRule(makeRule(x, r, to))
		}
		return e
	}
	var err error
	x.Call("load SecLang", 50000+int64(len(sp.Text))*2000, func() {
		var ds *seclang.DireSet
		if ds, err = seclang.NewDireSetFromSecLangString(sp.Text); err == nil {
			err = ds.Execute(e)
		}
	})
	if err != nil {
		x.Fail("load", "a valid configuration is rejected: %v\n%s", err, sp.Text)
	}
	if to != nil {
		sp.attach(x, e, to)
	}
	return e
}

// attach adds the probes and counts evaluations in rules loaded from SecLang.
func (sp *SetSpec) attach(x *X, e *modsecurity.Engine, to recorders) {
	sp.attachAfter(x, e, to, nil)
}

// attachAfter does so when the engine had rules before, so many in each phase.
func (sp *SetSpec) attachAfter(x *X, e *modsecurity.Engine, to recorders, before map[int]int) {
	byPhase := map[int][]*RuleSpec{}
	for _, r := range sp.Rules {
		byPhase[r.Phase] = append(byPhase[r.Phase], r)
	}
	var walk func(sr *modsecurity.SecRule, r *RuleSpec)
	walk = func(sr *modsecurity.SecRule, r *RuleSpec) {
		if sr.Id != r.Given {
			x.Fail("rule-order", "the rule in place of rule %d (with id %d) has id %d\n%s", r.ID, r.Given, sr.Id, sp.Text)
		}
		if len(sr.SubRules) != len(r.Subs) {
			x.Fail("chain", "rule %d has %d chained rules, %d are configured\n%s", r.ID, len(sr.SubRules), len(r.Subs), sp.Text)
		}
		for _, a := range r.Acts {
			if a.custom() {
				sr.AppendActions(makeAct(a, r.ID, to))
			}
		}
		sr.Operator = &evalOp{sr.Operator, to, r.ID}
		for i, s := range sr.SubRules {
			walk(s, r.Subs[i])
		}
	}
	for p := 1; p <= 6; p++ {
		rs := e.RuleSet.Phases[p]
		if len(rs) < before[p] {
			x.Fail("rules", "phase %d has %d rules and had %d", p, len(rs), before[p])
		}
		rs = rs[before[p]:]
		if len(rs) != len(byPhase[p]) {
			x.Fail("rules", "phase %d has %d rules, %d are configured\n%s", p, len(rs), len(byPhase[p]), sp.Text)
		}
		for i, r := range byPhase[p] {
			walk(rs[i], r)
		}
	}
}

// ---- rendering as SecLang

func secQuote(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	return strings.ReplaceAll(s, `"`, `\"`)
}

var phaseNames = map[int]string{2: "request", 4: "response", 5: "logging"}

func renderRule(x *X, b *strings.Builder, r *RuleSpec, chain, sub bool) {
	var vs []string
	for _, v := range r.Vars {
		vs = append(vs, v.String())
	}
	sep, nl, ind := "|", "\n", ""
	if x.G.Bool(1, 8) {
		sep = ","
	}
	if x.G.Bool(1, 8) {
		nl = "\r\n"
	}
	if x.G.Bool(1, 3) {
		ind = "  "
	}
	var acts []string
	if quote := x.G.Bool(1, 12); r.Given != 0 && quote {
		acts = append(acts, fmt.Sprintf("id:'%d'", r.Given))
	} else if r.Given != 0 {
		acts = append(acts, fmt.Sprintf("id:%d", r.Given))
	}
	if alias := phaseNames[r.Phase]; sub && x.G.Bool(1, 2) { // the phase of a chain is that of its first rule
	} else if alias != "" && x.G.Bool(1, 6) {
		acts = append(acts, "phase:"+alias)
	} else {
		acts = append(acts, fmt.Sprintf("phase:%d", r.Phase))
	}
	if x.G.Bool(1, 8) {
		acts = append(acts, "tag:"+[]string{"a", "'b c'", "OWASP/x"}[x.G.Choose(3)])
	}
	for _, t := range r.Trans {
		acts = append(acts, "t:"+t)
	}
	if chain {
		acts = append(acts, "chain")
	}
	for _, a := range r.Acts {
		if a.custom() {
			continue
		}
		if a.Arg != "" && x.G.Bool(1, 12) {
			acts = append(acts, a.Name+":'"+a.Arg+"'")
		} else if a.Arg != "" {
			acts = append(acts, a.Name+":"+a.Arg)
		} else {
			acts = append(acts, a.Name)
		}
	}
	if len(acts) == 0 || x.G.Bool(1, 4) {
		acts = append(acts, "msg:'some text'")
	}
	op := "@" + r.Op + " " + secQuote(r.Arg)
	if r.Op == "rx" && x.G.Bool(1, 3) && r.Arg != "" && !strings.HasPrefix(r.Arg, "@") && !strings.HasPrefix(r.Arg, "!") {
		op = secQuote(r.Arg)
	}
	if r.Not {
		op = "!" + op
	}
	actSep := ","
	if x.G.Bool(1, 3) {
		actSep = ",\\" + nl + ind + " "
	}
	cont := " "
	if x.G.Bool(1, 4) {
		cont = " \\" + nl + "   "
	}
	fmt.Fprintf(b, "%sSecRule %s \"%s\"%s\"%s\"%s", ind, strings.Join(vs, sep), op, cont, strings.Join(acts, actSep), nl)
	if x.G.Bool(1, 6) {
		b.WriteString(nl)
	}
}

func onOff(x *X, v bool) string {
	if v {
		return []string{"On", "on", "\"On\""}[x.G.Choose(3)]
	}
	return []string{"Off", "off", "'Off'"}[x.G.Choose(3)]
}

func (sp *SetSpec) render(x *X) {
	var b strings.Builder
	if sp.SetMode {
		fmt.Fprintf(&b, "SecRuleEngine %s\n", []string{"On", "Off", "DetectionOnly"}[sp.Mode])
	}
	fmt.Fprintf(&b, "SecRequestBodyAccess %s\n", onOff(x, sp.ReqBody))
	fmt.Fprintf(&b, "SecResponseBodyAccess %s\n", onOff(x, sp.ResBody))
	for _, r := range sp.Rules {
		renderRule(x, &b, r, len(r.Subs) > 0, false)
		for i, s := range r.Subs {
			renderRule(x, &b, s, i+1 < len(r.Subs), true)
		}
	}
	sp.Text = b.String()
}

// ---- generating specifications

type specOpt struct {
	rules      int // at most
	chains     bool
	deny       int // weights of actions
	allow      int
	pass       int
	skip       int
	block      int
	status     int
	log        int
	steer      int // weight of actions that steer the transaction themselves
	bodyVars   int // weight of body variables
	plainVars  int // weight of other engine variables
	consts     int // weight of constant variables
	matchBias  bool
	seclang    int  // n in 4 sets are loaded from SecLang
	everyPhase bool // a rule that always matches in each phase
	probes     bool
	trans      bool // most rules transform
}

var (
	plainVars = []string{"REMOTE_ADDR", "REQUEST_METHOD", "ARGS_GET", "REQUEST_HEADERS", "REQUEST_URI", "QUERY_STRING", "ARGS_GET_NAMES",
		"REQUEST_HEADERS_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_PROTOCOL", "REQUEST_FILENAME", "REQUEST_BASENAME",
		"RESPONSE_STATUS", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_CONTENT_TYPE", "RESPONSE_CONTENT_LENGTH", "RESPONSE_PROTOCOL"}
	bodyVars = []string{"REQUEST_BODY", "ARGS_POST", "ARGS", "ARGS_POST_NAMES", "ARGS_NAMES", "RESPONSE_BODY"}
	selVars  = map[string][]string{"ARGS": msgKeys, "ARGS_GET": msgKeys, "ARGS_POST": msgKeys, "ARGS_NAMES": msgKeys, "ARGS_GET_NAMES": msgKeys,
		"ARGS_POST_NAMES": msgKeys, "REQUEST_COOKIES": msgKeys, "REQUEST_COOKIES_NAMES": msgKeys, "REQUEST_HEADERS": hdrNames,
		"REQUEST_HEADERS_NAMES": hdrNames, "RESPONSE_HEADERS": {"X-A", "Server", "X-R"}, "RESPONSE_HEADERS_NAMES": {"X-A", "Server", "X-R"}}
	rxArgs    = []string{"v1", "attack", "^a", "1", "^$", "[0-9]+", "x y", ".", "^/a", `a\+b`, "GET|POST", "html", "zzz", `\d\d`, "p{3}", "^(v|a)"}
	numArgs   = []string{"0", "1", "2", "10", "-1", "200", "404"}
	constVals = []string{"v1", "attack", "1", "10", "", "ATTACK"}
	transList = []string{"none", "lowercase", "urlDecode", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls", "urlDecodeUni"}
)

func genVars(x *X, o specOpt) []VarSpec {
	var r []VarSpec
	used := map[string]bool{}
	for n := 1 + x.G.Pick(6, 2, 1); n > 0; n-- {
		var v VarSpec
		switch x.G.Pick(o.plainVars, o.bodyVars, o.consts) {
		case 0:
			v.Name = plainVars[x.G.Choose(len(plainVars))]
		case 1:
			v.Name = bodyVars[x.G.Choose(len(bodyVars))]
		case 2:
			v.Name = "CONST"
			for k := x.G.Pick(1, 6, 2); k > 0; k-- {
				v.Vals = append(v.Vals, constVals[x.G.Choose(len(constVals))])
			}
			r = append(r, v)
			continue
		}
		v.Count = x.G.Bool(1, 8)
		if keys := selVars[v.Name]; keys != nil && x.G.Bool(1, 3) {
			switch x.G.Pick(3, 2, 1, 2) {
			case 0:
				for k := 1 + x.G.Choose(2); k > 0; k-- {
					v.Incl = append(v.Incl, keys[x.G.Choose(len(keys))])
				}
			case 1:
				if !v.Count {
					v.Excl = append(v.Excl, keys[x.G.Choose(len(keys))])
				}
			case 2:
				v.Incl = append(v.Incl, []string{"/^[a-b]/", "/X/", "/^u/"}[x.G.Choose(3)])
			case 3:
				v.Incl = append(v.Incl, keys[x.G.Choose(len(keys))])
				if !v.Count {
					v.Excl = append(v.Excl, keys[x.G.Choose(len(keys))])
				}
			}
		}
		k := fmt.Sprint(v.Name, v.Count)
		if used[k] || used[v.Name] {
			continue
		}
		used[k], used[v.Name] = true, true
		r = append(r, v)
	}
	return r
}

// distinct keeps the first variable of each name.
func distinct(vs []VarSpec) []VarSpec {
	var r []VarSpec
	seen := map[string]bool{}
	for _, v := range vs {
		if v.Name == "CONST" || !seen[v.Name] {
			r = append(r, v)
		}
		seen[v.Name] = true
	}
	return r
}

func genOp(x *X, o specOpt, r *RuleSpec) {
	if o.matchBias && x.G.Bool(1, 2) {
		r.Op, r.Arg = "rx", []string{"", "^", "(?s)."}[x.G.Choose(3)]
		if r.Arg == "" {
			r.Arg = "^"
		}
		return
	}
	if x.G.Bool(1, 3) {
		r.Op, r.Arg = []string{"eq", "ge", "gt", "le", "lt"}[x.G.Choose(5)], numArgs[x.G.Choose(len(numArgs))]
		if x.G.Bool(1, 15) {
			odd := []string{" 10", "2 ", "\t1", "+2", "007", " -3 ", "9223372036854775807", "-9223372036854775808", "-0"}
			r.Arg = odd[x.G.Choose(len(odd))]
		}
	} else {
		r.Op, r.Arg = "rx", rxArgs[x.G.Choose(len(rxArgs))]
	}
	r.Not = x.G.Bool(1, 4)
}

var statusArgs = []string{"404", "500", "0", "99", "600", "100", "599", "200", "302", "-5"}

func genActs(x *X, o specOpt, allow *bool) []ActSpec {
	var r []ActSpec
	for n := x.G.Pick(1, 6, 4, 2); n > 0; n-- {
		var a ActSpec
		switch x.G.Pick(o.log+1, o.deny, o.allow, o.pass, o.skip, o.block, o.status, o.steer) {
		case 0:
			a.Name = "log"
		case 1:
			a.Name = "deny"
		case 2:
			if *allow {
				continue
			}
			*allow = true
			a.Name, a.Arg = "allow", []string{"", "phase", "request"}[x.G.Choose(3)]
		case 3:
			a.Name = "pass"
		case 4:
			a.Name = "skip"
		case 5:
			a.Name = "block"
		case 6:
			a.Name, a.Arg = "status", statusArgs[x.G.Choose(len(statusArgs))]
		case 7:
			a = genSteer(x, o, allow)
		}
		r = append(r, a)
	}
	return r
}

// addProbes puts probes of several groups among the actions of a rule.
func addProbes(x *X, r *RuleSpec, seclang bool) {
	groups := []int{2}
	for g := 0; g < modsecurity.ActionGroupCount; g++ {
		if x.G.Bool(1, 4) {
			groups = append(groups, g)
		}
	}
	if x.G.Bool(1, 30) {
		for n := 8 + x.G.Choose(20); n > 0; n-- {
			groups = append(groups, x.G.Choose(modsecurity.ActionGroupCount))
		}
	}
	for n, g := range groups {
		p := ActSpec{Name: "probe", Group: g, N: n}
		if seclang {
			r.Acts = append(r.Acts, p)
			continue
		}
		i := x.G.Choose(len(r.Acts) + 1)
		r.Acts = append(r.Acts[:i:i], append([]ActSpec{p}, r.Acts[i:]...)...)
	}
}

func genSet(x *X, o specOpt) *SetSpec {
	sp := &SetSpec{ReqBody: true, ResBody: true, Dir: "/data/waf"}
	sp.SecLang = x.G.Choose(4) < o.seclang
	if sp.SecLang {
		o.pass, o.consts = 0, 0
		if o.plainVars == 0 && o.bodyVars == 0 {
			o.plainVars = 1
		}
	}
	id := 100
	maxPhase := 6
	if sp.SecLang {
		maxPhase = 5
	}
	n := 1 + x.G.Choose(o.rules)
	crowd := o.rules > 1 && x.G.Bool(1, 250)
	if crowd {
		n = 15 + x.G.Choose(130)
		if x.G.Bool(3, 4) { // most of which run
			o.deny, o.allow, o.block, o.matchBias = 0, 0, 0, false
		}
		x.Hit("many-rules")
	}
	large := x.G.Bool(1, 40) // rules with many parts
	dallow := false
	if o.block > 0 && x.G.Bool(3, 4) {
		od := o
		od.block = 0
		sp.Defaults = genActs(x, od, &dallow)
		if o.probes && x.G.Bool(1, 2) {
			sp.Defaults = append(sp.Defaults, ActSpec{Name: "probe", N: 90, Group: 2})
		}
	}
	for i := 0; i < n; i++ {
		id++
		r := &RuleSpec{ID: id, Phase: 1 + x.G.Choose(maxPhase)}
		if len(sp.Rules) > 0 && (x.G.Bool(1, 2) || crowd && x.G.Bool(39, 40)) {
			r.Phase = sp.Rules[len(sp.Rules)-1].Phase
		}
		allow := dallow // a rule may execute one allow
		fill := func(r *RuleSpec) {
			r.Vars = genVars(x, o)
			if large && x.G.Bool(1, 3) {
				for k := 3 + x.G.Choose(9); k > 0; k-- {
					r.Vars = append(r.Vars, genVars(x, o)...)
				}
				r.Vars = distinct(r.Vars)
				x.Hit("many-variables")
			}
			if x.G.Bool(1, 4) || o.trans && x.G.Bool(1, 2) {
				for k := 1 + x.G.Choose(2); k > 0; k-- {
					r.Trans = append(r.Trans, transList[x.G.Choose(len(transList))])
				}
			}
			if large && x.G.Bool(1, 4) {
				for k := 3 + x.G.Choose(8); k > 0; k-- {
					r.Trans = append(r.Trans, transList[x.G.Choose(len(transList))])
				}
				x.Hit("many-transformations")
			}
			genOp(x, o, r)
			r.Acts = genActs(x, o, &allow)
			if o.probes && (len(r.Acts) == 0 || x.G.Bool(5, 6)) {
				addProbes(x, r, sp.SecLang)
			}
		}
		fill(r)
		if o.chains && x.G.Bool(1, 3) {
			k := 1 + x.G.Pick(4, 2, 1)
			if large && x.G.Bool(1, 2) {
				k = 4 + x.G.Choose(12)
				x.Hit("long-chain")
			}
			for ; k > 0; k-- {
				id++
				s := &RuleSpec{ID: id, Phase: r.Phase}
				fill(s)
				r.Subs = append(r.Subs, s)
			}
		}
		sp.Rules = append(sp.Rules, r)
	}
	if o.everyPhase {
		for p := 1; p <= maxPhase; p++ {
			id++
			r := &RuleSpec{ID: id, Phase: p, Vars: []VarSpec{{Name: "REMOTE_ADDR"}}, Op: "rx", Arg: "^"}
			if x.G.Bool(1, 4) {
				r.Acts = append(r.Acts, ActSpec{Name: "log"})
			}
			r.Acts = append(r.Acts, ActSpec{Name: "probe", Group: 2})
			i := x.G.Choose(len(sp.Rules) + 1)
			sp.Rules = append(sp.Rules[:i:i], append([]*RuleSpec{r}, sp.Rules[i:]...)...)
		}
	}
	if x.G.Bool(1, 2) { // ids say nothing about the order
		var all []*RuleSpec
		for _, r := range sp.Rules {
			all = append(append(all, r), r.Subs...)
		}
		for i := len(all) - 1; i > 0; i-- {
			j := x.G.Choose(i + 1)
			all[i].ID, all[j].ID = all[j].ID, all[i].ID
		}
	}
	odd := x.G.Bool(1, 3)
	for _, r := range sp.Rules {
		for i, v := range append([]*RuleSpec{r}, r.Subs...) {
			v.Given = v.ID
			switch {
			case i > 0 && x.G.Bool(1, 2), odd && x.G.Bool(1, 4):
				v.Given = 0
			case odd && x.G.Bool(1, 4):
				v.Given = sp.Rules[0].ID
				x.Hit("rules-with-one-id")
			}
		}
	}
	if sp.SecLang {
		for _, r := range sp.Rules {
			for _, v := range append([]*RuleSpec{r}, r.Subs...) { // custom actions are appended later
				sort.SliceStable(v.Acts, func(i, j int) bool { return !v.Acts[i].custom() && v.Acts[j].custom() })
			}
		}
		sp.render(x)
	}
	return sp
}

var rxCache = map[string]*regexp.Regexp{}

func rx(s string) *regexp.Regexp {
	r := rxCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		rxCache[s] = r
	}
	return r
}
