package main

import (
	"bytes"
	"fmt"
	"mime"
	"mime/multipart"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// mtx is the reference interpreter of one transaction: what the rules and notifications
// mean, written down independently of the engine.
type mtx struct {
	sp  *SetSpec
	msg *Msg

	mode                 int // 0 on, 1 off, 2 detection only
	conn, url, hdr, rhdr bool
	cur, done            int
	abort, dis           bool
	abortStatus          int
	status, logs         int
	denyStatus           int // from status actions, 0 without one
	reqAck, resAck       []byte
	reqRead, resRead     bool
	bodyErr              bool
	formDone             bool
	form                 map[string][]string
	mpDone               bool
	mp                   map[string][]string
	evals                int
	byPhase              map[int][]*RuleSpec
	live                 *liveSpec // configuration that changes while the transaction is open, when it may
	logLines             []string  // how the lines that are not collected begin
	next                 int       // index of the next rule in the running phase
	events               []string
	fired                []int // ids of the rules that fired, in order
	ranPhases            []int // phases whose rules were considered, in order
	uninspectable        bool
	went                 map[string]bool        // jumps back that were made
	base                 *Msg                   // the message of the run, when msg is what was reported last
	see                  func(id int, v string) // is told what operators are asked
}

// liveSpec is the configuration that transactions share.
type liveSpec struct {
	byPhase  map[int][]*RuleSpec
	defaults []ActSpec
	access   *access
}

type access struct{ req, res bool }

// follow makes the transaction follow changes of the configuration.
func (t *mtx) follow(l *liveSpec) {
	t.live, t.byPhase = l, l.byPhase
}

func (t *mtx) defaults() []ActSpec {
	if t.live != nil {
		return t.live.defaults
	}
	return t.sp.Defaults
}

func (t *mtx) reqAccess() bool {
	if t.live != nil {
		return t.live.access.req
	}
	return t.sp.ReqBody
}

func (t *mtx) resAccess() bool {
	if t.live != nil {
		return t.live.access.res
	}
	return t.sp.ResBody
}

// line is the writing of a log line.
func (t *mtx) line() {
	src, port := "", ""
	if t.conn {
		src, port = t.msg.Src, t.msg.SPort
	}
	l := fmt.Sprintf("[client %s:%s] (phase ", src, port)
	if t.cur == t.done { // else the phase was left, by the same rule
		l += fmt.Sprintf("%d) ", t.cur)
	}
	t.logLines = append(t.logLines, l)
}

func newModel(sp *SetSpec, m *Msg) *mtx {
	t := &mtx{sp: sp, msg: m, status: 200, byPhase: map[int][]*RuleSpec{}}
	if sp.SetMode {
		t.mode = sp.Mode
	}
	for _, r := range sp.Rules {
		t.byPhase[r.Phase] = append(t.byPhase[r.Phase], r)
	}
	return t
}

func (t *mtx) notify(p int) {
	if t.cur > p || t.done >= p {
		return
	}
	t.cur, t.done = p, p
	if t.abort || t.dis || t.mode == 1 {
		return
	}
	t.ranPhases = append(t.ranPhases, p)
	rules := t.byPhase[p]
	t.next = 0
	for t.cur == p && !t.dis && t.next < len(rules) {
		i := t.next
		t.next = i + 1
		t.rule(rules[i], i)
	}
}

func (t *mtx) rule(r *RuleSpec, i int) {
	if !t.match(r) {
		return
	}
	for _, s := range r.Subs {
		if !t.match(s) {
			return
		}
	}
	t.fired = append(t.fired, r.ID)
	t.actions(r.Acts, r.ID, i)
	for _, s := range r.Subs {
		t.actions(s.Acts, s.ID, i)
	}
}

func groupOf(a ActSpec) int {
	switch a.Name {
	case "status":
		return 1
	case "log":
		return 2
	case "deny", "pass", "allow", "block":
		return 3
	case "skip":
		return 4
	}
	return a.Group
}

func (t *mtx) actions(as []ActSpec, id, idx int) {
	for g := 0; g < 5; g++ {
		if g == 3 && t.mode == 2 {
			continue
		}
		for _, a := range as {
			if groupOf(a) == g {
				t.action(a, id, idx)
			}
		}
	}
}

func (t *mtx) leave(p int) {
	if p <= t.done {
		p = t.done + 1
	}
	if p > 7 {
		p = 7
	}
	t.cur = p
}

func (t *mtx) action(a ActSpec, id, idx int) {
	switch a.Name {
	case "status":
		t.denyStatus, _ = strconv.Atoi(a.Arg)
	case "log":
		t.logs++
		t.line()
	case "deny":
		if t.status == 200 {
			if t.denyStatus >= 100 && t.denyStatus <= 599 {
				t.status = t.denyStatus
			} else {
				t.status = 403
			}
		}
		t.dis = true
		t.logs++
		t.line()
	case "pass":
		t.dis, t.status, t.logs, t.logLines = false, 200, 0, nil
	case "allow":
		switch a.Arg {
		case "":
			t.leave(6)
		case "phase":
			t.leave(t.done + 1)
		case "request":
			t.leave(4)
		}
	case "block":
		t.actions(t.defaults(), 0, idx)
	case "skip":
		if t.cur == t.done { // still in this phase
			t.next = idx + 2
		}
	default:
		t.steer(a, id, idx)
	case "probe":
		t.events = append(t.events, probeEvent(id, a.N, t.dis, t.status))
	}
}

func (t *mtx) match(r *RuleSpec) bool {
	var vals []string
	for _, v := range r.Vars {
		vals = append(vals, t.fetch(v)...)
	}
	for _, v := range vals {
		for _, tr := range r.Trans {
			v = modelTrans(tr, v)
		}
		if t.abort {
			return false
		}
		t.evals++
		if t.see != nil {
			t.see(r.ID, v)
		}
		if r.Not != modelOp(r.Op, r.Arg, v) {
			return true
		}
	}
	return false
}

func modelOp(op, arg, v string) bool {
	if op == "rx" {
		return rx(arg).MatchString(v)
	}
	a, _ := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	n, err := strconv.ParseInt(strings.TrimSpace(v), 10, 64)
	if err != nil {
		n = 0
	}
	switch op {
	case "eq":
		return n == a
	case "ge":
		return n >= a
	case "gt":
		return n > a
	case "le":
		return n <= a
	}
	return n < a
}

func modelTrans(tr, v string) string {
	switch tr {
	case "lowercase":
		return strings.ToLower(v)
	case "compressWhitespace":
		for strings.Contains(v, "  ") {
			v = strings.ReplaceAll(v, "  ", " ")
		}
	case "removeWhitespace":
		return strings.ReplaceAll(v, " ", "")
	case "removeNulls":
		return strings.ReplaceAll(v, "\x00", "")
	case "replaceNulls":
		return strings.ReplaceAll(v, "\x00", " ")
	case "urlDecode", "urlDecodeUni":
		var b []byte
		for i := 0; i < len(v); i++ {
			switch {
			case tr == "urlDecodeUni" && uniEscape.MatchString(v[i:]):
				n, _ := strconv.ParseUint(v[i+2:i+6], 16, 16)
				if n >= 0xff00 {
					n = n&0xff + 0x20
				}
				b = append(b, string(rune(n))...)
				i += 5
			case v[i] == '+':
				b = append(b, ' ')
			case v[i] == '%' && i+2 < len(v) && isHex(v[i+1]) && isHex(v[i+2]):
				n, _ := strconv.ParseUint(v[i+1:i+3], 16, 8)
				b = append(b, byte(n))
				i += 2
			default:
				b = append(b, v[i])
			}
		}
		return string(b)
	}
	return v
}

var uniEscape = regexp.MustCompile(`^%[uU][0-9a-fA-F]{4}`)

func isHex(c byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }

// abortTooLarge is what an uninspectable body does.
func (t *mtx) abortTooLarge() {
	t.bodyErr = true
	t.uninspectable = true
	t.logs++
	t.line()
	if t.mode != 2 {
		t.abort, t.dis, t.status, t.abortStatus = true, true, 413, 413
	}
}

func toMap(kv []KV) map[string][]string {
	m := map[string][]string{}
	for _, e := range kv {
		m[e.K] = append(m[e.K], e.V)
	}
	return m
}

func (t *mtx) bodyAvailable() bool {
	if !t.url || len(t.reqAck) == 0 || !t.reqAccess() {
		return false
	}
	return t.msg.Method == "POST" || t.msg.Method == "PUT" || t.msg.Method == "PATCH"
}

func (t *mtx) spilled() bool { return int64(len(t.reqAck)) > t.sp.InMem && t.sp.InMem > 0 }

// postArgs is the reference for the arguments of the body.
func (t *mtx) postArgs() map[string][]string {
	if !t.bodyAvailable() || !t.hdr {
		return nil
	}
	ct, params, _ := mime.ParseMediaType(t.msg.CT)
	switch {
	case ct == formCT:
		t.reqRead = true
		if t.formDone {
			return t.form
		}
		t.formDone = true
		if t.spilled() {
			t.abortTooLarge()
			return nil
		}
		v, err := url.ParseQuery(string(t.reqAck))
		if err != nil {
			t.bodyErr = true
		}
		t.form = v
		return v
	case strings.HasPrefix(ct, "multipart/"):
		t.reqRead = true
		if t.mpDone {
			return t.mp
		}
		t.mpDone = true
		f, err := multipart.NewReader(bytes.NewReader(t.reqAck), params["boundary"]).ReadForm(1 << 30)
		if err == multipart.ErrMessageTooLarge { // also what a long malformed part header gives
			t.abortTooLarge()
			return nil
		}
		if err != nil {
			t.bodyErr = true
			return nil
		}
		t.mp = f.Value
		return t.mp
	}
	return nil
}

func (t *mtx) fetch(v VarSpec) []string {
	r := t.fetchAll(v)
	if v.Count {
		return []string{strconv.Itoa(len(r))}
	}
	return r
}

func (t *mtx) headers() map[string][]string {
	if !t.hdr {
		return nil
	}
	return t.msg.Header()
}

func cookieMap(kv []KV, hdr bool) map[string][]string {
	if !hdr {
		return nil
	}
	return toMap(kv)
}

func (t *mtx) fetchAll(v VarSpec) []string {
	m := t.msg
	var query map[string][]string
	if t.url {
		query = t.msg.URL().Query()
	}
	switch v.Name {
	case "CONST":
		return v.Vals
	case "REMOTE_ADDR":
		if !t.conn {
			return []string{""}
		}
		return []string{m.Src}
	case "REQUEST_METHOD":
		if !t.url {
			return []string{""}
		}
		return []string{m.Method}
	case "REQUEST_PROTOCOL":
		if !t.url {
			return []string{""}
		}
		return []string{m.Proto}
	case "RESPONSE_PROTOCOL":
		if !t.rhdr {
			return []string{""}
		}
		return []string{m.RProto}
	case "RESPONSE_STATUS":
		if !t.rhdr {
			return []string{"0"}
		}
		return []string{strconv.Itoa(m.Code)}
	case "QUERY_STRING":
		if t.url {
			return []string{m.RawQuery}
		}
	case "REQUEST_URI":
		if t.url {
			if m.RawQuery == "" {
				return []string{m.Path}
			}
			return []string{m.Path + "?" + m.RawQuery}
		}
	case "REQUEST_FILENAME":
		if t.url {
			p, _ := url.PathUnescape(m.Path)
			return []string{p}
		}
	case "REQUEST_BASENAME":
		if t.url {
			p, _ := url.PathUnescape(m.Path)
			return []string{path.Base(p)}
		}
	case "ARGS_GET":
		return pick(v, query, false)
	case "ARGS_GET_NAMES":
		return pick(v, query, true)
	case "ARGS_POST":
		return pick(v, t.postArgs(), false)
	case "ARGS_POST_NAMES":
		return pick(v, t.postArgs(), true)
	case "ARGS":
		return append(pick(v, query, false), pick(v, t.postArgs(), false)...)
	case "ARGS_NAMES":
		return append(pick(v, query, true), pick(v, t.postArgs(), true)...)
	case "REQUEST_HEADERS":
		return pick(v, t.headers(), false)
	case "REQUEST_HEADERS_NAMES":
		if t.url {
			return pick(v, t.headers(), true)
		}
	case "REQUEST_COOKIES":
		return pick(v, cookieMap(m.Cookies, t.hdr), false)
	case "REQUEST_COOKIES_NAMES":
		return pick(v, cookieMap(m.Cookies, t.hdr), true)
	case "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES":
		if t.rhdr {
			return pick(v, m.RHeader(), v.Name == "RESPONSE_HEADERS_NAMES")
		}
	case "RESPONSE_CONTENT_TYPE":
		if t.rhdr {
			if l := m.RHeader()["Content-Type"]; len(l) > 0 {
				ct, _, _ := mime.ParseMediaType(l[0])
				return []string{ct}
			}
		}
		return []string{"application/octet-stream"}
	case "RESPONSE_CONTENT_LENGTH":
		if t.rhdr {
			if l := m.RHeader()["Content-Length"]; len(l) > 0 {
				return []string{l[0]}
			}
		}
		return []string{"0"}
	case "REQUEST_BODY":
		if !t.bodyAvailable() || !t.hdr {
			return nil
		}
		if ct, _, _ := mime.ParseMediaType(m.CT); ct != formCT {
			return nil
		}
		t.reqRead = true
		if t.spilled() {
			t.abortTooLarge()
			return nil
		}
		return []string{string(t.reqAck)}
	case "RESPONSE_BODY":
		if !t.resAccess() || len(t.resAck) == 0 {
			return nil
		}
		t.resRead = true
		return []string{string(t.resAck)}
	}
	return nil
}

// pick applies the selectors of a variable, in a fixed order.
func pick(v VarSpec, m map[string][]string, names bool) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var r []string
	for _, k := range keys {
		if len(v.Incl) > 0 {
			ok := false
			for _, i := range v.Incl {
				if len(i) >= 2 && i[0] == '/' && i[len(i)-1] == '/' {
					ok = ok || rx(i[1:len(i)-1]).MatchString(k)
				} else {
					ok = ok || i == k
				}
			}
			if !ok {
				continue
			}
		}
		skip := false
		for _, e := range v.Excl {
			skip = skip || e == k
		}
		if skip {
			continue
		}
		if names {
			r = append(r, k)
		} else {
			r = append(r, m[k]...)
		}
	}
	return r
}

// step applies a script step; ok says whether an append must be accepted.
func (t *mtx) step(s Step) (ok bool) {
	if s.M != nil || t.base != nil {
		t.report(s)
	}
	switch s.Op {
	case oConn:
		t.conn = true
	case oURL:
		t.url = true
	case oReqHdr:
		t.hdr = true
	case oResHdr:
		t.rhdr = true
	case oReqApp:
		lim := t.sp.ReqLimit
		if lim == 0 {
			lim = 134217728
		}
		if t.reqRead || int64(len(t.reqAck)+len(s.Chunk)) > lim {
			t.bodyErr = true
			return false
		}
		t.reqAck = append(t.reqAck, s.Chunk...)
		return true
	case oResApp:
		lim := t.sp.ResLimit
		if lim == 0 {
			lim = 524228
		}
		if t.resRead || int64(len(t.resAck)+len(s.Chunk)) > lim {
			return false
		}
		t.resAck = append(t.resAck, s.Chunk...)
		return true
	case oMode:
		t.mode = s.Mode
	}
	if p := opPhase[s.Op]; p != 0 {
		t.notify(p)
	}
	return true
}

func (t *mtx) collect() (dis bool, status, logs int) {
	dis, status, logs = t.dis, t.status, t.logs
	if !t.abort {
		t.dis, t.status, t.logs, t.logLines = false, 200, 0, nil
	}
	return
}

func (t *mtx) String() string {
	return fmt.Sprintf("phase %d done %d abort %v disruptive %v status %d", t.cur, t.done, t.abort, t.dis, t.status)
}
