package main

import (
	"fmt"
	"net/http"
	"net/url"
	"runtime/metrics"
	"strings"

	"verifsim/r/modsecurity"
)

// ---- C15: damaged requests

var weird = []string{"", "%", "%%", "%u", "%u0", "%u00", "%u00e", "%u00e9", "%U00E", "%uff", "%uff4", "%uff41", "%uFFFF", "%ud800", "%u000", "%4", "///", "   ", "\x00\x00", "\\\\", "--", "=\"", "\"", "'", ",", "%zz", "a%2", ";", "=", "&", "a=b=c", ";;;", "\x00", "\xff\xfe", "é", "a\r\nb", "  ", "\t", "%00", "+", strings.Repeat("%", 30), strings.Repeat("a;", 20), "0x10", "99999999999999999999", "-", "/", "//", "?", "#", "\\"}

func weirdString(x *X, max int) string {
	var b strings.Builder
	for n := x.G.Choose(max + 1); n > 0; n-- {
		if x.G.Bool(1, 4) {
			b.WriteByte(byte(x.G.Choose(256)))
		} else {
			b.WriteString(weird[x.G.Choose(len(weird))])
		}
	}
	return b.String()
}

func (b *badMsg) measure() {
	b.size = len(b.Method) + len(b.Body) + len(b.RBody)
	b.size += len(b.u.Path) + len(b.u.RawQuery) + len(b.u.Opaque) + len(b.u.Fragment)
	for _, h := range []http.Header{b.h, b.rh} {
		for k, v := range h {
			for _, s := range v {
				b.size += len(k) + len(s) + 4
			}
		}
	}
}

// big repeats pieces to n bytes or so.
func big(x *X, n int, pieces ...string) string {
	p := pieces[x.G.Choose(len(pieces))]
	return strings.Repeat(p, n/len(p)+1)
}

// badMsg is a message in which anything may be wrong.
type badMsg struct {
	*Msg
	u     *url.URL
	h, rh http.Header
	size  int
}

func genBad(x *X) *badMsg {
	b := &badMsg{Msg: genMsg(x, msgOpt{bodyBias: x.G.Bool(2, 3), maxPad: 200})}
	if x.G.Bool(1, 2) { // odd values in well-formed places
		odd := func() []KV {
			var r []KV
			for n := 1 + x.G.Choose(3); n > 0; n-- {
				r = append(r, KV{weirdString(x, 1), weirdString(x, 3)})
			}
			return r
		}
		switch x.G.Choose(3) {
		case 0:
			b.RawQuery = encodeKVs(odd())
		case 1:
			b.CT, b.Body = formCT, []byte(encodeKVs(odd()))
		case 2:
			b.CT, b.Body = multipartBody(x, odd(), 40)
		}
		x.Hit("odd-values")
	}
	large := 0
	if x.G.Bool(1, 25) {
		large = 2000 << x.G.Choose(5)
		x.Hit("large-message")
	}
	if x.G.Bool(1, 2) {
		damage(x, &b.Body)
	}
	if x.G.Bool(1, 3) {
		damageCT(x, b.Msg)
	}
	if x.G.Bool(1, 8) {
		b.Method = []string{"", "post", "POST ", "DELETE", "\x00", "PUT"}[x.G.Choose(6)]
	}
	if large > 0 {
		switch x.G.Choose(5) {
		case 0:
			b.Body = []byte(big(x, large, "a=b&", "a&", "&", "%41", "%", "a=%zz&", "; ", "a[]=1&", "+"))
			if x.G.Bool(1, 2) { // one large value
				b.Body = []byte("a=" + big(x, large, "+", "%20", "%00", "%2541", "%25u0041", "A", "%25", "%0d%0a", "%c3%a9", "/", "a+", "++b", "%2520"))
				b.CT, b.Method = formCT, "POST"
			}
		case 1:
			b.CT = "multipart/form-data; boundary=b"
			b.Body = []byte(big(x, large, "--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n", "--b\r\n", "\r\n--", "-", "\r\n", "--b\r\nA: b\r\n", "--b\r\n\r\n\r\n", "\r\n--b "))
			if x.G.Bool(1, 3) {
				b.Body = append([]byte("--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n"), b.Body...)
			}
			if x.G.Bool(1, 2) {
				b.Method = "POST"
			}
		case 2:
			b.RawQuery = big(x, large, "a=b&", "a&", "&", "%41", "%", "a=%zz&", ";", "+")
			if x.G.Bool(1, 2) {
				b.RawQuery = "a=" + big(x, large, "+", "%20", "%00", "%2541", "%25u0041", "A", "%25", "%0d%0a", "%c3%a9", "/", "a+", "++b", "%2520")
			}
		case 3:
			b.RBody = []byte(big(x, large, "<a>", "x"))
		case 4:
			b.Path = "/" + big(x, large, "/", "a/", "..")
		}
	}
	b.u = &url.URL{Path: b.Path, RawQuery: b.RawQuery}
	switch x.G.Pick(6, 1, 1, 1, 1) {
	case 1:
		b.u = &url.URL{}
	case 2:
		b.u.Opaque = weirdString(x, 4)
	case 3:
		b.u.Path = weirdString(x, 5)
		b.u.Fragment = weirdString(x, 3)
		b.u.Host = "h"
	case 4:
		b.u.RawQuery = weirdString(x, 8)
	}
	b.h, b.rh = b.Header(), b.RHeader()
	mess := func(h http.Header) http.Header {
		switch x.G.Pick(5, 1, 2, 2, 1) {
		case 1:
			return nil
		case 2:
			h[weirdString(x, 2)] = []string{weirdString(x, 4), weirdString(x, 2)}
		case 3:
			h["Cookie"] = []string{weirdString(x, 6), weirdString(x, 3)}
		case 4:
			for _, k := range []string{"Content-Type", "Content-Length", "Cookie", "X-A"} {
				switch x.G.Choose(4) {
				case 0:
					h[k] = nil
				case 1:
					h[k] = []string{}
				case 2:
					h[k] = []string{weirdString(x, 4)}
				}
			}
		}
		if large > 0 && x.G.Bool(1, 4) {
			h["Cookie"] = []string{big(x, large, "a=b; ", ";", "a;", "=", " ")}
		}
		if large > 0 && x.G.Bool(1, 6) {
			for i := 0; i < large/20; i++ {
				h[fmt.Sprintf("X-%d", i)] = []string{"v"}
			}
		}
		return h
	}
	b.h, b.rh = mess(b.h), mess(b.rh)
	if x.G.Bool(1, 6) {
		b.Code = []int{0, -1, 99999, 100}[x.G.Choose(4)]
	}
	b.measure()
	return b
}

// focused makes a large value of one kind and one or two rules that look at it.
func focused(x *X) (*SetSpec, *badMsg) {
	pieces := []string{" ", "a", "A", "+", "%", "%20", "%00", "%2541", "%25u0041", "%u", "\x00", "/", ".", "-", "=", "&", ";", ",", "\\", "\"", "a ", " a", "a/", "/.", "..", "\r\n", "\r", "\n", "a=b;", "a=b&", "0", "9", "é", "ÀB", "<", "aA "}
	p := pieces[x.G.Choose(len(pieces))]
	if x.G.Bool(1, 3) {
		p += pieces[x.G.Choose(len(pieces))]
	}
	n := 4000 << x.G.Choose(5)
	v := strings.Repeat(p, n/len(p)+1)
	if x.G.Bool(1, 8) { // encoded many times over
		e := []string{"25", "u0025", "U0025", "u002525"}[x.G.Choose(4)]
		v = "%" + strings.Repeat(e, n/len(e)) + []string{"41", "zz", "", "4", "00"}[x.G.Choose(5)]
	}
	if x.G.Bool(1, 3) {
		v = weirdString(x, 2) + v + weirdString(x, 2)
	}
	b := &badMsg{Msg: genMsg(x, msgOpt{maxPad: 50})}
	var vars []string
	phase := 5
	form := func(v string) string {
		if x.G.Bool(1, 2) {
			return "a=" + url.QueryEscape(v)
		}
		return "a=" + v
	}
	b.u = &url.URL{Path: b.Path, RawQuery: b.RawQuery}
	b.h, b.rh = b.Header(), b.RHeader()
	switch x.G.Choose(9) {
	case 0:
		b.u.RawQuery, vars = form(v), []string{"ARGS", "ARGS_GET", "QUERY_STRING", "REQUEST_URI"}
	case 1:
		b.u.RawQuery, vars = v, []string{"ARGS_NAMES", "ARGS_GET_NAMES", "QUERY_STRING"}
	case 2:
		b.Method, b.CT, b.Body, vars = "POST", formCT, []byte(form(v)), []string{"ARGS", "ARGS_POST", "REQUEST_BODY"}
		b.h = b.Header()
	case 3:
		b.Method, b.CT, b.Body, vars = "POST", formCT, []byte(v), []string{"ARGS_POST_NAMES", "ARGS_NAMES", "REQUEST_BODY"}
		b.h = b.Header()
	case 4:
		b.Method, vars = "POST", []string{"ARGS_POST", "ARGS_POST_NAMES", "ARGS", "REQUEST_BODY"}
		b.CT, b.Body = multipartBody(x, []KV{{"a", v}}, 10)
		b.h = b.Header()
	case 5:
		b.u.Path, vars = "/"+v, []string{"REQUEST_BASENAME", "REQUEST_FILENAME", "REQUEST_URI"}
	case 6:
		b.h["X-A"], vars = []string{v}, []string{"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES"}
	case 7:
		b.h["Cookie"], vars = []string{v}, []string{"REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS"}
		if x.G.Bool(1, 2) {
			b.h["Cookie"] = []string{"a=" + v}
		}
	case 8:
		b.rh["X-A"], b.rh["Content-Type"], b.RBody = []string{v}, []string{"text/html; " + v}, []byte(v)
		vars = []string{"RESPONSE_BODY", "RESPONSE_HEADERS", "RESPONSE_CONTENT_TYPE"}
	}
	names := []string{"lowercase", "none", "urlDecode", "urlDecodeUni", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}
	sp := &SetSpec{ReqBody: true, ResBody: true, Dir: "/data/waf"}
	for i := 0; i <= x.G.Choose(2); i++ {
		r := &RuleSpec{ID: 100 + i, Phase: phase, Vars: []VarSpec{{Name: vars[x.G.Choose(len(vars))], Count: x.G.Bool(1, 8)}}, Op: "rx", Arg: "attack$", Not: true, Acts: []ActSpec{{Name: "probe", Group: 2}}}
		if x.G.Bool(1, 4) {
			r.Op, r.Arg = "ge", "1"
		}
		for k := 1 + x.G.Choose(2); k > 0; k-- {
			r.Trans = append(r.Trans, names[x.G.Choose(len(names))])
		}
		if x.G.Bool(1, 6) {
			r.Vars[0].Incl = []string{"a"}
		}
		sp.Rules = append(sp.Rules, r)
	}
	b.measure()
	x.Hit("focused-large-value")
	return sp, b
}

// the most a notification may cost: measured at below 1/32 of this on the shipped code
func workBound(rules int, bytes int64) int64 {
	return 20000 + (int64(rules)+1)*(bytes+200)*40
}

// heapAllocs is what this process has allocated so far.
func heapAllocs() int64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

// the most a notification may allocate, measured at below 1/10 of this
func allocBound(rules int, bytes int64) int64 {
	return 64<<20 + (int64(rules)+1)*(bytes+200)*400
}

func ruleCount(sp *SetSpec) int {
	n := len(sp.Defaults)
	for _, r := range sp.Rules {
		n += 1 + len(r.Subs)
		for _, v := range append([]*RuleSpec{r}, r.Subs...) {
			n += len(v.Vars) + len(v.Trans)
		}
	}
	return n
}

func c15(x *X) {
	o := mixSpec(x, x.G.Bool(1, 4))
	o.rules = 8
	o.deny = x.G.Choose(2)
	o.trans = true
	sp := genSet(x, o)
	smallLimits(x, sp)
	var b *badMsg
	if x.G.Bool(1, 60) {
		sp, b = focused(x)
	} else {
		b = genBad(x)
	}
	x.traceSet(sp)
	script := append(genScript(x, b.Msg, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(7)}), Step{Op: oClose})
	x.Tracef("%s %q query %q CT %q body %s (%d bytes) headers %s response headers %s; %d bytes in all", b.Method, trunc(b.u.Path, 60), trunc(b.u.RawQuery, 60), trunc(b.CT, 80), q(b.Body), len(b.Body), trunc(fmt.Sprintf("%q", b.h), 300), trunc(fmt.Sprintf("%q", b.rh), 200), b.size)
	x.S.MapSeed = uint64(x.M.Choose(4))
	if x.G.Bool(1, 6) {
		x.planFaults(x.S.FS, allOps, 2)
	}
	to := recorders{}
	e := sp.build(x, to)
	x.impatient = true
	var tx *modsecurity.Transaction
	var err error
	x.Call("NewTransaction", 100000, func() { tx, err = e.NewTransaction() })
	if err != nil {
		return
	}
	rec := &recorder{}
	to[tx] = rec
	rules := ruleCount(sp)
	bound := workBound(rules, int64(b.size))
	for i, s := range script {
		st, al := x.S.Steps, heapAllocs()
		ne := len(rec.events)
		switch s.Op {
		case oCollect:
			x.Call("Result", 10000, func() { tx.Result() })
			continue
		case oURL:
			x.Call(s.String(), bound, func() { tx.ProcessRequestURL(b.u, b.Method, b.Proto) })
		case oReqHdr:
			x.Call(s.String(), bound, func() { tx.ProcessRequestHeader(b.h) })
		case oResHdr:
			x.Call(s.String(), bound, func() { tx.ProcessResponseHeaders(b.Code, b.RProto, b.rh) })
		default:
			x.Call(s.String(), bound, func() { apply(tx, e, b.Msg, s) })
		}
		used := x.S.Steps - st
		if used > bound { // what a library call cost is charged when it is made
			x.Fail("hang", "%v: took %d steps, the bound for %d bytes and %d rules is %d", s, used, b.size, rules, bound)
		}
		if n := heapAllocs() - al; n > allocBound(rules, int64(b.size)) {
			x.Fail("work", "%v: more than %d bytes were allocated for a message of %d bytes and %d rules", s, allocBound(rules, int64(b.size)), b.size, rules)
		}
		x.Tracef("%d %v: %d steps of %d, fired %v", i, s, used, bound, rec.events[ne:])
		if used*8 > bound {
			x.Hit("above-an-eighth-of-the-bound")
		}
		if used*2 > bound {
			x.Hit("above-half-of-the-bound")
		}
		if rec.evals > 0 {
			x.NonTrivial = true
		}
		x.State(s.Op, tx.Abort, tx.RequestBodyError != nil, len(rec.events) > ne, b.CT)
	}
}

func init() {
	register(&Check{ID: "C15", Quick: 600000, Thor: 10000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = a seeded rule set and a request in which URL, method, headers, cookies, content types and bodies are damaged, cut off, mislabelled or made large, delivered in a disturbed order of notifications, one in six with storage faults; no notification may panic or take more statements than a bound linear in message bytes times rules; non-trivial: an operator was evaluated",
		Run:  c15})
}
