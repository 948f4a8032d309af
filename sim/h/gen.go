package main

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"net/url"
	"strings"
)

// ---- messages

type KV struct{ K, V string }

const (
	bodyNone = iota
	bodyForm
	bodyMultipart
	bodyOther
)

// Msg is a request and its response.
type Msg struct {
	Src, SPort, Dst, DPort string
	Method, Proto, Path    string
	Query                  []KV
	RawQuery               string
	Abs                    string // scheme, user and host of an absolute-form request line
	Hdr                    []KV   // canonical names, without Cookie and Content-Type
	Cookies                []KV
	CookieStyle            int // how they are written
	CT                     string
	Kind                   int
	Body                   []byte
	Code                   int
	RProto                 string
	RHdr                   []KV
	RBody                  []byte
}

var (
	msgKeys = []string{"a", "b", "c", "id", "user"}
	msgVals = []string{"v1", "v2", "", "attack", "ATTACK", "1", "2", "10", "-3", "x y", "a  b", "cmd", "a+b", "100%", "q&a=b"}
	// values that are drawn now and then: what looks alike at first, unusual numbers,
	// escapes in escapes, text beyond ASCII
	oddVals = []string{strings.Repeat("filler ", 90) + "attack", strings.Repeat("0123456789abcde ", 270) + "attack", longPrefix + "attack", longPrefix + "v1", longPrefix, "007", "+5", " 10 ", "9223372036854775807", "9223372036854775808", "-0", "0x10", "1e1", "1_0",
		"%u0061ttack", "%uff41ttack", "%U00e9", "%u123", "%u12", "%uff0", "%uzzzz", "%41%54tack", "%2541", "%00", "a%", "%4", "%%41", "a%2", "a\x00b", "caf\u00e9", "\u4f60 \u597d", "ATT\u00c4CK",
		"  lead", "trail  ", "a   b    c", "a\r\nb", "a;b", "a=b", "attack\x00", "..", "/etc/passwd", "<script>", "' or 1=1", "\"quoted\"", "back\\slash", "a,b", "a|b", "#", "?x"}
	hdrNames = []string{"Host", "User-Agent", "X-A", "X-B", "Accept"}
)

var longPrefix = strings.Repeat("0123456789 abcdef ", 5)

var oddKeys = []string{"A", "", "a b", "a[]", "ID", "b.c", "k\u00e9y", "user-name", "x" + strings.Repeat("y", 70)}

func genVal(x *X, vals []string) string {
	if x.G.Bool(1, 8) {
		return oddVals[x.G.Choose(len(oddVals))]
	}
	return vals[x.G.Choose(len(vals))]
}

func genKVs(x *X, keys, vals []string, max int) []KV {
	var r []KV
	for n := x.G.Choose(max + 1); n > 0; n-- {
		k := keys[x.G.Choose(len(keys))]
		if x.G.Bool(1, 20) && &keys[0] == &msgKeys[0] {
			k = oddKeys[x.G.Choose(len(oddKeys))]
		} else if len(r) > 0 && x.G.Bool(1, 15) && &keys[0] == &msgKeys[0] { // much like another
			k = r[x.G.Choose(len(r))].K
			k = []string{strings.ToUpper(k), k, k + "[]", " " + k, k + ".x", "amp;" + k}[x.G.Choose(6)]
		}
		r = append(r, KV{k, genVal(x, vals)})
	}
	return r
}

func genSimple(x *X, keys, vals []string, max int) []KV {
	var r []KV
	for n := x.G.Choose(max + 1); n > 0; n-- {
		r = append(r, KV{keys[x.G.Choose(len(keys))], vals[x.G.Choose(len(vals))]})
	}
	return r
}

// many makes a lot of distinct names.
func many(x *X, name string, vals []string) []KV {
	var r []KV
	for i, n := 0, 12+x.G.Choose(140); i < n; i++ {
		r = append(r, KV{fmt.Sprintf("%s%d", name, i), vals[i%len(vals)]})
	}
	return r
}

func encodeKVs(kv []KV) string {
	var p []string
	for _, e := range kv {
		p = append(p, url.QueryEscape(e.K)+"="+url.QueryEscape(e.V))
	}
	return strings.Join(p, "&")
}

const formCT = "application/x-www-form-urlencoded"

type msgOpt struct {
	bodyBias bool // most messages carry a body
	maxPad   int  // bytes of padding in bodies
	crowd    int  // one in so many messages has very many names (0: few)
}

func genMsg(x *X, o msgOpt) *Msg {
	m := &Msg{
		Src: "10.0.0." + fmt.Sprint(1+x.G.Choose(3)), SPort: "1234", Dst: "10.1.0.1", DPort: "80",
		Method: "GET", Proto: "HTTP/1.1",
		Path: []string{"/", "/index.php", "/a/b/login", "/a/", "/x%20y"}[x.G.Choose(5)],
		Code: []int{200, 404, 500, 302}[x.G.Choose(4)], RProto: "HTTP/1.1",
	}
	m.Query = genKVs(x, msgKeys, msgVals, 3)
	simple := []string{"v1", "attack", "1", "10", "text", "V1"}
	hvals := []string{"v1", "attack", "1", "10", "text", "V1", longPrefix + "attack", longPrefix + "v1", "a  b", "%41", "007", "", "a, b"}
	m.Hdr = genSimple(x, hdrNames, hvals, 3)
	m.Cookies = genSimple(x, msgKeys, simple, 2)
	if len(m.Cookies) > 0 && x.G.Bool(1, 8) {
		c := &m.Cookies[x.G.Choose(len(m.Cookies))]
		*c = []KV{{"", "attack"}, {"", "v1"}, {c.K, ""}, {c.K, "x=v1"}, {c.K, "=attack"}, {"A", c.V}, {"a b", c.V}, {c.K, "\"attack\""}, {c.K, "a,b"}, {"$Version", "1"}}[x.G.Choose(10)]
		x.Hit("odd-cookie")
	}
	if x.G.Bool(1, 4) {
		m.CookieStyle = 1 + x.G.Choose(4)
	}
	m.RHdr = genSimple(x, []string{"Server", "X-A", "X-R"}, hvals, 2)
	crowd := -1
	if x.G.Bool(1, max(o.crowd, 40)) || o.crowd > 0 && x.G.Bool(1, o.crowd) {
		crowd = x.G.Choose(5)
		x.Hit("many-names")
	}
	switch crowd {
	case 0:
		m.Query = append(many(x, "k", msgVals), m.Query...)
	case 1:
		m.Hdr = append(many(x, "X-K", simple), m.Hdr...)
	case 2:
		m.Cookies = append(many(x, "k", simple), m.Cookies...)
	case 3:
		m.RHdr = append(many(x, "X-K", simple), m.RHdr...)
	}
	m.RawQuery = encodeKVs(m.Query)
	if x.G.Bool(1, 6) {
		m.Abs = []string{"http://www.example.com", "https://u:p@host:8443", "http://10.1.0.1:80"}[x.G.Choose(3)]
	}
	if x.G.Bool(1, 2) {
		m.RHdr = append(m.RHdr, KV{"Content-Type", []string{"text/html", "text/plain; charset=utf-8"}[x.G.Choose(2)]})
	}
	if x.G.Bool(1, 3) {
		m.RHdr = append(m.RHdr, KV{"Content-Length", fmt.Sprint(x.G.Choose(200))})
	}
	w := []int{6, 3, 2, 1}
	if o.bodyBias {
		w = []int{1, 8, 6, 1}
	}
	m.Kind = x.G.Pick(w...)
	if m.Kind != bodyNone {
		m.Method = []string{"POST", "PUT", "PATCH", "POST"}[x.G.Choose(4)]
		if x.G.Bool(1, 12) {
			m.Method = "GET"
		}
	}
	pad := o.maxPad
	if pad <= 0 {
		pad = 40
	}
	switch {
	case x.G.Bool(1, 80):
		pad = 10000
		x.Hit("body-of-kilobytes")
	case x.G.Bool(1, 600):
		pad = 200000
		x.Hit("body-beyond-default-memory-limit")
	}
	post := genKVs(x, msgKeys, msgVals, 4)
	if crowd == 4 {
		post = append(many(x, "k", msgVals), post...)
	}
	switch m.Kind {
	case bodyForm:
		m.CT = []string{formCT, formCT, formCT + "; charset=utf-8"}[x.G.Choose(3)]
		if x.G.Bool(1, 2) {
			post = append(post, KV{"pad", strings.Repeat("p", x.G.Choose(pad))})
		}
		if x.G.Bool(1, 8) {
			m.CT = []string{"Application/X-WWW-Form-Urlencoded", " " + formCT, formCT + " ; Charset=\"UTF-8\"", formCT + ";", strings.ToUpper(formCT)}[x.G.Choose(5)]
			x.Hit("content-type-spelled-differently")
		}
		m.Body = []byte(encodeKVs(post))
	case bodyMultipart:
		m.CT, m.Body = multipartBody(x, post, pad)
		if x.G.Bool(1, 6) {
			m.CT = otherSpelling(x, m.CT)
		}
	case bodyOther:
		m.CT = []string{"application/json", "text/plain", ""}[x.G.Choose(3)]
		m.Body = []byte(`{"a":"` + strings.Repeat("j", x.G.Choose(pad)) + `"}`)
	}
	if x.G.Bool(1, 2) {
		m.RBody = []byte("<html>" + simple[x.G.Choose(len(simple))] + strings.Repeat(".", x.G.Choose(pad)) + "</html>")
	}
	return m
}

// otherSpelling writes the content type of a multipart body differently.
func otherSpelling(x *X, ct string) string {
	x.Hit("content-type-spelled-differently")
	b := ct[strings.Index(ct, "boundary=")+9:]
	switch x.G.Choose(5) {
	case 0:
		return "Multipart/Form-Data; boundary=" + b
	case 1:
		return "multipart/mixed;boundary=" + b
	case 2:
		return "multipart/form-data; charset=utf-8; boundary=" + b
	case 3:
		return "MULTIPART/RELATED ;  boundary=" + b
	}
	return "multipart/form-data; boundary=\"" + b + "\""
}

func multipartBody(x *X, kv []KV, pad int) (string, []byte) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.SetBoundary([]string{"XxBOUNDxX", "b", "----WebKitFormBoundary7MA4YWxkTrZu0gW"}[x.G.Choose(3)])
	for _, e := range kv {
		k := strings.NewReplacer("\\", "\\\\", `"`, `\"`).Replace(e.K)
		p, _ := w.CreatePart(textproto.MIMEHeader{"Content-Disposition": {fmt.Sprintf(`form-data; name="%s"`, k)}})
		p.Write([]byte(e.V))
	}
	for n := x.G.Pick(3, 2, 1); n > 0; n-- {
		p, _ := w.CreatePart(textproto.MIMEHeader{"Content-Disposition": {fmt.Sprintf(`form-data; name="f%d"; filename="up%d.txt"`, n, n)}, "Content-Type": {"text/plain"}})
		p.Write(bytes.Repeat([]byte{'f', byte('0' + n)}, x.G.Choose(pad*2)))
	}
	w.Close()
	return w.FormDataContentType(), b.Bytes()
}

// URL returns a fresh *url.URL of the message.
func (m *Msg) URL() *url.URL {
	s := m.Abs + m.Path
	if m.RawQuery != "" {
		s += "?" + m.RawQuery
	}
	u, err := url.Parse(s)
	if err != nil {
		u = &url.URL{Path: m.Path, RawQuery: m.RawQuery}
	}
	return u
}

func (m *Msg) Header() http.Header {
	h := http.Header{}
	for _, e := range m.Hdr {
		h[e.K] = append(h[e.K], e.V)
	}
	var c []string
	for _, e := range m.Cookies {
		if e.V == "" && m.CookieStyle%2 == 0 {
			c = append(c, e.K)
			continue
		}
		c = append(c, e.K+"="+e.V)
	}
	if len(c) > 0 {
		switch m.CookieStyle {
		case 0:
			h["Cookie"] = []string{strings.Join(c, "; ")}
		case 1: // a line each
			h["Cookie"] = c
		case 2:
			h["Cookie"] = []string{strings.Join(c, ";") + ";"}
		case 3:
			h["Cookie"] = []string{" " + strings.Join(c, " ;  ") + "\t"}
		case 4: // empty parts and lines, and a line of its own for the last
			n := len(c) - 1
			h["Cookie"] = []string{"", ";; " + strings.Join(c[:n], ";;") + " ;", ";", c[n]}
		}
	}
	if m.CT != "" {
		h["Content-Type"] = []string{m.CT}
	}
	return h
}

func (m *Msg) RHeader() http.Header {
	h := http.Header{}
	for _, e := range m.RHdr {
		h[e.K] = append(h[e.K], e.V)
	}
	return h
}

// split cuts a body into chunks.
func split(x *X, b []byte) [][]byte {
	if len(b) == 0 {
		return nil
	}
	if len(b) > 3000 {
		var r [][]byte
		n := []int{7, 4096, 32768, len(b), 10001}[x.G.Choose(5)]
		for len(b) > n && len(r) < 6 {
			r = append(r, b[:n])
			b = b[n:]
		}
		return append(r, b)
	}
	switch x.G.Pick(2, 2, 2, 1) {
	case 0:
		return [][]byte{b}
	case 1:
		i := x.G.Choose(len(b) + 1)
		return [][]byte{b[:i], b[i:]}
	case 2:
		var r [][]byte
		for len(b) > 0 {
			n := 1 + x.G.Choose(min(len(b), 30))
			r = append(r, b[:n])
			b = b[n:]
		}
		return r
	}
	var r [][]byte
	if len(b) > 300 {
		b1 := b[:len(b)-60]
		r = append(r, b1)
		b = b[len(b1):]
	}
	for i := range b {
		r = append(r, b[i:i+1])
	}
	return r
}

// ---- scripts

const (
	oConn = iota
	oURL
	oReqHdr
	oReqApp
	oReqBody
	oResHdr
	oResApp
	oResBody
	oLog
	oCollect
	oMode
	oClose
)

var opNames = []string{"ProcessConnection", "ProcessRequestURL", "ProcessRequestHeader", "AppendRequestBody", "ProcessRequestBody", "ProcessResponseHeaders", "AppendResponseBody", "ProcessResponseBody", "ProcessLogging", "Result", "Enable", "Close"}

// phase of a notification, 0 for what is none
var opPhase = map[int]int{oConn: 1, oReqHdr: 2, oReqBody: 3, oResHdr: 4, oResBody: 5, oLog: 6}

type Step struct {
	Op    int
	Chunk []byte
	Mode  int
	M     *Msg // what is reported, when it is not the message of the run
}

func (s Step) String() string {
	switch s.Op {
	case oReqApp, oResApp:
		return fmt.Sprintf("%s(%d bytes)", opNames[s.Op], len(s.Chunk))
	case oMode:
		return "Enable(" + []string{"On", "Off", "DetectionOnly"}[s.Mode] + ")"
	}
	if s.M != nil {
		return opNames[s.Op] + s.M.part(s.Op)
	}
	return opNames[s.Op]
}

type scriptOpt struct {
	collectNum, collectDen int  // chance of a collect after each notification
	disorder               int  // up to this many random disturbances
	modes                  bool // mode changes
	forceCollect           bool
}

func genScript(x *X, m *Msg, o scriptOpt) []Step {
	s := []Step{{Op: oConn}, {Op: oURL}, {Op: oReqHdr}}
	for _, c := range split(x, m.Body) {
		s = append(s, Step{Op: oReqApp, Chunk: c})
	}
	s = append(s, Step{Op: oReqBody}, Step{Op: oResHdr})
	for _, c := range split(x, m.RBody) {
		s = append(s, Step{Op: oResApp, Chunk: c})
	}
	s = append(s, Step{Op: oResBody}, Step{Op: oLog})
	if o.disorder > 0 {
		for n := x.G.Choose(o.disorder + 1); n > 0; n-- {
			i := x.G.Choose(len(s))
			switch x.G.Pick(3, 2, 2, 1) {
			case 0: // repeat a step later (or at once)
				j := i + x.G.Choose(len(s)-i+1)
				s = insert(s, j, s[i])
			case 1: // leave out
				s = append(s[:i:i], s[i+1:]...)
			case 2: // move
				st := s[i]
				s = append(s[:i:i], s[i+1:]...)
				s = insert(s, x.G.Choose(len(s)+1), st)
			case 3: // insert a random notification
				ops := []int{oConn, oReqHdr, oReqBody, oResHdr, oResBody, oLog, oURL}
				s = insert(s, i, Step{Op: ops[x.G.Choose(len(ops))]})
			}
			if len(s) == 0 {
				s = []Step{{Op: oConn}}
			}
		}
	}
	var r []Step
	for _, st := range s {
		if o.modes && x.G.Bool(1, 3) {
			r = append(r, Step{Op: oMode, Mode: x.G.Choose(3)})
		}
		r = append(r, st)
		if opPhase[st.Op] != 0 && (o.forceCollect || o.collectNum > 0 && x.G.Bool(o.collectNum, o.collectDen)) {
			r = append(r, Step{Op: oCollect})
		}
	}
	return append(r, Step{Op: oCollect})
}

func insert(s []Step, i int, st Step) []Step {
	r := append([]Step(nil), s[:i]...)
	r = append(r, st)
	return append(r, s[i:]...)
}
