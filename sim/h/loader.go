package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"syscall"

	"verifsim/r/modsecurity"
	"verifsim/r/seclang"
	"verifsim/r/seclang/parser"
)

// ---- configuration texts

// piece is one directive of a text.
type piece struct {
	text     string
	start    int // in the whole text
	end      int // just past its last character
	quoted   bool
	inQuotes [][2]int // positions (in the whole text) of quoted arguments, from opening to closing quote
}

type conf struct {
	text   string
	pieces []piece
	bad    int // the piece that is rejected, or -1
}

var confVars = []string{"ARGS", "ARGS_GET", "ARGS_POST", "ARGS_NAMES", "REQUEST_URI", "REQUEST_HEADERS", "REQUEST_COOKIES", "REMOTE_ADDR", "QUERY_STRING", "RESPONSE_STATUS", "REQUEST_BODY", "REQUEST_METHOD"}

// arg renders an argument, quoted when it has to be or by choice.
func arg(x *X, s string, quoted *bool) string {
	must := s == "" || strings.ContainsAny(s, " \t\"'\\\n\r,|") && strings.ContainsAny(s, " \t\"'\\\n\r")
	switch {
	case must || x.G.Bool(1, 2):
		*quoted = true
		if !strings.Contains(s, "'") && x.G.Bool(1, 4) {
			return "'" + strings.ReplaceAll(s, `\`, `\\`) + "'"
		}
		return `"` + secQuote(s) + `"`
	}
	*quoted = false
	return s
}

var gaps = []string{" ", "  ", "\t", " \\\n ", " \\\r\n\t", " \\\n\\\n  "}

func gap(x *X) string {
	if x.G.Bool(3, 5) {
		return " "
	}
	return gaps[x.G.Choose(len(gaps))]
}

func genDirective(x *X, id int, chain bool) (string, bool) {
	var quoted bool
	switch {
	case !chain && x.G.Bool(1, 4):
		d := []string{"SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"}[x.G.Choose(3)]
		v := []string{"On", "Off", "on", "OFF", "off"}[x.G.Choose(5)]
		if d == "SecRuleEngine" && x.G.Bool(1, 3) {
			v = "DetectionOnly"
		}
		a := arg(x, v, &quoted)
		return d + gap(x) + a, quoted
	}
	var vs []string
	for n := 1 + x.G.Pick(5, 2, 1); n > 0; n-- {
		v := confVars[x.G.Choose(len(confVars))]
		if keys := selVars[v]; keys != nil && x.G.Bool(1, 3) {
			v += ":" + keys[x.G.Choose(len(keys))]
			if x.G.Bool(1, 4) {
				v = "!" + v
			}
		} else if x.G.Bool(1, 8) {
			v = "&" + v
		}
		vs = append(vs, v)
	}
	sep := []string{"|", ","}[x.G.Pick(4, 1)]
	var dummy bool
	s := "SecRule" + gap(x) + arg(x, strings.Join(vs, sep), &dummy)
	op := []string{"@rx attack", "attack", "^a+$", "@eq 1", "!@ge 10", `!a\.b`, "@rx a b\"c", "@lt -5", `[0-9]{2}\\d`, "@rx it's", "!x", "caf\u00e9", "@rx \u4f60\u597d \u00df"}[x.G.Choose(13)]
	if x.G.Bool(1, 400) {
		op = "@rx " + strings.Repeat([]string{"a", "ab ", "\u00e9x"}[x.G.Choose(3)], []int{1500, 22000, 4096}[x.G.Choose(3)])
		x.Hit("long-argument")
	}
	s += gap(x) + arg(x, op, &dummy)
	acts := []string{fmt.Sprintf("id:%d", id), fmt.Sprintf("phase:%s", []string{"1", "2", "3", "4", "5", "request", "response", "logging"}[x.G.Choose(8)])}
	if x.G.Bool(1, 2) {
		acts = append(acts, "t:"+transList[x.G.Choose(len(transList))])
	}
	if chain {
		acts = append(acts, "chain")
	}
	for n := x.G.Choose(4); n > 0; n-- {
		acts = append(acts, []string{"deny", "log", "block", "skip", "status:404", "allow", "allow:phase", "tag:t1", "msg:'m1'", "rev:2", "ver:'v/1'", "msg:'it is'", "msg:'\u00e9t\u00e9'"}[x.G.Choose(13)])
	}
	j := ","
	switch x.G.Choose(4) {
	case 0:
		j = ", "
	case 1:
		j = ",\\\n  "
	case 2:
		j = ",\\\r\n"
	}
	all := strings.Join(acts, j)
	if j == "," && !strings.ContainsAny(all, " '") && x.G.Bool(1, 4) {
		return s + gap(x) + all, false
	}
	return s + gap(x) + `"` + strings.ReplaceAll(all, `"`, `\"`) + `"`, true
}

var rejects = []string{
	"SecFoo On", "SecRule", "SecRule ARGS", `SecRule ARGS "@rx a"`, "SecRuleEngine Maybe", `SecRule NOSUCH "a" "id:1,phase:1"`,
	`SecRule ARGS "@nosuch a" "id:1,phase:1"`, `SecRule ARGS "@rx (" "id:1,phase:1,deny"`, `SecRule ARGS "a" "id:x,phase:1"`, `SecRule ARGS "a" "id:1,phase:9"`,
	`SecRule ARGS "a" "id:1,phase:1,nosuch"`, `SecRule ARGS "a" "id:1,phase:1,t:nosuch"`, `SecRule ARGS "a" "id:1,phase:1,status:abc"`, `SecRule ARGS "@eq x" "id:1,phase:1"`,
	`SecRule ARGS:/(/ "a" "id:1,phase:1"`, `SecRule ARGS|!ARGS_GET:/[/ "a" "id:1,phase:1"`, `SecRule GEO "a" "id:1,phase:1"`, `SecRule ARGS "@pm a" "id:1,phase:1"`,
	`SecRule ARGS "a" "id:1,phase:1,exec:/x"`, `SecRule ARGS "a" "id:1,phase:1,t:md5"`, "# a comment", "%", `SecRule ARGS| "a" "id:1,phase:1"`,
	`SecRequestBodyAccess DetectionOnly`, `SecRequestBodyAccess Maybe`, `SecRequestBodyAccess`, `SecResponseBodyAccess ""`,
	`SecResponseBodyAccess Onn`, `SecRuleEngine ""`, `SecRuleEngine Onn`, `SecRuleEngine`,
	`SecRuleEngine "On`, `SecRuleEngineX On`, `Sec On`, `SecRule ARGS "a" ""`,
	`SecRule ARGS "" "id:1,phase:1"`, `SecRule "" "a" "id:1,phase:1"`, `SecRule ARGS "a" "id:1,phase:1`, `SecRule ARGS "a "id:1,phase:1"`,
	`SecAction "id:1,phase:1,deny"`, `SecRule 'ARGS "a" "id:1,phase:1"`,
}

func init() {
	for _, a := range []string{"phase:0", "phase:6", "phase:-1", "phase:two", "phase:", "phase:1,id:", "phase:1,id:1x", "phase:1,severity:9", "phase:1,severity:LOUD", "phase:1,status:", "phase:1,status:4x4", "phase:1,t:", "phase:1,t:lowercase2", "phase:1,deny2", ",phase:1", "phase:1,", "phase:1,chain,nosuch", "phase:1,deny,t:nosuch,log", "phase:1,log,status:none,deny", "phase:1,deny,id:none"} {
		rejects = append(rejects, `SecRule ARGS "a" "id:1,`+a+`"`)
	}
	for _, o := range []string{"@rx [", "@rx a{2,1}", "@eq", "@eq 1.5", "@gt 99999999999999999999", "@", "!", "@streq a", "!@nosuch x", "@le one", "!@lt", "(", "a**"} {
		rejects = append(rejects, `SecRule ARGS "`+o+`" "id:1,phase:1,deny"`)
	}
	for _, v := range []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"} {
		rejects = append(rejects, "SecRule "+v+`:/(/ "a" "id:1,phase:1"`, "SecRule "+v+"|!"+v+`:/[/ "a" "id:1,phase:1"`, "SecRule &"+v+`:/a**/ "a" "id:1,phase:1"`)
	}
	for _, v := range []string{"|ARGS", "ARGS||ARGS_GET", "ARGS:/[/", "&NOSUCH", "!", "&", "ARGS_GET|NOSUCH", "NOSUCH:a", "ARGS|!REQUEST_HEADERS:/(/", "&ARGS_POST:/*/", "REQUEST_COOKIES:/a/|REQUEST_COOKIES:/(?/"} {
		rejects = append(rejects, `SecRule `+v+` "a" "id:1,phase:1,deny"`)
	}
}

type confOpt struct {
	n       int // directives at most
	bad     bool
	pad     bool // sometimes longer than the scanner's input buffer
	newline bool // always ends with a line end
	own     bool // sometimes with directives that the program registered
}

func genConf(x *X, o confOpt) *conf {
	c := &conf{bad: -1}
	var b strings.Builder
	blank := func() {
		if x.G.Bool(1, 6) {
			b.WriteString([]string{"\n", " ", "\r\n", "\t\n", "\n\n"}[x.G.Choose(5)])
		}
	}
	if o.pad && x.G.Bool(1, 6) {
		b.WriteString(strings.Repeat([]string{"\n", " ", "\t \n"}[x.G.Choose(3)], 1))
		b.WriteString(strings.Repeat(" ", 4000+x.G.Choose(160)))
	}
	n := x.crowd(1+x.G.Choose(o.n), 120)
	if o.bad {
		c.bad = x.G.Choose(n)
	}
	chain := false
	mine := o.own && x.G.Bool(1, 3)
	if mine {
		registerOwn()
		own = &ownWorld{x: x, log: map[*modsecurity.Engine][]string{}}
		x.Hit("registered-directives")
	}
	for i := 0; i < n; i++ {
		blank()
		p := piece{start: b.Len()}
		if mine && i != c.bad && x.G.Bool(1, 3) {
			p.text, p.quoted = genOwnDirective(x)
		} else if i == c.bad {
			p.text = rejects[x.G.Choose(len(rejects))]
			p.quoted = false
		} else {
			chain = x.G.Bool(1, 4)
			p.text, p.quoted = genDirective(x, 1000+i, chain)
		}
		b.WriteString(p.text)
		p.end = b.Len()
		c.pieces = append(c.pieces, p)
		if i < n-1 || o.newline || x.G.Bool(2, 3) {
			b.WriteString([]string{"\n", "\r\n", "\r"}[x.G.Pick(5, 2, 1)])
		}
	}
	c.text = b.String()
	for i := range c.pieces {
		p := &c.pieces[i]
		p.inQuotes = quotedParts(c.text[p.start:p.end], p.start)
	}
	return c
}

// quotedParts finds the quoted arguments of a directive.
func quotedParts(s string, off int) [][2]int {
	var r [][2]int
	for i := 0; i < len(s); i++ {
		if c := s[i]; (c == '"' || c == '\'') && i > 0 && strings.IndexByte(" \t\n", s[i-1]) >= 0 {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(s) {
				r = append(r, [2]int{off + i, off + j})
			}
			i = j
		}
	}
	return r
}

// genOwnDirective is a directive that registerOwn adds.
func genOwnDirective(x *X) (string, bool) {
	var quoted bool
	v := ownArgs[x.G.Choose(len(ownArgs))]
	switch x.G.Choose(5) {
	case 0:
		return "SecMark", false
	case 1:
		a := ownArg(x, v)
		return "SecMarker" + gap(x) + a, a[0] == '"' || a[0] == '\''
	case 2:
		a := ownArg(x, ownArgs[x.G.Choose(len(ownArgs))])
		return "SecPair" + gap(x) + ownArg(x, v) + gap(x) + a, a[0] == '"' || a[0] == '\''
	case 3:
		return "SecLevel" + gap(x) + arg(x, []string{"Low", "least", "HIGH"}[x.G.Choose(3)], &quoted), quoted
	}
	a := ownArg(x, v)
	return "SecNote" + gap(x) + a, a[0] == '"' || a[0] == '\''
}

func dumpDirective(d parser.Directive) string {
	switch d := d.(type) {
	case *pairDir:
		return fmt.Sprintf("pair %q %q", d.a, d.b)
	case *levelDir:
		return fmt.Sprintf("level %q", d.v)
	}
	b, err := json.Marshal(d)
	if err != nil {
		return fmt.Sprintf("%T %+v", d, d)
	}
	return fmt.Sprintf("%T %d %s", d, d.Token(), b)
}

func dumpDirectives(ds []parser.Directive, err error) string {
	var b strings.Builder
	for _, d := range ds {
		b.WriteString(dumpDirective(d))
		b.WriteString("\n")
	}
	if err != nil {
		b.WriteString("error: " + err.Error())
	}
	return b.String()
}

// loadBound is linear in the text: measured at below 1/5 of this on the shipped code.
func loadBound(n int) int64 { return 20000 + int64(n)*250 }

func parseAll(x *X, what string, r io.Reader, n int) ([]parser.Directive, error) {
	var ds []parser.Directive
	var err error
	x.Call(what, loadBound(n), func() { ds, err = parser.NewSecLangScanner(r).AllDirective() })
	return ds, err
}

// ---- simulated sources

// source delivers a text as its plan says.
type source struct {
	x       *X
	text    string
	pos     int
	cuts    func() int // how much to deliver next; 0 for an empty read
	failAt  int        // -1: never
	err     error
	sticky  bool
	withDat bool // deliver the last bytes together with the error or the end
	failed  bool
	after   int // reads after the end or the failure
	empties int
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.text)
	if s.failAt >= 0 && !s.failed {
		end = s.failAt
	}
	final := func() error {
		if s.failAt >= 0 && (!s.failed || s.sticky) {
			s.failed = true
			return s.err
		}
		return io.EOF
	}
	if s.failed && s.sticky {
		return 0, s.err
	}
	if s.pos >= end {
		s.after++
		return 0, final()
	}
	n := s.cuts()
	if n == 0 {
		if s.empties++; s.empties <= 3 {
			return 0, nil
		}
		n = 1
	}
	s.empties = 0
	n = min(n, len(p), end-s.pos)
	copy(p, s.text[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end && s.withDat {
		return n, final()
	}
	return n, nil
}

const (
	fragWhole = iota
	fragBytes
	fragShort
	fragSpecial
	fragHalves
	fragKinds
)

var fragNames = []string{"whole", "byte by byte", "short reads", "cut at special characters", "two pieces"}

// fragment makes a source for the text with a seeded division.
func fragment(x *X, text string) (*source, string) {
	s := &source{x: x, text: text, failAt: -1, withDat: x.SC.Bool(1, 3)}
	empty := x.SC.Bool(1, 3)
	kind := x.SC.Choose(fragKinds)
	half := x.SC.Choose(len(text) + 1)
	s.cuts = func() int {
		if empty && x.SC.Bool(1, 4) {
			return 0
		}
		switch kind {
		case fragBytes:
			return 1
		case fragShort:
			return 1 + x.SC.Choose(9)
		case fragSpecial:
			if i := strings.IndexAny(s.text[s.pos:], "\\\"'\r\n,"); i >= 0 {
				return i + x.SC.Choose(2)
			}
		case fragHalves:
			if s.pos < half {
				return half - s.pos
			}
		}
		return 1 << 20
	}
	return s, fragNames[kind]
}

// ---- C11

func c11(x *X) {
	c := genConf(x, confOpt{n: 5, bad: x.G.Bool(1, 6), pad: true, own: true})
	text := c.text
	if x.G.Bool(1, 12) { // how files from elsewhere begin
		text = []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xef\xbb", "\x1f\x8b", "#!", "\x00", "\x00\x00\x00", "\xef\xbb\xbf\xef\xbb\xbf", "\n", "\r\n", "\r", "\\\n"}[x.G.Choose(13)] + text
		x.Hit("odd-beginning")
	}
	if x.G.Bool(1, 3) {
		b := []byte(text)
		damage(x, &b)
		text = string(b)
		x.Hit("damaged-text")
	}
	x.Tracef("text %q", trunc(text, 600))
	ref, rerr := parseAll(x, "whole", strings.NewReader(text), len(text))
	want := dumpDirectives(ref, rerr)
	x.Tracef("in one piece: %s", want)
	if rerr == nil && len(ref) > 0 {
		x.NonTrivial = true
	}
	for k := 0; k < 3; k++ {
		src, name := fragment(x, text)
		ds, err := parseAll(x, name, src, len(text))
		x.Tracef("%s, empty reads %v, end with data %v", name, src.empties, src.withDat)
		if got := dumpDirectives(ds, err); got != want {
			x.Fail("fragmentation", "%s (end together with data: %v):\n%s\n instead of\n%s\n for %q", name, src.withDat, trunc(got, 1500), trunc(want, 1500), trunc(text, 1500))
		}
		// one at a time
		src, name = fragment(x, text)
		var one []parser.Directive
		x.Call("ReadDirective "+name, loadBound(len(text)), func() {
			s := parser.NewSecLangScanner(src)
			for err = nil; err == nil; {
				var d parser.Directive
				if d, err = s.ReadDirective(); err == nil {
					one = append(one, d)
				}
			}
		})
		if err == parser.ErrEOS {
			err = nil
		}
		if rerr != nil {
			// what came before the rejected directive has been handed out
			if err == nil || err.Error() != rerr.Error() {
				x.Fail("fragmentation", "%s, one directive at a time: error %v instead of %v for %q", name, err, rerr, trunc(text, 1500))
			}
		} else if got := dumpDirectives(one, err); got != want {
			x.Fail("fragmentation", "%s, one directive at a time:\n%s\n instead of\n%s\n for %q", name, trunc(got, 1500), trunc(want, 1500), trunc(text, 1500))
		}
		x.State(name, src.withDat, len(ref), rerr != nil, len(text)%4096)
	}
}

// ---- C12

var errSource = errors.New("simulated source failure")

// failErr is an error with the traits that code likes to tell errors apart by.
type failErr struct{ temporary, timeout bool }

func (e failErr) Error() string   { return fmt.Sprintf("failure (%v, %v)", e.temporary, e.timeout) }
func (e failErr) Temporary() bool { return e.temporary }
func (e failErr) Timeout() bool   { return e.timeout }

var sourceErrs = []error{io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), failErr{true, false}, failErr{false, true}, failErr{true, true}, failErr{},
	errors.New("EOF"), errors.New("EOS"), io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, syscall.EINTR, syscall.EAGAIN, syscall.EIO,
	&fs.PathError{Op: "read", Path: "/etc/waf.conf", Err: syscall.EIO}, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), context.Canceled, context.DeadlineExceeded, fs.ErrClosed, fs.ErrNotExist}

func c12(x *X) {
	c := genConf(x, confOpt{n: 5, pad: true, own: true})
	text := c.text
	ref, rerr := parseAll(x, "whole", strings.NewReader(text), len(text))
	if rerr != nil {
		x.Fail("rejected", "a valid configuration is rejected: %v\n%q", rerr, text)
	}
	if len(ref) != len(c.pieces) {
		x.Fail("rejected", "%d directives are read, %d are configured\n%q", len(ref), len(c.pieces), text)
	}
	x.Tracef("text %q", trunc(text, 600))
	for k := 0; k < 6; k++ {
		at := x.F.Choose(len(text) + 1)
		if x.F.Bool(1, 3) { // at the edges of a directive
			p := c.pieces[x.F.Choose(len(c.pieces))]
			at = min(len(text), p.end-1+x.F.Choose(3))
		}
		mk := func() *source {
			src, _ := fragment(x, text)
			src.failAt, src.err = at, errSource
			if x.F.Bool(2, 3) {
				src.err = sourceErrs[x.F.Choose(len(sourceErrs))]
			}
			src.sticky = x.F.Bool(2, 3)
			return src
		}
		src := mk()
		x.S.FS.Fired["read-error-in-configuration"]++
		if src.withDat {
			x.Hit("error-with-data")
		}
		if !src.sticky {
			x.Hit("one-off-error")
		}
		ds, err := parseAll(x, "failing source", src, len(text))
		x.Tracef("failure %v at byte %d of %d, sticky %v, with data %v: %d directives, %v", src.err, at, len(text), src.sticky, src.withDat, len(ds), err)
		if err == nil && src.failed {
			x.Fail("truncated", "the source fails with %v at byte %d of %d (for good: %v) and loading succeeds with %d of %d directives\n%q", src.err, at, len(text), src.sticky, len(ds), len(ref), text)
		}
		if !src.failed {
			x.Fail("truncated", "loading ended at byte %d before the failure at %d: %v\n%q", src.pos, at, err, text)
		}
		// one at a time
		src = mk()
		var got []parser.Directive
		x.Call("ReadDirective", loadBound(len(text)), func() {
			s := parser.NewSecLangScanner(src)
			for {
				var d parser.Directive
				if d, err = s.ReadDirective(); err != nil {
					break
				}
				got = append(got, d)
				if len(got) > len(ref) {
					break
				}
			}
		})
		lo, hi := 0, 0
		for _, p := range c.pieces {
			if p.end < at || p.quoted && p.end <= at {
				lo++
			}
			if p.end <= at {
				hi++
			}
		}
		if len(got) < lo || len(got) > hi {
			x.Fail("truncated", "the source fails at byte %d: %d directives are handed out, %d to %d lie before it\n%q", at, len(got), lo, hi, text)
		}
		if d, w := dumpDirectives(got, nil), dumpDirectives(ref[:len(got)], nil); d != w {
			x.Fail("truncated", "the source fails at byte %d: handed out\n%s\n instead of\n%s", at, d, w)
		}
		if err == nil || err == parser.ErrEOS {
			x.Fail("truncated", "the source fails at byte %d: after %d directives the end is reported (%v)", at, len(got), err)
		}
		if len(got) > 0 && len(got) < len(ref) {
			x.NonTrivial = true
		}
		x.State(len(got), len(ref), src.sticky, src.withDat, at-c.pieces[min(len(got), len(c.pieces)-1)].start)
	}
}

// ---- C13

func (x *X) addText(ds *seclang.DireSet, text string) (err error) {
	x.Call("AddSecLangString", loadBound(len(text)), func() { err = ds.AddSecLangString(text) })
	return
}

func (x *X) execute(ds *seclang.DireSet, e *modsecurity.Engine) {
	x.Call("Execute", 1000000, func() {
		if err := ds.Execute(e); err != nil {
			x.Fail("execute", "Execute: %v", err)
		}
	})
}

// behave shows what an engine does with a message.
func behave(x *X, e *modsecurity.Engine, m *Msg, script []Step) []string {
	var r *runner
	x.Call("NewTransaction", 100000, func() { r = newRunner(e, m, script, nil) })
	r.all(x, "transaction", 20000000)
	if r.tx != nil {
		x.Call("Close", 100000, func() { r.tx.Close() })
	}
	return r.out.brief
}

func c13(x *X) {
	ds := seclang.NewDireSet()
	m := genMsg(x, msgOpt{bodyBias: true})
	script := genScript(x, m, scriptOpt{collectNum: 1, collectDen: 2})
	var good []string
	check := func(when string) {
		e, w := modsecurity.NewEngine(), modsecurity.NewEngine()
		x.execute(ds, e)
		sum := map[int][]int{}
		for _, t := range good { // each text on its own
			one := modsecurity.NewEngine()
			d := seclang.NewDireSet()
			if err := x.addText(d, t); err != nil {
				x.Fail("rejected", "a text that was accepted before is rejected: %v\n%q", err, t)
			}
			x.execute(d, w)
			x.execute(d, one)
			for ph := 0; ph < modsecurity.PhaseEnd; ph++ {
				for _, r := range one.RuleSet.Phases[ph] {
					sum[ph] = append(sum[ph], r.Id)
				}
			}
		}
		for ph := 0; ph < modsecurity.PhaseEnd; ph++ {
			var ids []int
			for _, r := range e.RuleSet.Phases[ph] {
				ids = append(ids, r.Id)
			}
			if fmt.Sprint(ids) != fmt.Sprint(sum[ph]) {
				x.Fail("not-atomic", "%s, phase %d has the rules %v, the accepted texts have %v", when, ph, ids, sum[ph])
			}
		}
		if a, b := dumpEngine(e), dumpEngine(w); a != b {
			x.Fail("not-atomic", "%s, the set yields\n%s\n instead of\n%s", when, trunc(a, 1500), trunc(b, 1500))
		}
		if d := diffLines(behave(x, e, m, script), behave(x, w, m, script)); d != "" {
			x.Fail("not-atomic", "%s, a transaction shows %s (with only the accepted texts)", when, d)
		}
	}
	fails := 0
	for n := x.crowd(1+x.G.Choose(5), 40); n > 0; n-- {
		bad := x.G.Bool(1, 2)
		c := genConf(x, confOpt{n: 4, bad: bad})
		if bad && x.G.Bool(1, 3) { // cut off instead
			c = genConf(x, confOpt{n: 4})
			if p := c.pieces[len(c.pieces)-1]; len(p.inQuotes) > 0 {
				qp := p.inQuotes[x.G.Choose(len(p.inQuotes))]
				c.text = c.text[:qp[0]+1+x.G.Choose(qp[1]-qp[0])]
			}
		}
		err := x.addText(ds, c.text)
		x.Tracef("add %q: %v", trunc(c.text, 500), err)
		if err != nil && c.bad < 0 && !bad {
			x.Fail("rejected", "a valid configuration is rejected: %v\n%q", err, c.text)
		}
		if err == nil && c.bad >= 0 {
			x.Fail("in-part", "a text is accepted of which one directive cannot be loaded: %q\n%q", c.pieces[c.bad].text, c.text)
		}
		if err == nil {
			good = append(good, c.text)
			if x.G.Bool(1, 4) { // a text that is in the set already
				t := good[x.G.Choose(len(good))]
				if err := x.addText(ds, t); err != nil {
					x.Fail("rejected", "a text that was accepted before is rejected: %v\n%q", err, t)
				}
				good = append(good, t)
				x.Tracef("add %q again", trunc(t, 500))
				x.Hit("added-again")
			}
		} else {
			fails++
			x.Hit("rejected-text")
			if len(good) > 0 {
				x.NonTrivial = true
			}
		}
		if err != nil || x.G.Bool(1, 3) {
			check(fmt.Sprintf("after %d accepted and %d rejected texts", len(good), fails))
		}
		if err != nil && c.bad >= 0 && x.G.Bool(1, 2) { // the corrected text
			fixed := c.text[:c.pieces[c.bad].start] + c.text[c.pieces[c.bad].end:]
			if err := x.addText(ds, fixed); err == nil {
				good = append(good, fixed)
				x.Hit("corrected-text")
			} else {
				x.Fail("rejected", "a valid configuration is rejected: %v\n%q", err, fixed)
			}
			x.Tracef("add the corrected text")
		}
		x.State(len(good), fails, c.bad, len(c.pieces))
	}
	check("at the end")
}

// ---- C14

func c14(x *X) {
	c := genConf(x, confOpt{n: 6, bad: x.G.Bool(1, 8), pad: true, own: true})
	load := func(what, text string, mustFail bool) {
		var err error
		st := x.S.Steps
		if x.G.Bool(1, 2) {
			x.Call(what, loadBound(len(text)), func() {
				var ds *seclang.DireSet
				ds, err = seclang.NewDireSetFromSecLangString(text)
				if err == nil {
					err = ds.Execute(modsecurity.NewEngine())
				}
			})
		} else {
			src, _ := fragment(x, text)
			x.Call(what, loadBound(len(text)), func() {
				var dirs []parser.Directive
				dirs, err = parser.NewSecLangScanner(src).AllDirective()
				_ = dirs
			})
		}
		used := x.S.Steps - st
		if used*10 > loadBound(len(text)) {
			x.Hit("above-a-tenth-of-the-bound")
		}
		x.Tracef("%s %q: %d steps, %v", what, trunc(text, 300), used, err)
		if mustFail && err == nil {
			x.Fail("accepted", "a configuration cut off inside a quoted argument is accepted: %q", text)
		}
		x.State(what, err != nil, len(text)%64)
	}
	for k := 0; k < 4; k++ {
		text := c.text
		x.NonTrivial = true
		switch x.G.Pick(4, 3, 3, 1, 1) {
		case 0: // cut off anywhere
			at := x.G.Choose(len(text) + 1)
			inside := false
			if c.bad < 0 {
				for _, p := range c.pieces {
					for _, qp := range p.inQuotes {
						inside = inside || at > qp[0] && at <= qp[1]
					}
				}
			}
			if inside {
				x.Hit("cut-in-quotes")
			}
			x.S.FS.Fired["configuration-cut-off"]++
			load("cut off", text[:at], inside)
		case 1: // damaged
			b := []byte(text)
			damage(x, &b)
			x.S.FS.Fired["configuration-damaged"]++
			load("damaged", string(b), false)
		case 2: // a character of the grammar put anywhere
			at := x.G.Choose(len(text) + 1)
			ins := []string{"\\", "\"", "'", "\r", "\n", "\x00", "|", ",", ":", "!", "@", "&", "\\x", "\xff", "SecRule", " ", "/", "\\\\", "\\\r"}[x.G.Choose(19)]
			x.S.FS.Fired["configuration-damaged"]++
			load("inserted", text[:at]+ins+text[at:], false)
		case 3: // anything
			load("noise", weirdString(x, 12), false)
		case 4: // long
			n := 500 << x.G.Choose(7)
			p := []string{"\\", "\"", "\n", " ", "ARGS|", "\\\n", "a", ",", "SecRule ", "'", "\\\"", "\x00", "!", "deny,"}[x.G.Choose(14)]
			pre := []string{"", "SecRule ", "SecRule ARGS ", "SecRule ARGS \"", "SecRule ARGS \"@rx a\" \"", "SecRuleEngine ", "SecRule ARGS @rx "}[x.G.Choose(7)]
			x.Hit("long-text")
			load("long", pre+strings.Repeat(p, n/len(p)+1), false)
		}
	}
}

// ---- C20

func c20(x *X) {
	type job struct {
		text string
		m    *Msg
		s    []Step
		sp   *SetSpec
		out  []string
	}
	n := x.crowd(2+x.G.Pick(5, 3, 1), 10)
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		if i > 0 && x.G.Bool(1, 4) { // a transaction on another engine
			j.sp = genSet(x, mixSpec(x, false))
			smallLimits(x, j.sp)
		} else if i > 0 && x.G.Bool(1, 3) && jobs[i-1].sp == nil {
			j.text = jobs[i-1].text
		} else {
			c := genConf(x, confOpt{n: 4, bad: x.G.Bool(1, 6)})
			j.text = c.text
			if x.G.Bool(1, 8) {
				b := []byte(j.text)
				damage(x, &b)
				j.text = string(b)
			}
		}
		j.m = genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2)})
		j.s = append(genScript(x, j.m, scriptOpt{collectNum: 1, collectDen: 2}), Step{Op: oClose})
		if j.sp == nil && x.G.Bool(1, 2) {
			j.s = nil // only load
		}
		jobs[i] = j
	}
	run := func(j *job, e *modsecurity.Engine) []string {
		var out []string
		if e == nil {
			e = modsecurity.NewEngine()
			ds, err := seclang.NewDireSetFromSecLangString(j.text)
			out = append(out, "load: "+errText(err))
			if err == nil {
				out = append(out, "execute: "+errText(ds.Execute(e)))
			}
			if dirs, err := parser.NewSecLangScannerFromString(j.text).AllDirective(); true {
				out = append(out, dumpDirectives(dirs, err))
			}
			out = append(out, dumpEngine(e))
		}
		if j.s != nil {
			r := newRunner(e, j.m, j.s, nil)
			for !r.done() {
				r.step()
			}
			out = append(out, r.out.lines...)
		}
		return out
	}
	engine := func(j *job) *modsecurity.Engine {
		if j.sp == nil {
			return nil
		}
		return j.sp.build(x, nil)
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	var names []string
	var fns []func()
	for i, j := range jobs {
		j := j
		e := engine(j)
		if e == nil {
			names = append(names, fmt.Sprintf("load%d", i))
			x.Tracef("load%d %q", i, trunc(j.text, 300))
		} else {
			names = append(names, fmt.Sprintf("tx%d", i))
		}
		fns = append(fns, func() { j.out = run(j, e) })
	}
	x.S.RaceOn = true
	gap := []int{4000, 200, 20, 1000}[x.SC.Choose(4)]
	x.RunTasks(names, fns, 2+x.SC.Choose(24), gap, 100000000)
	for i, j := range jobs {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		e := engine(j)
		var alone []string
		x.Call("alone", 100000000, func() { alone = run(j, e) })
		if d := diffLines(j.out, alone); d != "" {
			x.Fail("isolation", "%s among %d concurrent loads and transactions: %s (alone)", names[i], n, d)
		}
		if j.sp == nil && strings.HasPrefix(alone[0], "load: -") {
			x.NonTrivial = true
		}
		x.State(n, len(alone), j.sp != nil, strings.HasPrefix(alone[0], "load: -"))
	}
}

var (
	loadReal = []string{"seclang and its parser, the rule and engine packages: all statements run as in /repo, instrumented", "bufio and strings of the standard library"}
	loadStub = []string{"the configuration source: a simulated reader", "map iteration order: chosen by the simulator"}
)

func init() {
	register(&Check{ID: "C11", Quick: 330000, Thor: 5500000, Batch: 250, Real: loadReal, Stub: loadStub,
		Rule: "one run = a seeded configuration text (a third damaged, one in six longer than the scanner's input buffer) parsed in one piece and then six times from simulated sources with seeded divisions (bytes, short reads, cuts at special characters, empty reads, end together with data); directives and errors must be equal; non-trivial: the text is accepted with at least one directive",
		Run:  c11})
	register(&Check{ID: "C12", Quick: 240000, Thor: 4000000, Batch: 250, Real: loadReal, Stub: loadStub,
		Rule: "one run = a seeded valid configuration text and twelve loads from sources that fail at a seeded byte, for good or once, alone or together with data; non-trivial: some but not all directives lie before the failure",
		Run:  c12})
	register(&Check{ID: "C13", Quick: 210000, Thor: 3500000, Batch: 250, Real: loadReal, Stub: loadStub,
		Rule: "one run = a sequence of up to 10 valid, rejected, cut-off and corrected texts added to one rule set, executed on engines in between; engine contents and behaviour must be those of the accepted texts loaded one by one; non-trivial: a text was rejected after one was accepted",
		Run:  c13})
	register(&Check{ID: "C14", Quick: 600000, Thor: 10000000, Batch: 250, Real: loadReal, Stub: loadStub,
		Rule: "one run = a seeded configuration text loaded four times cut off, damaged, with grammar characters inserted, replaced by noise or made long, each within a number of statements linear in its length; non-trivial: always",
		Run:  c14})
	register(&Check{ID: "C20", Quick: 135000, Thor: 2250000, Batch: 250, Real: append(loadReal, lifeReal...), Stub: append(loadStub, lifeStub...),
		Rule: "one run = 2-4 concurrent loads of configurations and transactions on other engines, switched between statements by the seeded scheduler, with race detection; then each alone; directives, engines, errors and transaction outcomes must be equal; non-trivial: a text was accepted",
		Run:  c20})
}
