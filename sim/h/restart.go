package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"verifsim/r/modsecurity"
	"verifsim/rt"
	"verifsim/shim/simsync"
)

// dies runs a part of the process's life and says whether the process ended in it.
func (x *X) dies(f func()) (dead bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*rt.Crash); ok {
				dead = true
				return
			}
			panic(e)
		}
	}()
	f()
	return x.S.FS.Dead
}

// newProcess starts a process on the machine: everything in memory is gone.
func (x *X) newProcess() {
	x.S.FS.Dead = true
	x.S.Kill()
	x.S.FS.Restart()
	x.S.Seed = int64(x.M.Choose(3))
	x.S.Pid = x.M.Choose(2)
	x.S.Restart()
}

// ---- C24: files of other processes, dead or alive

func c24(x *X) {
	sp := genSet(x, specOpt{rules: 5, deny: 1, log: 3, status: 1, bodyVars: 6, plainVars: 2, matchBias: true, seclang: 2, probes: true})
	sp.InMem = []int64{24, 8, 1, 100}[x.G.Pick(3, 3, 1, 2)]
	if x.G.Bool(1, 6) {
		sp.ReqLimit = sp.InMem + int64(x.G.Choose(150))
	}
	sp.Dir = []string{"/data/waf", "/var/waf/x", "/tmp", "/tmp/waf"}[x.G.Choose(4)]
	x.traceSet(sp)
	gen := func() (*Msg, []Step) {
		m := genMsg(x, msgOpt{bodyBias: true, maxPad: 150})
		if x.G.Bool(1, 10) {
			damage(x, &m.Body)
		}
		return m, genScript(x, m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(3)})
	}
	fs := x.S.FS
	x.S.MapSeed = uint64(x.M.Choose(4))
	// a process that dies
	if x.F.Bool(3, 4) {
		fs.CrashAt = 1 + int64(x.F.Choose([]int{12, 40, 120}[x.F.Choose(3)]))
		fs.CrashArg = x.F.Choose(60)
	}
	type life struct {
		m      *Msg
		script []Step
		r      *runner
	}
	var first []*life
	for n := x.G.Pick(1, 4, 3, 2); n > 0; n-- {
		m, s := gen()
		if x.G.Bool(1, 2) {
			s = append(s, Step{Op: oClose})
		}
		first = append(first, &life{m: m, script: s})
	}
	left := x.F.Choose(60) // steps it has left when no operation on files ends it
	died := x.dies(func() {
		e := sp.build(x, nil)
		for ; left > 0 && len(first) > 0; left-- {
			k := x.SC.Choose(len(first))
			l := first[k]
			if l.r == nil {
				x.Call("NewTransaction", 100000, func() { l.r = newRunner(e, l.m, l.script, nil) })
			}
			if l.r.done() {
				first = append(first[:k:k], first[k+1:]...)
				continue
			}
			x.Call("first process", 20000000, l.r.step)
			if fs.Dead {
				return
			}
		}
	})
	if died {
		x.Hit("died-in-a-file-operation")
	} else {
		x.Hit("died-between-steps")
		fs.Fired["crash:between-steps"]++
	}
	fs.CrashAt = 0
	// what another process finds, and what other processes have there
	if len(fs.Files()) > 0 {
		x.Hit("leftover-files")
	}
	foreign := map[string][]byte{}
	for _, p := range fs.Created {
		if fs.Node(p) == nil && len(foreign) < 6 && x.F.Bool(1, 2) {
			fs.Put(p, []byte(strings.Repeat("theirs ", 1+x.F.Choose(40))))
			foreign[p] = nil
		}
	}
	for _, p := range []string{"/modsecurity-buffer-1.data", "/notes.txt", "/modsecurity-buffer-", "/0001.data", "/sub/modsecurity-buffer-7.data"} {
		if x.F.Bool(1, 3) {
			fs.Put(sp.Dir+p, []byte("theirs, too"))
		}
	}
	if x.F.Bool(1, 3) {
		fs.Put("/tmp/multipart-123", []byte("an upload of theirs"))
	}
	for _, p := range fs.Files() {
		foreign[p] = append([]byte(nil), fs.Node(p).Data...)
		if x.F.Bool(1, 2) { // they may be old
			fs.Node(p).Mtime = fs.Node(p).Mtime.Add(-[]time.Duration{time.Minute, 2 * time.Hour, 1000 * time.Hour}[x.F.Choose(3)])
		}
	}
	fs.Foreign = nil
	x.Tracef("the process died (%v); files there now: %v", fs.Fired, fs.Files())
	intact := func(at string) {
		for p, d := range foreign {
			n := fs.Node(p)
			if n == nil {
				x.Fail("removed", "%s: %s, of another process, is gone", at, p)
			}
			if string(n.Data) != string(d) {
				x.Fail("changed", "%s: %s, of another process, was changed: %s, was %s", at, p, q(n.Data), q(d))
			}
		}
		if len(fs.Foreign) > 0 {
			x.Fail("opened", "%s: %s, of another process, was opened", at, fs.Foreign[0])
		}
	}
	// the next process
	if x.F.Bool(2, 3) {
		fs.SameNames()
		x.Hit("names-drawn-again")
	}
	x.newProcess()
	x.S.Now += []time.Duration{0, time.Second, 30 * time.Hour}[x.M.Choose(3)]
	created := len(fs.Created)
	fired, troubled := fs.FiredTotal(), x.F.Bool(1, 3) // the disk fails, too
	if troubled {
		x.planFaults(fs, []string{"create", "write", "write", "read", "close"}, 3)
		for _, p := range fs.Plans {
			if p.Kind == "enoent" { // would empty the directory
				p.Kind = "eacces"
			}
		}
		if fs.Capacity >= 0 {
			for _, p := range fs.Files() {
				fs.Capacity += int64(len(fs.Node(p).Data))
			}
		}
	}
	var e *modsecurity.Engine
	to := recorders{}
	e = sp.build(x, to)
	var second, open []*life
	for n := 1 + x.G.Choose(3); n > 0; n-- {
		m, s := gen()
		l := &life{m: m, script: append(s, Step{Op: oClose})}
		second, open = append(second, l), append(open, l)
	}
	for len(open) > 0 {
		k := x.SC.Choose(len(open))
		l := open[k]
		if l.r == nil {
			x.Call("NewTransaction", 100000, func() { l.r = newRunner(e, l.m, l.script, to) })
		}
		for n := 1 + x.SC.Choose(4); n > 0 && !l.r.done(); n-- {
			s := l.r.script[l.r.pos]
			x.Call("next process", 20000000, l.r.step)
			intact(s.String())
		}
		if l.r.done() {
			open = append(open[:k:k], open[k+1:]...)
		}
		if len(foreign) > 0 && x.SC.Bool(1, 10) { // the other process goes on
			var ps []string
			for p := range foreign {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			p := ps[x.SC.Choose(len(ps))]
			if x.SC.Bool(1, 2) {
				fs.Remove(p)
				delete(foreign, p)
			} else {
				fs.Node(p).Data = append(fs.Node(p).Data, " and more"...)
				foreign[p] = append([]byte(nil), fs.Node(p).Data...)
			}
			x.Hit("other-process-goes-on")
		}
	}
	if len(fs.Files()) != len(foreign) {
		x.Fail("leftover-file", "all transactions are closed, %v are there, of them %d of other processes", fs.Files(), len(foreign))
	}
	for _, l := range second {
		x.Tracef("%v", l.r.out.brief)
	}
	if len(foreign) > 0 && len(fs.Created) > created {
		x.NonTrivial = true
		x.Hit("spilled-beside-other-files")
	}
	x.State(died, len(foreign), len(fs.Created)-created, len(second), sp.InMem)
	if troubled {
		if fs.FiredTotal() > fired {
			x.Hit("storage-fails-beside-other-files")
		}
		return
	}
	// the same where no process was before
	for i, l := range second {
		x.NewSim()
		x.S.MapSeed = uint64(x.M.Choose(4))
		to := recorders{}
		e := sp.build(x, to)
		var r *runner
		x.Call("NewTransaction", 100000, func() { r = newRunner(e, l.m, l.script, to) })
		r.all(x, "on a clean machine", 20000000)
		if d := diffLines(l.r.out.lines, r.out.lines); d != "" {
			x.Fail("leftovers-matter", "transaction %d after the death of another process, beside its files: %s (on a clean machine)", i, d)
		}
	}
}

// ---- C25: clock and chance

func c25(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	n := 1 + x.G.Pick(3, 2, 1)
	ms, scripts := make([]*Msg, n), make([][]Step, n)
	for i := range ms {
		ms[i] = genMsg(x, msgOpt{bodyBias: x.G.Bool(1, 2), maxPad: 120, crowd: 20})
		if x.G.Bool(1, 6) {
			damage(x, &ms[i].Body)
		}
		scripts[i] = append(genScript(x, ms[i], scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)}), Step{Op: oClose})
	}
	order := []int{}
	for i, s := range scripts {
		for range s {
			order = append(order, i)
		}
	}
	if x.SC.Bool(1, 2) { // interleaved
		for i := len(order) - 1; i > 0; i-- {
			j := x.SC.Choose(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	reps := 1
	if x.G.Bool(1, 40) {
		reps = 5 + x.G.Choose(60)
		x.Tracef("all of it %d times", reps)
		x.Hit("long-lived")
	}
	var first []string
	const year = 365 * 24 * time.Hour
	for k := 0; k < 3; k++ {
		if k > 0 {
			x.NewSim()
			s := x.S
			s.Epoch = []time.Duration{0, -50 * year, 18 * year, 83 * year, time.Duration(x.M.Choose(1<<30)) * time.Second / 4, time.Duration(x.M.Choose(1<<17)) * time.Second}[x.M.Choose(6)]
			s.Tick = []time.Duration{0, time.Nanosecond, time.Millisecond, time.Second, time.Hour}[x.M.Choose(5)]
			s.Seed = 1 + int64(x.M.Choose(1000))
			s.Pid = x.M.Choose(30000)
			s.FS.SkipNames(x.M.Choose(1000))
			s.Restart()
		}
		pass := func() {
			if k > 0 && x.M.Bool(1, 3) {
				x.S.Now += []time.Duration{time.Millisecond, time.Second, time.Minute, 25 * time.Hour, 400 * 24 * time.Hour}[x.M.Choose(5)]
				rt.FireDue()
				x.Hit("time-passed")
			}
		}
		to := recorders{}
		e := sp.build(x, to)
		pass()
		var out []string
		for rep := 0; rep < reps; rep++ {
			rs := make([]*runner, n)
			for _, i := range order {
				if rs[i] == nil {
					i := i
					x.Call("NewTransaction", 100000, func() { rs[i] = newRunner(e, ms[i], scripts[i], to) })
				}
				if rep < 5 {
					pass()
				}
				if !rs[i].done() {
					x.Call("step", 20000000, rs[i].step)
				}
			}
			for i, r := range rs {
				out = append(out, fmt.Sprintf("transaction %d of turn %d", i, rep))
				out = append(out, r.out.lines...)
			}
		}
		if k == 0 {
			first = out
			for _, l := range out {
				x.Tracef("%s", l)
			}
			if anyFired(out) {
				x.NonTrivial = true
			}
			continue
		}
		x.S.Log(strings.Join(out, "\n"))
		if d := diffLines(out, first); d != "" {
			x.Fail("time-or-chance", "with the clock off by %v and moving %v at each reading, random seed %d: %s (otherwise)", x.S.Epoch, x.S.Tick, x.S.Seed, d)
		}
		x.State(len(out), int64(x.S.Epoch/year), x.S.Tick, min(int(x.S.Now/time.Hour), 50))
	}
}

// ---- C26: memory

var poolType = reflect.TypeOf(simsync.Pool{})

// retained adds up the memory reachable from the roots: what pointers point to, elements
// of slices, entries of maps, bytes of strings. Simulated files end the walk.
func retained(roots ...interface{}) int64 { return reach(nil, roots...) }

// place is an object: where it is and what it is (its first field is at the same place).
type place struct {
	p unsafe.Pointer
	t reflect.Type
}

// reach does so and tells found about the objects that are not in a pool.
func reach(found func(place), roots ...interface{}) int64 {
	var total int64
	pooled := 0
	seen := map[unsafe.Pointer]map[reflect.Type]bool{}
	visit := func(p unsafe.Pointer, t reflect.Type) bool {
		m := seen[p]
		if m == nil {
			m = map[reflect.Type]bool{}
			seen[p] = m
		}
		if m[t] {
			return false
		}
		m[t] = true
		if found != nil && pooled == 0 {
			found(place{p, t})
		}
		return true
	}
	flat := map[reflect.Type]bool{}
	var isFlat func(t reflect.Type) bool
	isFlat = func(t reflect.Type) bool { // holds no references
		if r, ok := flat[t]; ok {
			return r
		}
		r := true
		switch t.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			r = false
		case reflect.Array:
			r = isFlat(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				r = r && isFlat(t.Field(i).Type)
			}
		}
		flat[t] = r
		return r
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 200 || !v.IsValid() || isFlat(v.Type()) {
			return
		}
		if pk := v.Type().PkgPath(); pk == "verifsim/rt" {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type().Elem().PkgPath() == "verifsim/rt" || !visit(v.UnsafePointer(), v.Type()) {
				return
			}
			total += int64(v.Type().Elem().Size())
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				if e := v.Elem(); e.Kind() != reflect.Ptr {
					total += int64(e.Type().Size())
				}
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type() == poolType {
				pooled++
				defer func() { pooled-- }()
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice:
			if v.Len() == 0 || !visit(v.UnsafePointer(), v.Type()) {
				return
			}
			total += int64(v.Len()) * int64(v.Type().Elem().Size())
			if isFlat(v.Type().Elem()) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			if v.IsNil() || !visit(v.UnsafePointer(), v.Type()) {
				return
			}
			total += int64(v.Len()) * int64(v.Type().Key().Size()+v.Type().Elem().Size())
			it := v.MapRange()
			for it.Next() {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		case reflect.String:
			if s := v.String(); len(s) > 0 && visit(unsafe.Pointer(unsafe.StringData(s)), v.Type()) {
				total += int64(len(s))
			}
		case reflect.Chan:
			total += int64(v.Len()) * int64(v.Type().Elem().Size())
		}
	}
	for _, r := range roots {
		walk(reflect.ValueOf(r), 0)
	}
	return total
}

// unique gives a message traits that no other message has.
func unique(m *Msg, n int) *Msg {
	c := *m
	u := fmt.Sprintf("u%07d", n)
	c.Src = fmt.Sprintf("10.%03d.%03d.%03d", n>>16&255, n>>8&255, n&255)
	c.SPort = fmt.Sprint(10000 + n%50000)
	c.Path = "/" + u + c.Path
	c.Query = append(append([]KV(nil), m.Query...), KV{u, u})
	c.RawQuery = encodeKVs(c.Query)
	c.Hdr = append(append([]KV(nil), m.Hdr...), KV{"X-" + u, u}, KV{"User-Agent", u})
	c.Cookies = append(append([]KV(nil), m.Cookies...), KV{u, u})
	c.RHdr = append(append([]KV(nil), m.RHdr...), KV{"X-" + u, u})
	switch m.Kind {
	case bodyForm:
		c.Body = append([]byte(u+"="+u+"&"), m.Body...)
		c.CT += "; x=" + u
	case bodyMultipart:
		i := strings.Index(m.CT, "boundary=") + 9
		b := strings.Trim(m.CT[i:], "\"")
		c.CT = m.CT[:i] + b + u
		c.Body = bytes.ReplaceAll(m.Body, []byte("--"+b), []byte("--"+b+u))
		c.Body = append([]byte("--"+b+u+"\r\nContent-Disposition: form-data; name=\""+u+"\"\r\n\r\n"+u+"\r\n"), c.Body...)
		c.Body = bytes.ReplaceAll(c.Body, []byte("filename=\"up"), []byte("filename=\""+u))
	default:
		if c.CT != "" {
			c.CT += "; x=" + u
		}
	}
	if c.Abs != "" {
		c.Abs = "http://" + u + ".example.com"
	}
	for i, h := range c.RHdr {
		if h.K == "Content-Type" {
			c.RHdr[i].V += "; x=" + u
		}
	}
	if len(m.RBody) > 0 {
		c.RBody = append([]byte(u), m.RBody...)
	}
	return &c
}

// parts lists the objects a transaction is made of.
func parts(tx *modsecurity.Transaction) map[place]string {
	r := map[place]string{}
	for n, o := range map[string]interface{}{"transaction": tx, "request": tx.Request, "response": tx.Response, "connection": tx.NetInfo, "errors": tx.Errors,
		"verdict": tx.Intervention(), "request body": tx.Request.Body, "response body": tx.Response.Body, "URL": tx.URL, "request headers": tx.Request.Header,
		"response headers": tx.Response.Header, "data": tx.Data, "cache": tx.VariableCache} {
		if v := reflect.ValueOf(o); !v.IsNil() {
			r[place{v.UnsafePointer(), v.Type()}] = n
		}
	}
	return r
}

func c26(x *X) {
	sp := genSet(x, mixSpec(x, x.G.Bool(1, 3)))
	smallLimits(x, sp)
	x.traceSet(sp)
	type kind struct {
		m        *Msg
		opt      scriptOpt
		cut      int
		close    bool
		shape    []byte // chunking is the same each time
		template []Step
	}
	var cycle []*kind
	for n := 1 + x.G.Choose(3); n > 0; n-- {
		k := &kind{m: genMsg(x, msgOpt{bodyBias: x.G.Bool(3, 4), maxPad: 150}), close: x.G.Bool(2, 3)}
		if len(k.m.Body) > 5000 || len(k.m.Hdr) > 20 || len(k.m.Query) > 20 || len(k.m.RHdr) > 20 || len(k.m.Cookies) > 20 {
			k.m = genMsg(x, msgOpt{bodyBias: true, maxPad: 60})
		}
		k.template = genScript(x, k.m, scriptOpt{collectNum: 1, collectDen: 2, disorder: x.G.Choose(3)})
		if x.G.Bool(1, 4) {
			k.template = k.template[:x.G.Choose(len(k.template)+1)]
		}
		cycle = append(cycle, k)
		x.Tracef("%s %s %q body of %d bytes, %d steps, closed: %v", k.m.Method, k.m.Path, k.m.CT, len(k.m.Body), len(k.template), k.close)
	}
	x.S.MapSeed = uint64(x.M.Choose(4))
	e := sp.build(x, nil)
	if x.F.Bool(1, 4) {
		x.planFaults(x.S.FS, []string{"write", "create", "read", "seek"}, 2)
	}
	serial, lines := 0, 0
	var last []map[place]string // parts of the transactions of the last cycle
	var keep []*modsecurity.Transaction
	once := func() {
		last, keep = nil, nil
		for _, k := range cycle {
			serial++
			m := unique(k.m, serial)
			body, rbody := m.Body, m.RBody
			grown := max(len(body)-len(k.m.Body), 9)
			var tx *modsecurity.Transaction
			var err error
			x.Call("NewTransaction", 100000, func() { tx, err = e.NewTransaction() })
			if err != nil {
				continue
			}
			for _, s := range k.template {
				switch s.Op { // the body differs from that of the template, which has the chunking
				case oReqApp:
					n := min(len(s.Chunk)+grown, len(body))
					s.Chunk, body = body[:n], body[n:]
				case oResApp:
					n := min(len(s.Chunk)+9, len(rbody))
					s.Chunk, rbody = rbody[:n], rbody[n:]
				}
				x.Call(s.String(), 20000000, func() {
					if s.Op == oCollect {
						lines += len(tx.Result().Log)
					} else {
						apply(tx, e, m, s)
					}
				})
			}
			if k.close {
				x.Call("Close", 100000, func() { tx.Close() })
				last, keep = append(last, parts(tx)), append(keep, tx)
			}
		}
	}
	roots := []interface{}{e}
	var names []string
	for n := range rt.Roots {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		roots = append(roots, rt.Roots[n])
	}
	measure := func() int64 {
		n := reach(func(o place) {
			for i, p := range last {
				if what := p[o]; what != "" {
					x.Fail("reachable", "the %s of a closed transaction can be reached from the engine or the packages (%d of the %d last closed)", what, i+1, len(last))
				}
			}
		}, roots...)
		runtime.KeepAlive(keep)
		return n + 64*int64(x.S.Pending())
	}
	const n = 12
	grew := func(a, b int64, n int) bool { return b-a >= int64(8*n) }
	for i := 0; i < 6; i++ {
		once()
	}
	x.S.FS.Healed = true
	s1 := measure()
	for i := 0; i < n; i++ {
		once()
	}
	s2 := measure()
	for i := 0; i < n; i++ {
		once()
	}
	s3 := measure()
	x.Tracef("after %d transactions %d bytes are retained, %d later %d, %d later %d", 6*len(cycle), s1, n*len(cycle), s2, n*len(cycle), s3)
	if grew(s1, s2, n) && grew(s2, s3, n) { // a store of bounded size may fill for some time
		for i := 0; i < 600; i++ {
			once()
		}
		s4 := measure()
		for i := 0; i < 200; i++ {
			once()
		}
		s5 := measure()
		x.Tracef("after %d transactions %d bytes, after %d %d", 630*len(cycle), s4, serial, s5)
		if grew(s4, s5, 200) {
			x.Fail("retained", "the memory that the engine and the packages retain grows with every transaction: %d bytes after %d transactions, %d after %d, %d after %d, %d after %d", s1, 6*len(cycle), s3, (6+2*n)*len(cycle), s4, 630*len(cycle), s5, serial)
		}
		x.Hit("growth-that-ended")
	}
	if lines > 0 {
		x.NonTrivial = true
	}
	x.State(len(cycle), len(sp.Rules), s1/100, min(lines, 5))
}

func init() {
	register(&Check{ID: "C24", Quick: 200000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: append([]string{"the death of the process: at a seeded file operation (writes torn) or between steps; the next process starts with initialised packages on the same simulated disk"}, lifeStub...),
		Rule: "one run = a process with up to 3 interleaved transactions that dies at a seeded file operation or step; files of other processes are put beside what it left, also under names it used; the next process (its temporary names often drawn again in the same order, the clock moved on) runs 1-3 interleaved transactions while the other process changes or removes its own files; foreign files must stay as they are, and every outcome must be that on a clean machine; non-trivial: a body spilled beside foreign files",
		Run:  c24})
	register(&Check{ID: "C25", Quick: 150000, Thor: 5000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = a seeded configuration and history executed 3 times, with the clock off by up to 83 years either way, standing still or moving up to an hour at each reading, up to 400 days passing between notifications, other random numbers, process ids and temporary names; all outcomes must be equal; non-trivial: a probe fired",
		Run:  c25})
	register(&Check{ID: "C26", Quick: 40000, Thor: 1000000, Batch: 50, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = a cycle of 1-3 kinds of transactions (closed or dropped, complete or abandoned, with storage faults at first), repeated 30 times with traits unique to each, and 830 times when what is reachable from the engine and from every package-level variable grew both from the 6th to the 18th and from there to the 30th; it must not grow by 8 bytes per repetition still; non-trivial: a line was logged",
		Run:  c26})
}
