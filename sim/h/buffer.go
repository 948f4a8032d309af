package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"path"
	"strings"

	"verifsim/r/modsecurity"
	"verifsim/rt"
)

// bodyIO is what a caller can do with Transaction.Request.Body and Response.Body.
type bodyIO interface {
	Write(p []byte) (int, error)
	io.Reader
	io.WriterTo
	io.Seeker
	io.Closer
	String() (string, error)
	Bytes() ([]byte, error)
	Len() int64
}

// bodyModel is the reference for one body: the acknowledged bytes and a position.
type bodyModel struct {
	name      string
	b         bodyIO
	app       func([]byte) error
	mem, tot  int64
	ack       []byte
	inspected bool
	pos       int64
	closed    bool
	ctr       int
	touched   bool // a byte was appended
	refused   int
	failed    int
}

func (m *bodyModel) spilled() bool { return int64(len(m.ack)) > m.mem }

type bufWorld struct {
	x      *X
	faults bool
	eng    *modsecurity.Engine
	txs    []*modsecurity.Transaction
	bodies []*bodyModel
	dir    string
	sizes  bool // check bounds (C18)
	big    bool // bodies of many pages
	drip   bool
}

func (w *bufWorld) fired() int { return w.x.S.FS.FiredTotal() }

// planFaults draws the storage faults of a run.
func (x *X) planFaults(fs *rt.FS, ops []string, max int) {
	n := x.F.Choose(max + 1)
	kinds := map[string][]string{
		"create": {"enospc", "emfile", "eacces", "enoent", "eio", "erofs", "edquot"},
		"open":   {"emfile", "eacces", "eio"},
		"write":  {"enospc", "eio", "edquot", "einval"},
		"read":   {"eio", "short", "einval"},
		"seek":   {"eio", "einval"},
		"close":  {"eio", "enospc"},
		"remove": {"ebusy", "eacces", "eio"},
		"stat":   {"eacces", "eio"},
		"mkdir":  {"eacces", "enospc", "erofs"},
	}
	for i := 0; i < n; i++ {
		op := ops[x.F.Choose(len(ops))]
		k := kinds[op][x.F.Choose(len(kinds[op]))]
		p := &rt.FaultPlan{Op: op, Kind: k, Nth: x.F.Choose(6), Span: 1 + x.F.Choose(4), Arg: x.F.Choose(40)}
		if p.Span == 4 {
			p.Span = 0 // for good, until storage is healed
		}
		fs.Plans = append(fs.Plans, p)
		x.Tracef("fault plan: %s operation %d (span %d): %s arg %d", op, p.Nth, p.Span, k, p.Arg)
	}
	if max > 0 && x.F.Bool(1, 5) {
		fs.Capacity = int64(x.F.Choose(120))
		x.Tracef("disk holds %d bytes", fs.Capacity)
	}
}

var allOps = []string{"write", "create", "read", "close", "remove", "stat", "mkdir", "seek"}

func (w *bufWorld) open(maxTx int) {
	x := w.x
	dirs := []string{"/data/waf", "/tmp", "/tmp/waf/a/b", "/data/waf/"}
	w.dir = dirs[x.G.Choose(len(dirs))]
	e := modsecurity.NewEngine()
	e.TmpPath = w.dir
	mems := []int64{8, 0, 1, 2, 3, 16, 31, 64, 513}
	e.RequestBodyInMem = mems[x.G.Choose(len(mems))]
	switch x.G.Pick(6, 2, 2, 1) {
	case 0:
		e.RequestBody = e.RequestBodyInMem + int64(x.G.Choose(60))
	case 1:
		e.RequestBody = int64(x.G.Choose(64))
	case 2:
		e.RequestBody = e.RequestBodyInMem*4 + 200
	case 3:
		e.RequestBody = 20000
	}
	e.ResponseBody = int64(x.G.Choose(80))
	if x.G.Bool(1, 60) { // as good as none
		e.RequestBody = []int64{math.MaxInt64, 1 << 40, math.MaxInt32, math.MaxUint32}[x.G.Choose(4)]
		if x.G.Bool(1, 2) {
			e.RequestBodyInMem = e.RequestBody
		}
		if x.G.Bool(1, 2) {
			e.ResponseBody = math.MaxInt64
		}
		x.Hit("limits-beyond-reach")
	}
	if w.big = x.G.Bool(1, 150); w.big {
		d := modsecurity.NewEngine()
		e.RequestBodyInMem = []int64{32768, 65536, 70000, d.RequestBodyInMem, 4096}[x.G.Choose(5)]
		e.RequestBody = []int64{e.RequestBodyInMem + 70000, d.RequestBody, 131072, 65536}[x.G.Choose(4)]
		e.ResponseBody = []int64{4096, 65536, d.ResponseBody, 100000}[x.G.Choose(4)]
		x.Hit("big-bodies")
	}
	w.eng = e
	n := x.crowd(1+x.G.Choose(maxTx), 20)
	if w.drip = !w.big && x.G.Bool(1, 300); w.drip { // a body that comes in very small parts
		e.RequestBody, e.ResponseBody, n = 20000, 20000, 1
	}
	x.Tracef("engine: in-memory limit %d, total limit %d, response limit %d, dir %s, %d transaction(s)", e.RequestBodyInMem, e.RequestBody, e.ResponseBody, w.dir, n)
	for i := 0; i < n; i++ {
		var tx *modsecurity.Transaction
		var err error
		before := w.fired()
		x.Call("NewTransaction", 100000, func() { tx, err = e.NewTransaction() })
		if err != nil {
			if w.fired() == before {
				x.Fail("newtx", "NewTransaction failed without a fault: %v", err)
			}
			x.Tracef("NewTransaction: %v", err)
			x.Hit("newtransaction-failed")
			continue
		}
		t := tx
		w.txs = append(w.txs, t)
		w.bodies = append(w.bodies,
			&bodyModel{name: fmt.Sprintf("tx%d.request", i), b: t.Request.Body, app: t.AppendRequestBody, mem: e.RequestBodyInMem, tot: e.RequestBody, ctr: i*64 + 1},
			&bodyModel{name: fmt.Sprintf("tx%d.response", i), b: t.Response.Body, app: t.AppendResponseBody, mem: e.ResponseBody, tot: e.ResponseBody, ctr: i*64 + 30})
	}
}

// chunk makes the next bytes of a body: content depends on body and position.
func (m *bodyModel) chunk(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		v := len(m.ack) + i
		p[i] = byte(m.ctr + v*7 + v/251 + m.refused*3)
	}
	return p
}

func (w *bufWorld) chunkSize(m *bodyModel) int {
	x := w.x
	l := int64(len(m.ack))
	var n int64
	kind := x.G.Pick(5, 3, 3, 2, 1, 1)
	if w.drip && (kind != 1 || m.spilled()) {
		return x.G.Choose(30)
	}
	if w.big && (kind == 0 || kind == 4) {
		kind = 6
	}
	switch kind {
	case 0:
		n = int64(x.G.Choose(20))
	case 1: // around the in-memory limit
		n = m.mem - l - 1 + int64(x.G.Choose(4))
	case 2: // around the total limit
		n = m.tot - l - 1 + int64(x.G.Choose(4))
	case 3:
		n = int64(x.G.Choose(3))
	case 4:
		n = int64(x.G.Choose(700))
	case 5:
		n = int64(x.G.Choose(9000))
	case 6: // up to, around and beyond what is copied in one go
		k := int64([]int{4096, 32768, 65536, 131072}[x.G.Choose(4)])
		n = k - 1 + int64(x.G.Choose(3))
		if x.G.Bool(1, 2) {
			n = (l/k+1)*k - l - 1 + int64(x.G.Choose(3))
		}
	}
	if n < 0 {
		n = 0
	}
	lim := int64(20100)
	if w.big {
		lim = 200000
	}
	if n > lim {
		n = lim
	}
	return int(n)
}

func (w *bufWorld) append(m *bodyModel) {
	x := w.x
	n := w.chunkSize(m)
	p := m.chunk(n)
	orig := append([]byte(nil), p...)
	fits := int64(len(m.ack)+n) <= m.tot
	before := w.fired()
	var err error
	if x.G.Bool(1, 4) { // the body is a writer, too
		var k int
		x.Call(m.name+".Write", 200000+8*int64(len(m.ack)+n), func() { k, err = m.b.Write(p) })
		if err == nil && k != n || err != nil && k != 0 {
			x.Fail("write-count", "%s: Write of %d bytes reports %d, %v", m.name, n, k, err)
		}
	} else {
		x.Call(m.name+".append", 200000+8*int64(len(m.ack)+n), func() { err = m.app(p) })
	}
	faulted := w.fired() > before
	x.Tracef("%s append %d bytes at %d (fits=%v fault=%v): %v", m.name, n, len(m.ack), fits, faulted, err)
	if !bytes.Equal(p, orig) {
		x.Fail("chunk-modified", "%s: append modified the caller's chunk", m.name)
	}
	for i := range p { // the caller reuses its memory
		p[i] = 0xEE
	}
	switch {
	case m.inspected || m.closed:
		if err == nil {
			if n == 0 {
				return
			}
			x.Fail("append-after-read", "%s: append of %d bytes after the body was read (or closed) was accepted", m.name, n)
		}
		x.Hit("append-refused-after-read")
		m.refused++
	case err == nil && !fits:
		x.Fail("limit", "%s: append of %d bytes at %d acknowledged over the total limit %d", m.name, n, len(m.ack), m.tot)
	case err == nil:
		m.ack = append(m.ack, orig...)
		m.touched = m.touched || n > 0
		if m.spilled() {
			x.Hit("spilled")
		}
		if int64(len(m.ack)) == m.mem {
			x.Hit("exactly-memory-limit")
		}
		if int64(len(m.ack)) == m.tot {
			x.Hit("exactly-total-limit")
		}
	case !fits:
		x.Hit("append-refused-over-limit")
		m.refused++
	default: // refused although it fits
		if !faulted {
			x.Fail("append-failed", "%s: append of %d bytes at %d refused (%v): limit %d, no fault", m.name, n, len(m.ack), err, m.tot)
		}
		x.Hit("append-failed-by-fault")
		m.failed++
		m.refused++
	}
	w.checkLen(m)
}

func (w *bufWorld) checkLen(m *bodyModel) {
	if l := m.b.Len(); l != int64(len(m.ack)) {
		w.x.Fail("length", "%s: Len() is %d, %d bytes are acknowledged", m.name, l, len(m.ack))
	}
	if !w.sizes {
		return
	}
	lim := w.eng.RequestBody
	if w.eng.ResponseBody > lim {
		lim = w.eng.ResponseBody
	}
	for p, n := range w.x.S.FS.MaxFile {
		if n > lim {
			w.x.Fail("disk-bound", "file %s grew to %d bytes, the total limit is %d", p, n, lim)
		}
	}
}

// consumed checks bytes handed out from the current position on.
func (w *bufWorld) consumed(m *bodyModel, what string, got []byte) {
	var want []byte
	if m.pos < int64(len(m.ack)) {
		want = m.ack[m.pos:]
	}
	if len(got) > len(want) || !bytes.Equal(got, want[:len(got)]) {
		i := diffAt(got, want)
		w.x.Fail("wrong-bytes", "%s: %s at position %d handed out bytes that differ from the %d acknowledged ones at offset %d: got %s want %s", m.name, what, m.pos, len(m.ack), int(m.pos)+i, q(got[min(i, len(got)):]), q(want[min(i, len(want)):]))
	}
	m.pos += int64(len(got))
}

func (w *bufWorld) read(m *bodyModel, n int) bool {
	x := w.x
	p := make([]byte, n)
	before := w.fired()
	var k int
	var err error
	x.Call(m.name+".Read", 100000+8*int64(len(m.ack)), func() { k, err = m.b.Read(p) })
	faulted := w.fired() > before
	x.Tracef("%s read %d at %d: %d, %v (fault=%v)", m.name, n, m.pos, k, err, faulted)
	m.inspected = true
	if k < 0 || k > n {
		x.Fail("read-count", "%s: Read returned %d for a buffer of %d", m.name, k, n)
	}
	w.consumed(m, "Read", p[:k])
	end := m.pos >= int64(len(m.ack))
	switch {
	case err == io.EOF:
		if !end && !(n == 0) {
			x.Fail("early-eof", "%s: Read reports end of body at %d of %d bytes", m.name, m.pos, len(m.ack))
		}
		return false
	case err != nil:
		if !faulted && !m.closed {
			x.Fail("read-error", "%s: Read failed without a fault: %v", m.name, err)
		}
		x.Hit("read-failed-by-fault")
		return false
	case k == 0 && n > 0:
		if end {
			x.Fail("no-eof", "%s: Read at the end of the body returned neither bytes nor an end", m.name)
		}
		x.Fail("no-progress", "%s: Read made no progress", m.name)
	}
	return true
}

func (w *bufWorld) readAll(m *bodyModel) {
	x := w.x
	sz := []int{7, 1, 2, 3, 16, 64, 100, 4096}
	n := sz[x.G.Choose(len(sz))]
	if n < 16 && len(m.ack) > 2000 {
		n = 512
	}
	if len(m.ack) > 30000 {
		n = []int{4096, 32768, 100000, 8191}[x.G.Choose(4)]
	}
	for i := 0; ; i++ {
		if !w.read(m, n) {
			return
		}
		if i > len(m.ack)+10 {
			x.Fail("no-eof", "%s: reading never ends", m.name)
		}
	}
}

func (w *bufWorld) writeTo(m *bodyModel) {
	x := w.x
	before := w.fired()
	var b bytes.Buffer
	var k int64
	var err error
	x.Call(m.name+".WriteTo", 400000+8*int64(len(m.ack)), func() { k, err = m.b.WriteTo(&b) })
	faulted := w.fired() > before
	x.Tracef("%s write out from %d: %d, %v (fault=%v)", m.name, m.pos, k, err, faulted)
	m.inspected = true
	if int(k) != b.Len() {
		x.Fail("writeto-count", "%s: WriteTo reports %d bytes, wrote %d", m.name, k, b.Len())
	}
	w.consumed(m, "WriteTo", b.Bytes())
	if err == nil && m.pos < int64(len(m.ack)) {
		x.Fail("truncated", "%s: WriteTo ended without error at %d of %d bytes", m.name, m.pos, len(m.ack))
	}
	if err != nil && !faulted && !m.closed {
		x.Fail("read-error", "%s: WriteTo failed without a fault: %v", m.name, err)
	}
}

// badWriter takes some bytes and then fails, or takes less than it is given.
type badWriter struct {
	got   []byte
	room  int
	short bool
}

var errBadWriter = errors.New("the other side has gone away")

func (b *badWriter) Write(p []byte) (int, error) {
	n := min(len(p), b.room)
	b.got = append(b.got, p[:n]...)
	b.room -= n
	if n < len(p) {
		if b.short {
			return n, nil
		}
		return n, errBadWriter
	}
	return n, nil
}

// writeToBad writes a body out to somebody who goes away.
func (w *bufWorld) writeToBad(m *bodyModel) {
	x := w.x
	left := max(len(m.ack)-int(m.pos), 0)
	b := &badWriter{room: x.G.Choose(left + 3), short: x.G.Bool(1, 3)}
	room := b.room
	before := w.fired()
	var k int64
	var err error
	x.Call(m.name+".WriteTo", 400000+8*int64(len(m.ack)), func() { k, err = m.b.WriteTo(b) })
	faulted := w.fired() > before
	x.Tracef("%s write out from %d to somebody who takes %d: %d, %v (fault=%v)", m.name, m.pos, room, k, err, faulted)
	m.inspected = true
	if int(k) != len(b.got) {
		x.Fail("writeto-count", "%s: WriteTo reports %d bytes, %d were taken", m.name, k, len(b.got))
	}
	at := m.pos
	w.consumed(m, "WriteTo", b.got)
	if err == nil && m.pos < int64(len(m.ack)) {
		x.Fail("truncated", "%s: WriteTo ended without error at %d of %d bytes, only %d were taken", m.name, m.pos, len(m.ack), len(b.got))
	}
	if err != nil && !faulted && !m.closed && room >= left {
		x.Fail("read-error", "%s: WriteTo failed without a fault: %v", m.name, err)
	}
	if !m.closed && room < left {
		x.Hit("writer-failed")
		// how far the body has been read is now open
		m.pos = at
		w.readBack(m)
	}
}

func (w *bufWorld) seek(m *bodyModel) {
	x := w.x
	whence := x.G.Choose(3)
	off := int64(0)
	if x.G.Bool(3, 4) {
		off = int64(x.G.Choose(len(m.ack) + 3))
	}
	base := int64(0)
	switch whence {
	case 1:
		base = m.pos
		if x.G.Bool(1, 2) {
			off = -off
		}
	case 2:
		base = int64(len(m.ack))
		off = -off
	}
	before := w.fired()
	var k int64
	var err error
	x.Call(m.name+".Seek", 100000+8*int64(len(m.ack)), func() { k, err = m.b.Seek(off, whence) })
	faulted := w.fired() > before
	x.Tracef("%s seek %d whence %d from %d: %d, %v", m.name, off, whence, m.pos, k, err)
	m.inspected = true
	want := base + off
	switch {
	case err != nil && want >= 0 && !faulted && !m.closed:
		x.Fail("seek-error", "%s: Seek(%d,%d) from %d failed: %v", m.name, off, whence, m.pos, err)
	case err == nil && want < 0:
		x.Fail("seek", "%s: Seek(%d,%d) from %d before the start succeeded", m.name, off, whence, m.pos)
	case err == nil && k != want:
		x.Fail("seek", "%s: Seek(%d,%d) from %d reports %d, want %d", m.name, off, whence, m.pos, k, want)
	case err == nil:
		m.pos = k
	}
}

func (w *bufWorld) whole(m *bodyModel) {
	x := w.x
	var got []byte
	var err error
	asBytes := x.G.Bool(1, 2)
	before := w.fired()
	x.Call(m.name+".String/Bytes", 200000+8*int64(len(m.ack)), func() {
		if asBytes {
			got, err = m.b.Bytes()
		} else {
			var s string
			s, err = m.b.String()
			got = []byte(s)
		}
	})
	faulted := w.fired() > before
	x.Tracef("%s whole body (bytes=%v): %d bytes, %v", m.name, asBytes, len(got), err)
	m.inspected = true
	if err == nil && !bytes.Equal(got, m.ack) {
		i := diffAt(got, m.ack)
		x.Fail("wrong-bytes", "%s: whole-body access returned %d bytes without an error, %d are acknowledged; first difference at %d (in-memory limit %d)", m.name, len(got), len(m.ack), i, m.mem)
	}
	if err != nil && !m.spilled() && !faulted {
		x.Fail("read-error", "%s: whole-body access to a body in memory failed: %v", m.name, err)
	}
	if err != nil && (len(got) > len(m.ack) || !bytes.Equal(got, m.ack[:len(got)])) {
		x.Fail("wrong-bytes", "%s: the part returned along with %v is no prefix of the acknowledged bytes", m.name, err)
	}
	if w.sizes && int64(len(got)) > m.mem && m.spilled() {
		x.Fail("memory-bound", "%s: whole-body access to a spilled body returned %d bytes from memory, the in-memory limit is %d", m.name, len(got), m.mem)
	}
}

func (w *bufWorld) close(m *bodyModel) {
	x := w.x
	before := w.fired()
	var err error
	x.Call(m.name+".Close", 100000+8*int64(len(m.ack)), func() { err = m.b.Close() })
	faulted := w.fired() > before
	x.Tracef("%s close: %v (fault=%v)", m.name, err, faulted)
	if err != nil && !faulted && !w.reaped() {
		x.Fail("close-error", "%s: Close failed without a fault: %v", m.name, err)
	}
	m.closed, m.inspected = true, true
}

func (w *bufWorld) reaped() bool { return w.faults }

// readBack rewinds a body and reads all of it; with storage working this must give
// exactly the acknowledged bytes.
func (w *bufWorld) readBack(m *bodyModel) {
	x := w.x
	if m.closed {
		return
	}
	if m.inspected {
		var k int64
		var err error
		before := w.fired()
		x.Call(m.name+".Seek", 100000+8*int64(len(m.ack)), func() { k, err = m.b.Seek(0, io.SeekStart) })
		if err != nil || k != 0 {
			if w.fired() == before {
				x.Fail("seek-error", "%s: Seek to the start: %d, %v", m.name, k, err)
			}
			return
		}
		m.pos = 0
	}
	if x.G.Bool(1, 2) {
		w.writeTo(m)
	} else {
		w.readAll(m)
	}
}

func (w *bufWorld) state(m *bodyModel) {
	l := int64(len(m.ack))
	rel := func(a, b int64) int {
		switch {
		case a < b:
			return -1
		case a == b:
			return 0
		}
		return 1
	}
	w.x.State(strings.HasSuffix(m.name, "request"), rel(l, m.mem), rel(l, m.tot), rel(m.mem, m.tot), m.inspected, m.closed, rel(m.pos, l), rel(m.pos, m.mem), min(m.failed, 2), min(m.refused, 3), len(w.x.S.FS.Fired))
}

func bufferRun(x *X, faults, sizes bool) {
	w := &bufWorld{x: x, faults: faults, sizes: sizes}
	if faults {
		x.planFaults(x.S.FS, allOps, 3)
	}
	w.open(3)
	if len(w.bodies) == 0 {
		return
	}
	steps := x.crowd(3+x.G.Choose(24), 100)
	if w.drip {
		steps = []int{100, 200, 400, 800, 1600}[x.G.Choose(5)]
		x.Hit("very-many-appends")
	}
	// most runs build bodies first and read later
	build := steps * 2 / 3
	reap := -1
	if faults && x.F.Bool(1, 5) {
		reap = x.F.Choose(steps)
	}
	for i := 0; i < steps; i++ {
		m := w.bodies[x.G.Choose(len(w.bodies))]
		if x.G.Bool(4, 5) && len(w.bodies) > 0 {
			m = w.bodies[(x.G.Choose(len(w.bodies)/2))*2]
		}
		if i == reap {
			x.Tracef("the directory %s is removed", w.dir)
			x.S.FS.Reap(w.dir)
			x.S.FS.Fired["reap-directory"]++
		}
		var op int
		if i < build {
			op = x.G.Pick(40, 1, 1, 1, 1, 1)
			if w.drip {
				op = 0
			}
		} else {
			op = x.G.Pick(6, 6, 3, 4, 4, 1)
		}
		if m.closed && op != 0 && op != 5 {
			continue
		}
		switch op {
		case 0:
			w.append(m)
		case 1:
			n := 1 + x.G.Choose(40)
			if x.G.Bool(1, 12) {
				n = 0
			} else if w.big {
				n *= 1 + x.G.Choose(3000)
			}
			w.read(m, n)
		case 2:
			if !faults && x.G.Bool(1, 4) {
				w.writeToBad(m)
			} else {
				w.writeTo(m)
			}
		case 3:
			w.seek(m)
		case 4:
			w.whole(m)
		case 5:
			if x.G.Bool(1, 3) {
				w.close(m)
			}
		}
		w.state(m)
		if len(m.ack) > 0 && m.inspected {
			x.NonTrivial = true
		}
	}
	if faults {
		// storage works again
		x.S.FS.Healed = true
		x.S.FS.Mkdir(w.dir, true, 0700)
		x.Tracef("storage works again")
		for _, m := range w.bodies {
			if !m.inspected && !m.closed {
				for i := x.G.Choose(3); i > 0; i-- {
					w.append(m)
				}
			}
		}
	}
	for _, m := range w.bodies {
		if m.touched && x.G.Bool(1, 2) && !m.closed {
			w.whole(m)
		}
		if !m.closed && x.G.Bool(1, 8) {
			w.writeToBad(m)
		}
		w.readBack(m)
		if !m.closed && m.touched && m.pos != int64(len(m.ack)) {
			x.Fail("truncated", "%s: with storage working only %d of %d acknowledged bytes can be read back", m.name, m.pos, len(m.ack))
		}
		w.checkLen(m)
		if m.touched {
			x.NonTrivial = x.NonTrivial || !faults || x.S.FS.FiredTotal() > 0
		}
	}
	if sizes {
		boundsRun(x)
	}
}

// boundsRun measures what a large body keeps in memory: all byte slices reachable from
// the body object.
func boundsRun(x *X) {
	if !x.G.Bool(1, 12) {
		return
	}
	e := modsecurity.NewEngine()
	e.TmpPath = "/data/big"
	e.RequestBodyInMem = int64(1 + x.G.Choose(5000))
	e.RequestBody = 1 << 20
	e.ResponseBody = 1 << 18
	tx, err := e.NewTransaction()
	if err != nil {
		x.Fail("newtx", "NewTransaction: %v", err)
	}
	sent := int64(0)
	chunk := bytes.Repeat([]byte("0123456789abcdef"), 1+x.G.Choose(4000))
	for sent < 400000 {
		var err error
		x.Call("append", 1000000, func() { err = tx.AppendRequestBody(chunk) })
		if err != nil {
			x.Fail("append-failed", "append refused at %d of %d: %v", sent, e.RequestBody, err)
		}
		sent += int64(len(chunk))
	}
	if held := reachableBytes(tx.Request.Body); held > e.RequestBodyInMem+70000 {
		x.Fail("memory-bound", "a body of %d bytes with in-memory limit %d keeps %d bytes in memory", sent, e.RequestBodyInMem, held)
	}
	x.Tracef("large body of %d bytes, in-memory limit %d", sent, e.RequestBodyInMem)
	x.Hit("large-body")
	if x.G.Bool(1, 2) {
		n, err := io.Copy(io.Discard, struct{ io.Reader }{tx.Request.Body})
		if err != nil || n != sent {
			x.Fail("truncated", "reading a large body: %d of %d, %v", n, sent, err)
		}
		if held := reachableBytes(tx.Request.Body); held > e.RequestBodyInMem+70000 {
			x.Fail("memory-bound", "after reading, a body of %d bytes with in-memory limit %d keeps %d bytes in memory", sent, e.RequestBodyInMem, held)
		}
	}
	tx.Close()
}

func under(p, dir string) bool {
	dir = path.Clean(dir)
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

var bufReal = []string{"modsecurity.buffer, Transaction, Engine (every statement instrumented, otherwise as in /repo)"}
var bufStub = []string{"package os and io/ioutil: in-memory file system with fault injection", "operating system clock and randomness (unused by the code)"}

func init() {
	rule := "one run = seeded limits, 1-3 transactions and 3-26 interleaved operations (append with boundary-biased sizes and reused chunk memory, read, write out, seek, whole-body access, close) against a byte-exact reference; non-trivial: at least one body with acknowledged bytes was read back"
	register(&Check{ID: "C01", Quick: 1440000, Thor: 24000000, Batch: 500, Rule: rule, Real: bufReal, Stub: bufStub,
		Run: func(x *X) { bufferRun(x, false, false) }})
	register(&Check{ID: "C02", Quick: 1440000, Thor: 24000000, Batch: 500, Level: "exploration", Rule: rule + " and, for this check, at least one injected storage fault fired", Real: bufReal, Stub: bufStub,
		Run: func(x *X) { bufferRun(x, true, false) }})
	register(&Check{ID: "C18", Quick: 960000, Thor: 16000000, Batch: 500, Rule: rule + "; half of the runs with storage faults; every twelfth also measures all byte slices reachable from a 400 kB body", Real: bufReal, Stub: bufStub,
		Run: func(x *X) { bufferRun(x, x.G.Bool(1, 2), true) }})
}
