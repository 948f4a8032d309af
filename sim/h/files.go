package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"verifsim/r/modsecurity"
)

// one transaction of a C04 run
type fileTx struct {
	n       int
	tx      *modsecurity.Transaction
	m       *Msg
	script  []Step
	pos     int
	created map[string]bool // files created during its steps
	handles int             // handles it holds
	ack     []byte
	closed  bool
	leaky   bool // a close or removal failed during its steps
	dead    bool
}

func removalFaults(fired map[string]int) int {
	n := 0
	for k, v := range fired {
		if strings.HasPrefix(k, "remove:") || strings.HasPrefix(k, "close:") {
			n += v
		}
	}
	return n
}

func c04(x *X) {
	sp := genSet(x, specOpt{rules: 4, deny: 1, log: 3, bodyVars: 6, plainVars: 1, matchBias: true, seclang: 2})
	sp.InMem = []int64{24, 8, 1, 100, 1 << 17}[x.G.Pick(3, 3, 2, 2, 1)]
	sp.Dir = []string{"/data/waf", "/var/waf/x", "/tmp", "/tmp/waf"}[x.G.Choose(4)]
	faults := x.G.Bool(1, 2)
	x.S.MapSeed = uint64(x.M.Choose(4))
	e := sp.build(x, nil)
	fs := x.S.FS
	if faults {
		x.planFaults(fs, []string{"write", "create", "read", "close", "remove", "remove", "stat", "mkdir"}, 3)
	}
	x.Tracef("temporary directory %s, in-memory limit %d", e.TmpPath, sp.InMem)
	for _, r := range sp.Rules {
		x.Tracef("%v", r)
	}
	var txs []*fileTx
	var names []string
	var fns []func()
	for n := x.crowd(1+x.G.Choose(4), 40); n > 0; n-- {
		t := &fileTx{n: len(txs), created: map[string]bool{}}
		t.m = genMsg(x, msgOpt{bodyBias: true, maxPad: 150})
		if x.G.Bool(1, 6) {
			damage(x, &t.m.Body)
		}
		t.script = genScript(x, t.m, scriptOpt{collectNum: 1, collectDen: 3, disorder: x.G.Choose(4)})
		if x.G.Bool(1, 3) { // left early
			t.script = t.script[:x.G.Choose(len(t.script)+1)]
		}
		if x.G.Bool(1, 6) { // closed while notifications still arrive
			t.script = insert(t.script, x.G.Choose(len(t.script)+1), Step{Op: oClose})
		}
		t.script = append(t.script, Step{Op: oClose})
		if x.G.Bool(1, 3) {
			t.script = append(t.script, Step{Op: oClose})
		}
		txs = append(txs, t)
	}
	confined := func(where string) {
		if len(fs.Exposed) > 0 {
			x.Fail("exposed", "%s: %s is accessible to other users", where, fs.Exposed[0])
		}
		for _, p := range fs.Files() {
			if under(p, e.TmpPath) {
				continue
			}
			if removalFaults(fs.Fired) > 0 && under(p, "/tmp") {
				continue // an upload whose removal failed; checked to be reported
			}
			x.Fail("stray-file", "%s: file %s is left outside the configured directory %s", where, p, e.TmpPath)
		}
	}
	step := func(t *fileTx, concurrent bool) {
		s := t.script[t.pos]
		t.pos++
		if t.tx == nil || s.Op == oCollect {
			if t.tx != nil {
				t.tx.Result()
			}
			return
		}
		nc, nh, nf := len(fs.Created), fs.Handles, removalFaults(fs.Fired)
		allf := fs.FiredTotal()
		bodyErr := t.tx.RequestBodyError
		var err error
		run := func() { err = apply(t.tx, e, t.m, s) }
		if concurrent {
			run()
		} else {
			x.Call(fmt.Sprintf("tx%d %v", t.n, s), 20000000, run)
			x.Tracef("tx%d %v: %v", t.n, s, err)
		}
		if s.Op == oReqApp && err == nil {
			t.ack = append(t.ack, s.Chunk...)
		}
		if concurrent {
			t.closed = t.closed || s.Op == oClose
			return
		}
		for _, p := range fs.Created[nc:] {
			t.created[p] = true
		}
		t.handles += fs.Handles - nh
		fired := removalFaults(fs.Fired) > nf
		if fired {
			t.leaky = true
			if err == nil && t.tx.RequestBodyError == bodyErr && t.tx.RequestBodyError == nil {
				x.Fail("unreported", "tx%d %v: a close or removal failed (%v), nothing reports it", t.n, s, fs.FaultLog)
			}
			x.Hit("removal-failed")
		}
		if s.Op == oClose {
			if err != nil && !fired && fs.FiredTotal() == allf && !t.closed && fs.Reaps == 0 {
				x.Fail("close", "tx%d: Close failed without a fault: %v", t.n, err)
			}
			if err != nil && t.closed && !t.leaky && fs.FiredTotal() == allf && fs.Reaps == 0 {
				x.Fail("close", "tx%d: repeated Close failed: %v", t.n, err)
			}
			t.closed = true
		}
		confined(fmt.Sprintf("tx%d after %v", t.n, s))
		if t.closed {
			if !t.leaky {
				for _, p := range fs.Files() {
					if t.created[p] {
						x.Fail("leftover-file", "tx%d is closed, and its file %s is still there after %v", t.n, p, s)
					}
				}
			}
			if t.handles > 0 {
				x.Fail("leftover-handle", "tx%d is closed and still holds %d open file(s) after %v", t.n, t.handles, s)
			}
		}
		x.State(s.Op, t.m.Kind, int64(len(t.ack)) > sp.InMem, t.closed, len(t.created), t.handles, len(fs.Files()), t.leaky)
	}
	// readBack checks that the body is still the transaction's own
	readBack := func(t *fileTx) {
		if t.tx == nil || t.closed || len(t.ack) == 0 {
			return
		}
		var b bytes.Buffer
		before := fs.FiredTotal()
		if _, err := t.tx.Request.Body.Seek(0, io.SeekStart); err == nil {
			t.tx.Request.Body.WriteTo(&b)
		}
		if !bytes.Equal(b.Bytes(), t.ack) && fs.FiredTotal() == before {
			x.Fail("foreign-bytes", "tx%d: the body reads back as %d bytes that differ at %d from the %d acknowledged ones", t.n, b.Len(), diffAt(b.Bytes(), t.ack), len(t.ack))
		}
	}
	start := func(t *fileTx) {
		before := fs.FiredTotal()
		var err error
		nc, nh := len(fs.Created), fs.Handles
		x.Call("NewTransaction", 100000, func() { t.tx, err = e.NewTransaction() })
		if err != nil {
			t.tx = nil
			if fs.FiredTotal() == before {
				x.Fail("newtx", "NewTransaction failed without a fault: %v", err)
			}
		}
		for _, p := range fs.Created[nc:] {
			t.created[p] = true
		}
		t.handles += fs.Handles - nh
	}
	concurrent := x.G.Bool(1, 4)
	for _, t := range txs {
		start(t)
		t := t
		names = append(names, fmt.Sprintf("tx%d", t.n))
		fns = append(fns, func() {
			for t.pos < len(t.script) {
				if t.script[t.pos].Op == oClose && fs.FiredTotal() == 0 {
					readBack(t)
				}
				step(t, true)
			}
		})
	}
	if concurrent {
		x.Hit("concurrent")
		x.RunTasks(names, fns, 12, 2000, 100000000)
	} else {
		reap := -1
		if faults && x.F.Bool(1, 10) {
			reap = x.F.Choose(20)
		}
		for i := 0; ; i++ {
			var live []*fileTx
			for _, t := range txs {
				if t.pos < len(t.script) {
					live = append(live, t)
				}
			}
			if len(live) == 0 {
				break
			}
			if i == reap {
				x.Tracef("the directory %s is emptied and removed", e.TmpPath)
				fs.Reap(e.TmpPath)
				fs.Fired["reap-directory"]++
			}
			t := live[x.SC.Choose(len(live))]
			for k := 1 + x.SC.Choose(4); k > 0 && t.pos < len(t.script); k-- {
				if fs.Reaps == 0 && t.script[t.pos].Op == oClose {
					readBack(t)
				}
				step(t, false)
			}
		}
	}
	confined("at the end")
	left := fs.Files()
	if n := removalFaults(fs.Fired); len(left) > n {
		x.Fail("leftover-file", "all transactions are closed, %d close or removal operations failed, and these files are left: %v", n, left)
	}
	if fs.Handles != 0 {
		x.Fail("leftover-handle", "all transactions are closed and %d files are still open", fs.Handles)
	}
	if len(fs.Created) > 0 {
		x.NonTrivial = true
		x.Hit("spilled-or-uploaded")
	}
	for _, p := range fs.Created {
		if under(p, "/tmp") && !under(p, e.TmpPath) {
			x.Hit("upload-temporary-file")
		}
	}
}

func init() {
	register(&Check{ID: "C04", Quick: 480000, Thor: 8000000, Batch: 250, Real: lifeReal, Stub: lifeStub,
		Rule: "one run = 1-4 transactions on one engine whose steps (appends, notifications that inspect uploads, collections, early and repeated closes) are interleaved by the seeded scheduler, in a quarter of the runs at statement level; half of the runs with storage faults; after every step files outside the configured directory, files and handles of closed transactions are looked for; non-trivial: a file was created",
		Run:  c04})
}
