package rt

import (
	"time"
	"unsafe"
)

// Channels keep their Go types: the instrumenter sends every operation on them through
// this file, which never lets the running task block outside the scheduler. An
// unbuffered channel is made with one slot; a sender stays blocked until its value is
// taken. Channels made elsewhere (by the library) are tried without blocking.

type chanState struct {
	unbuf       bool
	closed      bool
	puts, takes int64
	waiting     int // receivers that wait, selects included
	sync        byte
	promised    bool // the value was sent by a select, counting on a waiting receiver
}

// channels made while no simulation runs (package initialisers)
var globalChans = map[unsafe.Pointer]*chanState{}

func chanPtr[E any](c <-chan E) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func stateOf(p unsafe.Pointer) *chanState {
	if s := S; s != nil {
		if st := s.chans[p]; st != nil {
			return st
		}
	}
	return globalChans[p]
}

func MakeChan[C ~chan E, E any](n int) C {
	size := n
	if n == 0 {
		size = 1
	}
	c := make(C, size)
	st := &chanState{unbuf: n == 0}
	p := chanPtr[E]((chan E)(c))
	if s := S; s != nil {
		if s.chans == nil {
			s.chans = map[unsafe.Pointer]*chanState{}
		}
		s.chans[p] = st
	} else {
		globalChans[p] = st
	}
	return c
}

func LenChan[E any](c <-chan E) int {
	if st := stateOf(chanPtr(c)); st != nil && st.unbuf {
		return 0
	}
	return len(c)
}

func CapChan[E any](c <-chan E) int {
	if st := stateOf(chanPtr(c)); st != nil && st.unbuf {
		return 0
	}
	return cap(c)
}

func LenSend[E any](c chan<- E) int {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if st := stateOf(p); st != nil && st.unbuf {
		return 0
	}
	return len(c)
}

func CloseChan[E any](c chan<- E) {
	Y(-41)
	close(c) // a nil or closed channel panics here
	if st := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&c))); st != nil {
		st.closed = true
		Release(unsafe.Pointer(&st.sync))
	}
}

type selCase interface {
	ready(sel bool) bool
	do()
	wait(d int)
	promised() bool
}

type RecvCase[E any] struct {
	c   <-chan E
	st  *chanState
	V   E
	Ok  bool
	got bool
}

func CaseRecv[E any](c <-chan E) *RecvCase[E] {
	r := &RecvCase[E]{c: c}
	if c != nil {
		r.st = stateOf(chanPtr(c))
	}
	return r
}

func (r *RecvCase[E]) ready(bool) bool {
	if r.c == nil {
		return false
	}
	if r.st != nil {
		return len(r.c) > 0 || r.st.closed
	}
	if !r.got {
		select {
		case r.V, r.Ok = <-r.c:
			r.got = true
		default:
		}
	}
	return r.got
}

func (r *RecvCase[E]) do() {
	if r.st == nil {
		acquireAll() // the library's own synchronisation is not seen
		return
	}
	select {
	case r.V, r.Ok = <-r.c:
	default:
		panic("verifrt: receive not ready")
	}
	if r.Ok {
		r.st.takes++
		r.st.promised = false
	}
	Acquire(unsafe.Pointer(&r.st.sync))
	Release(unsafe.Pointer(&r.st.sync))
}

func (r *RecvCase[E]) promised() bool { return r.st != nil && r.st.promised && len(r.c) > 0 }

func (r *RecvCase[E]) wait(d int) {
	if r.st != nil {
		r.st.waiting += d
	}
}

type SendTo[E any] struct{ c chan<- E }

// To begins a send to c.
func To[E any](c chan<- E) SendTo[E] { return SendTo[E]{c} }

type SendCase[E any] struct {
	c   chan<- E
	st  *chanState
	v   E
	got bool
	sel bool
}

func (t SendTo[E]) Case(v E) *SendCase[E] {
	r := &SendCase[E]{c: t.c, v: v}
	if t.c != nil {
		r.st = stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&t.c)))
	}
	return r
}

func (t SendTo[E]) Send(v E) {
	Y(-42)
	r := t.Case(v)
	if !r.ready(false) {
		Block("send on a channel", func() bool { return r.ready(false) })
	}
	r.do()
}

func (r *SendCase[E]) ready(sel bool) bool {
	if r.c == nil {
		return false
	}
	r.sel = sel
	if st := r.st; st != nil {
		switch {
		case st.closed:
			return true // do panics
		case st.unbuf && sel:
			return len(r.c) == 0 && st.waiting > 0
		}
		return len(r.c) < cap(r.c)
	}
	if !r.got {
		select {
		case r.c <- r.v:
			r.got = true
		default:
		}
	}
	return r.got
}

func (r *SendCase[E]) do() {
	st := r.st
	if st == nil {
		return
	}
	Acquire(unsafe.Pointer(&st.sync))
	Release(unsafe.Pointer(&st.sync))
	select {
	case r.c <- r.v:
	default:
		panic("verifrt: send not ready")
	}
	st.puts++
	st.promised = st.unbuf && r.sel
	if n := st.puts; st.unbuf {
		Block("send on an unbuffered channel", func() bool { return st.takes >= n })
		Acquire(unsafe.Pointer(&st.sync))
	}
}

func (r *SendCase[E]) wait(int)       {}
func (r *SendCase[E]) promised() bool { return false }

// Select performs one ready case and returns its index, -1 for the default clause.
func Select(dflt bool, cs ...selCase) int {
	Y(-43)
	pick := func() int {
		at := 0
		if s := S; s != nil && s.Sched != nil && s.multi && len(cs) > 1 {
			at = s.Sched.Choose(len(cs))
		}
		for i := range cs {
			k := (at + i) % len(cs)
			if cs[k].ready(true) {
				cs[k].do()
				return k
			}
		}
		return -1
	}
	if k := pick(); k >= 0 || dflt {
		return k
	}
	for _, c := range cs {
		c.wait(1)
	}
	Block("select", func() bool {
		for _, c := range cs {
			if c.ready(true) {
				return true
			}
		}
		return false
	})
	for _, c := range cs {
		c.wait(-1)
	}
	for k, c := range cs { // a sender counts on this receiver
		if c.promised() {
			c.do()
			return k
		}
	}
	return pick()
}

// Forever is an empty select.
func Forever() string {
	Block("select {}", func() bool { return false })
	return "unreachable"
}

func Recv[E any](c <-chan E) E {
	v, _ := Recv2(c)
	return v
}

func Recv2[E any](c <-chan E) (E, bool) {
	Y(-44)
	r := CaseRecv(c)
	if !r.ready(false) {
		r.wait(1)
		Block("receive from a channel", func() bool { return r.ready(false) })
		r.wait(-1)
	}
	r.do()
	return r.V, r.Ok
}

type ChanIter[E any] struct{ c <-chan E }

func IterChan[E any](c <-chan E) (it *ChanIter[E], v E) { return &ChanIter[E]{c}, v }

func (it *ChanIter[E]) Next(v *E) bool {
	x, ok := Recv2(it.c)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- timers

type timer struct {
	at  time.Duration
	seq int
	f   func()
}

// AddTimer has f called when the simulated clock reaches now+d; the result cancels it
// and reports whether it had not fired.
func AddTimer(d time.Duration, f func()) func() bool {
	s := S
	if s == nil {
		return func() bool { return false }
	}
	if d < 0 {
		d = 0
	}
	s.timerSeq++
	t := &timer{s.Now + d, s.timerSeq, f}
	s.timers = append(s.timers, t)
	return func() bool {
		for i, o := range s.timers {
			if o == t {
				s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
				return true
			}
		}
		return false
	}
}

func (s *Sim) earliest() int {
	at := -1
	for i, t := range s.timers {
		if at < 0 || t.at < s.timers[at].at || t.at == s.timers[at].at && t.seq < s.timers[at].seq {
			at = i
		}
	}
	return at
}

func (s *Sim) fire(i int) {
	t := s.timers[i]
	s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
	if s.Now < t.at {
		s.Now = t.at
	}
	t.f()
}

// FireDue fires the timers whose time has come.
func FireDue() {
	s := S
	if s == nil {
		return
	}
	for {
		i := s.earliest()
		if i < 0 || s.timers[i].at > s.Now {
			return
		}
		s.fire(i)
	}
}

// advance moves the clock to the next timer.
func (s *Sim) advance() bool {
	i := s.earliest()
	if i < 0 {
		return false
	}
	s.Steps++ // time passing counts against the budget
	was := s.Now
	s.fire(i)
	s.Waited += s.Now - was
	FireDue()
	return true
}

// Sleep suspends the task for d of simulated time.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	Y(-50)
	if d <= 0 {
		return
	}
	if !s.multi {
		s.Now += d
		s.Waited += d
		FireDue()
		return
	}
	woken := false
	AddTimer(d, func() { woken = true })
	Block("sleep", func() bool { return woken })
}

// acquireAll orders the current task after everything every task has done so far.
func acquireAll() {
	s := S
	if s == nil || s.syncVC == nil {
		return
	}
	me := s.cur
	for _, t := range s.tasks {
		for i, x := range t.vc {
			for len(me.vc) <= i {
				me.vc = append(me.vc, 0)
			}
			if x > me.vc[i] {
				me.vc[i] = x
			}
		}
		if t != me && t.vc != nil {
			t.vc[t.ID]++
		}
	}
}

// TrySend sends if that needs no waiting.
func TrySend[E any](c chan E, v E) {
	select {
	case c <- v:
		if st := stateOf(chanPtr[E](c)); st != nil {
			Release(unsafe.Pointer(&st.sync))
		}
	default:
	}
}

// Pass lets another task run.
func Pass() {
	Y(-45)
	if s := S; s != nil && s.multi {
		if r := s.runnable(s.cur); len(r) > 0 {
			s.switchTo(s.choose(r), -45)
		} else {
			s.advance()
		}
	}
}

func NumTasks() int {
	n := 1
	if s := S; s != nil {
		for _, t := range s.tasks {
			if !t.done && t != s.rootT {
				n++
			}
		}
	}
	return n
}
