package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifsim/rt"
)

// Violation is the panic value that ends a run in which a property failed.
type Violation struct {
	Kind string
	Msg  string
}

func (v *Violation) Error() string { return v.Kind + ": " + v.Msg }

// X is one simulated run: its choice streams, its simulator and its trace.
type X struct {
	ID    string
	Idx   int64
	G     *rt.Stream // workload
	SC    *rt.Stream // schedule
	F     *rt.Stream // faults
	M     *rt.Stream // map orders, clock
	S     *rt.Sim
	trace []string

	NonTrivial bool
	Cover      map[string]int
	States     map[uint64]struct{}
	Sched      uint64
	sims       []*rt.Sim
	impatient  bool // no call may wait
}

// Choices is the recorded input of a run.
type Choices struct {
	G  []uint32 `json:"workload"`
	SC []uint32 `json:"schedule"`
	F  []uint32 `json:"faults"`
	M  []uint32 `json:"order"`
}

func (c Choices) len() int { return len(c.G) + len(c.SC) + len(c.F) + len(c.M) }

func newX(id string, idx int64, seed uint64) *X {
	x := &X{ID: id, Idx: idx, Cover: map[string]int{}, States: map[uint64]struct{}{}}
	x.G, x.SC = rt.NewStream("gen", seed), rt.NewStream("sched", seed)
	x.F, x.M = rt.NewStream("fault", seed), rt.NewStream("order", seed)
	return x
}

func replayX(id string, idx int64, c Choices) *X {
	x := &X{ID: id, Idx: idx, Cover: map[string]int{}, States: map[uint64]struct{}{}}
	x.G, x.SC = rt.ReplayStream("gen", c.G), rt.ReplayStream("sched", c.SC)
	x.F, x.M = rt.ReplayStream("fault", c.F), rt.ReplayStream("order", c.M)
	return x
}

func (x *X) choices() Choices { return Choices{x.G.Rec, x.SC.Rec, x.F.Rec, x.M.Rec} }

// NewSim starts a fresh simulated machine (its own disk, clock and scheduler).
func (x *X) NewSim() *rt.Sim {
	if x.S != nil {
		x.S.Shutdown()
	}
	s := rt.New()
	s.SetSchedule(x.SC, 0, 0)
	x.S = s
	defer s.Begin()
	switch x.M.Pick(4, 1, 1) { // a clock may stand still between readings, or jump
	case 1:
		s.Tick = 0
	case 2:
		s.Tick = time.Second
	}
	x.sims = append(x.sims, s)
	return s
}

func (x *X) Tracef(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if x.S != nil {
		x.S.Log(s)
	}
	if len(x.trace) < 400 {
		if len(s) > 1000 {
			s = s[:1000] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		x.trace = append(x.trace, strings.ToValidUTF8(s, "?")) // as a replay file can hold it
	}
}

func (x *X) Fail(kind, f string, a ...interface{}) {
	panic(&Violation{kind, strings.ToValidUTF8(fmt.Sprintf(f, a...), "?")})
}

// State records that the run reached a state described by parts.
func (x *X) State(parts ...interface{}) {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprint(parts...)) {
		h ^= uint64(c)
		h *= 1099511628211
	}
	x.States[h] = struct{}{}
}

func (x *X) Hit(k string) { x.Cover[k]++ }

// Call runs code under test outside the concurrent part, with a step budget; any
// panic of it is a violation.
func (x *X) Call(what string, budget int64, f func()) {
	s := x.S
	nested := s.Budget != 1<<62
	if !nested {
		s.Budget = s.Steps + budget
	}
	defer func() {
		if !nested {
			s.Budget = 1 << 62
		}
		if e := recover(); e != nil {
			x.panicked(what, e, string(debug.Stack()))
		}
	}()
	was := s.Waited
	f()
	if s.Hung != nil {
		panic(s.Hung)
	}
	if d := s.Waited - was; x.impatient && d >= 50*time.Millisecond {
		x.Fail("waits", "%s: the call slept through %v", what, d)
	}
}

func (x *X) panicked(what string, e interface{}, stack string) {
	if p, ok := e.(*rt.TaskPanic); ok {
		what, e, stack = what+" (in a goroutine of its own)", p.Val, p.Stack
	}
	switch e := e.(type) {
	case *Violation:
		panic(e)
	case *rt.Crash: // planned
		panic(e)
	case *rt.HangError:
		x.Fail("hang", "%s: %v", what, e)
	case *rt.DeadlockError:
		x.Fail("deadlock", "%s: %v", what, e)
	default:
		x.Fail("panic", "%s: panic: %v\n%s", what, e, frames(stack))
	}
}

// frames keeps the frames of the code under test of a stack dump, without addresses.
func frames(st string) string {
	var r []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "verifsim/r/") || strings.HasPrefix(l, "verifsim/std/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			r = append(r, "  at "+l)
			if len(r) >= 8 {
				break
			}
		}
	}
	return strings.Join(r, "\n")
}

// RunTasks runs the functions concurrently under the seeded schedule.
func (x *X) RunTasks(names []string, fns []func(), preempts, gap int, budget int64) {
	s := x.S
	s.SetSchedule(x.SC, preempts, gap)
	s.Budget = s.Steps + budget
	ts := s.Run(names, fns)
	s.Budget = 1 << 62
	if s.Hung != nil {
		x.panicked("concurrent tasks", s.Hung, "")
	}
	for _, t := range ts {
		if t.Panic != nil {
			x.panicked("task "+t.Name, t.Panic, t.Stack)
		}
	}
	if len(s.Races) > 0 {
		var d []string
		for _, r := range s.Races {
			d = append(d, r.Desc)
		}
		sort.Strings(d)
		x.Fail("race", "unsynchronised conflicting accesses:\n  %s", strings.Join(d, "\n  "))
	}
}

// crowd is n, now and then with up to more in addition.
func (x *X) crowd(n, more int) int {
	if x.G.Bool(1, 150) {
		n += 1 + x.G.Choose(more)
		x.Hit("crowd")
	}
	return n
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func q(b []byte) string { return fmt.Sprintf("%q", trunc(string(b), 80)) }

func diffAt(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
