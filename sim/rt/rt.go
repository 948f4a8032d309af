// Package rt is the runtime of the simulator: every yield, shared access, map
// iteration, file operation and lock of the instrumented repository ends up here.
//
// Exactly one task runs at any moment. The task that runs decides, at each yield,
// whether the seeded schedule hands the token to another task.
package rt

import (
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// S is the active simulation, nil outside a run.
var S *Sim

// Sites maps a site number to "file:line func"; filled by generated code.
var Sites []string

func SiteName(i int) string {
	if i >= 0 && i < len(Sites) {
		return Sites[i]
	}
	if i < 0 {
		return fmt.Sprintf("harness%d", i)
	}
	return fmt.Sprintf("site%d", i)
}

type Task struct {
	ID         int
	Name       string
	wake       chan struct{}
	done       bool
	cond       func() bool // non-nil while blocked
	vc         []uint32
	Panic      interface{}
	Stack      string
	root       bool
	keep       bool // a task of Run: it is waited for
	firstClock uint32
}

type Switch struct {
	From, To int
	Site     int
	Step     int64
}

type Race struct {
	Desc string
}

// HangError is the panic value raised when the step budget of a run is used up.
type HangError struct {
	Steps int64
	Site  int
}

func (h *HangError) Error() string {
	return fmt.Sprintf("no completion within %d steps (at %s)", h.Steps, SiteName(h.Site))
}

type abortError struct{}

func (abortError) Error() string { return "run aborted" }

type DeadlockError struct{ Desc string }

func (d *DeadlockError) Error() string { return "deadlock: " + d.Desc }

type Sim struct {
	Steps    int64
	Budget   int64 // absolute step number at which HangError is raised
	tasks    []*Task
	cur      *Task
	rootT    *Task
	multi    bool // other tasks than the main one exist
	inRun    bool
	fair     bool
	Hung     *HangError // the first, even if the code under test recovered from it
	crash    *TaskPanic
	chans    map[unsafe.Pointer]*chanState
	timers   []*timer
	timerSeq int
	gap      int64
	aborting bool

	// schedule
	Sched     *Stream
	preempts  int
	gapMax    int
	Switches  []Switch
	SchedHash uint64

	// map order
	MapSeed uint64
	mapCtr  uint64
	MapIter int64
	seqs    map[interface{}]uint64 // of the objects that became keys of a map, in the order they did

	lastSite int
	Hist     map[int]int64 // only when CountSites

	// race detection
	RaceOn   bool
	shadow   map[unsafe.Pointer]*cell
	syncVC   map[unsafe.Pointer][]uint32
	Races    []Race
	raceSeen map[string]bool
	Accesses int64

	// clock, chance and identity of the process
	Epoch time.Duration // how far the clock is off
	Seed  int64         // of the random numbers of the process
	Pid   int
	Now   time.Duration
	Tick  time.Duration // how far the clock moves at each reading

	Waited time.Duration // what was slept through

	FS *FS

	LogHash uint64 // event log hash
}

func New() *Sim {
	s := &Sim{Tick: time.Microsecond, Budget: 1 << 62, SchedHash: 14695981039346656037, LogHash: 14695981039346656037}
	s.rootT = &Task{ID: 0, Name: "root", root: true, wake: make(chan struct{}, 1)}
	s.cur = s.rootT
	s.tasks = []*Task{s.rootT}
	s.FS = NewFS(s)
	return s
}

// Log folds an event into the event-log hash (never draws, never reads a clock).
func (s *Sim) Log(ev string) {
	h := s.LogHash
	for i := 0; i < len(ev); i++ {
		h ^= uint64(ev[i])
		h *= 1099511628211
	}
	h ^= uint64(s.cur.ID)
	h *= 1099511628211
	s.LogHash = h
}

// SetSchedule configures preemption for the next Run: at most n preemptions with
// gaps of up to gapMax yields, all drawn from st.
func (s *Sim) SetSchedule(st *Stream, n, gapMax int) {
	s.Sched, s.preempts, s.gapMax = st, n, gapMax
}

func (s *Sim) CurTask() int { return s.cur.ID }

// Y is the yield inserted before every statement.
func Y(site int) {
	if S != nil {
		S.yield(site)
	}
}

func (s *Sim) yield(site int) {
	s.Steps++
	s.lastSite = site
	if s.Steps > s.Budget {
		s.hang(site)
	}
	if s.multi {
		if s.aborting && s.cur != s.rootT {
			panic(abortError{})
		}
		s.gap--
		if s.gap <= 0 {
			s.preempt(site)
		}
	}
}

func (s *Sim) hang(site int) {
	s.Budget = s.Steps + 100000 // the panic may run deferred instrumented code
	e := &HangError{s.Steps, site}
	if s.Hung == nil {
		s.Hung = e
	}
	panic(e)
}

const (
	fairGap    = 20000 // once the preemptions are used up, no task starves the others
	ambientGap = 400
)

func (s *Sim) newGap() {
	s.fair = false
	switch {
	case s.preempts > 0:
		s.preempts--
		s.gap = 1 + int64(s.Sched.Choose(s.gapMax))
	case s.inRun || s.Sched == nil:
		s.fair = true
		s.gap = fairGap
	default:
		s.gap = 1 + int64(s.Sched.Choose(ambientGap))
	}
}

func (s *Sim) runnable(except *Task) []*Task {
	FireDue()
	var r []*Task
	for _, t := range s.tasks {
		if t.done || t == except {
			continue
		}
		if t.cond != nil && !t.cond() {
			continue
		}
		r = append(r, t)
	}
	return r
}

func (s *Sim) choose(r []*Task) *Task {
	if len(r) > 1 && s.Sched != nil {
		return r[s.Sched.Choose(len(r))]
	}
	return r[0]
}

func (s *Sim) preempt(site int) {
	fair := s.fair
	if len(s.timers) > 0 && s.Sched != nil && !fair && s.Sched.Bool(1, 8) {
		s.advance() // this task is slow: a timer fires before it goes on
	}
	r := s.runnable(s.cur)
	if len(r) == 0 {
		s.newGap()
		return
	}
	next := r[0]
	if fair { // in turn
		for _, t := range r {
			if t.ID > s.cur.ID {
				next = t
				break
			}
		}
	} else {
		next = s.choose(r)
	}
	s.newGap()
	s.switchTo(next, site)
}

func (s *Sim) note(from, to *Task, site int) {
	if len(s.Switches) < 4000 {
		s.Switches = append(s.Switches, Switch{from.ID, to.ID, site, s.Steps})
	}
	h := s.SchedHash
	for _, v := range [...]uint64{uint64(from.ID), uint64(to.ID), uint64(site)} {
		h ^= v
		h *= 1099511628211
	}
	s.SchedHash = h
}

func (s *Sim) switchTo(next *Task, site int) {
	me := s.cur
	s.note(me, next, site)
	s.cur = next
	next.wake <- struct{}{}
	<-me.wake
	s.cur = me
	if s.aborting {
		if me != s.rootT {
			panic(abortError{})
		}
		if !s.inRun {
			s.rootAborts()
		}
	}
}

// rootAborts passes the panic of a background task, which ends the process, on to the
// main task. The other tasks are gone by now.
func (s *Sim) rootAborts() {
	s.aborting = false
	s.rootT.cond = nil
	e := s.crash
	s.crash = nil
	if e == nil {
		panic(abortError{})
	}
	panic(e)
}

// Block suspends the current task until cond holds.
func Block(what string, cond func() bool) {
	s := S
	if s == nil {
		if !cond() {
			panic(&DeadlockError{what + " (before the run)"})
		}
		return
	}
	for !cond() {
		if !s.multi {
			if !s.advance() {
				panic(&DeadlockError{what + " (single task)"})
			}
			if s.Steps > s.Budget {
				s.hang(s.lastSite)
			}
			continue
		}
		me := s.cur
		me.cond = cond
		r := s.runnable(me)
		for len(r) == 0 && !cond() {
			if !s.advance() {
				me.cond = nil
				panic(&DeadlockError{what})
			}
			if s.Steps > s.Budget {
				me.cond = nil
				s.hang(s.lastSite)
			}
			r = s.runnable(me)
		}
		if len(r) > 0 && !cond() {
			s.switchTo(s.choose(r), -9)
		}
		me.cond = nil
	}
}

func (s *Sim) addTask(name string) *Task {
	id := len(s.tasks)
	t := &Task{ID: id, Name: name, wake: make(chan struct{}, 1)}
	if id >= maxTasks-2 { // use the number of a finished task again
		for i, o := range s.tasks {
			if o.done && !o.keep {
				t.ID = o.ID
				if s.syncVC != nil && o.vc != nil {
					t.firstClock = o.vc[o.ID] + 1
				}
				s.tasks[i] = t
				return t
			}
		}
	}
	s.tasks = append(s.tasks, t)
	return t
}

func (t *Task) initVC(from []uint32) {
	t.vc = append([]uint32(nil), from...)
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID] = t.firstClock + 1
}

// Run executes the functions as concurrent tasks under the seeded schedule and
// returns when all are finished.
func (s *Sim) Run(names []string, fns []func()) []*Task {
	s.compact()
	s.multi, s.inRun = true, true
	s.aborting = false
	var mine []*Task
	for i := range fns {
		t := s.addTask(names[i])
		t.keep = true
		mine = append(mine, t)
	}
	if s.RaceOn {
		s.shadow = make(map[unsafe.Pointer]*cell)
		s.syncVC = make(map[unsafe.Pointer][]uint32)
		for _, t := range s.tasks {
			t.initVC(nil)
		}
	}
	for i, f := range fns {
		s.start(mine[i], f)
	}
	root := s.rootT
	finished := func() bool {
		for _, t := range s.tasks {
			if t != root && !t.done && (t.keep || s.aborting) {
				return false
			}
		}
		return true
	}
	root.cond = finished
	first := s.choose(s.runnable(root))
	s.newGap()
	s.switchTo(first, -1)
	root.cond = nil
	s.inRun = false
	s.shadow, s.syncVC = nil, nil
	var r []*Task
	for _, t := range s.tasks {
		if t != root {
			r = append(r, t)
		}
	}
	s.aborting, s.crash = false, nil
	for _, t := range s.tasks {
		t.keep, t.vc, t.firstClock = false, nil, 0
	}
	s.multi = s.live()
	s.preempts = 0
	if s.multi {
		s.newGap()
	}
	return r
}

func (s *Sim) live() bool {
	for _, t := range s.tasks {
		if t != s.rootT && !t.done {
			return true
		}
	}
	return false
}

// compact drops the finished tasks of earlier phases.
func (s *Sim) compact() {
	keep := s.tasks[:1:1]
	for _, t := range s.tasks[1:] {
		if !t.done {
			t.ID = len(keep)
			keep = append(keep, t)
		}
	}
	s.tasks = keep
}

func (s *Sim) start(t *Task, f func()) {
	go func() {
		<-t.wake
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortError); !ok {
					t.Panic = e
					t.Stack = trimStack(string(debug.Stack()))
					if s.crash == nil {
						s.crash = &TaskPanic{e, t.Stack}
					}
				}
				s.aborting = true
			}
			t.done = true
			s.leave(t)
		}()
		if s.aborting {
			panic(abortError{})
		}
		f()
	}()
}

// TaskPanic is what the main task panics with when a background task panicked.
type TaskPanic struct {
	Val   interface{}
	Stack string
}

// leave hands the token on when t is finished.
func (s *Sim) leave(t *Task) {
	give := func(o *Task, site int) {
		s.note(t, o, site)
		s.cur = o
		o.wake <- struct{}{}
	}
	if s.aborting {
		for _, o := range s.tasks {
			if !o.done && o != s.rootT {
				o.cond = nil
				give(o, -3)
				return
			}
		}
		give(s.rootT, -3)
		return
	}
	for {
		if r := s.runnable(t); len(r) > 0 {
			give(s.choose(r), -2)
			return
		}
		if !s.advance() {
			break
		}
	}
	// every task is blocked: the one that is woken finds out
	for _, o := range s.tasks {
		if !o.done && o.keep {
			give(o, -3)
			return
		}
	}
	give(s.rootT, -3)
}

// Go replaces a go statement of the repository.
func Go(f func()) {
	s := S
	if s == nil {
		pending = append(pending, f) // a worker of the process: it starts with every run
		return
	}
	if !s.multi {
		s.compact()
		s.multi = true
		s.newGap()
	}
	t := s.addTask("go")
	if s.syncVC != nil {
		me := s.cur
		t.initVC(me.vc)
		if me.vc != nil {
			me.vc[me.ID]++
		}
	}
	s.start(t, f)
	Y(-4)
}

var pending []func()

// Begin makes s the active simulation.
func (s *Sim) Begin() {
	S = s
	s.Restart()
	if NoReset || len(resets) == 0 {
		for _, f := range pending {
			Go(f)
		}
	}
}

// NoReset says that package state cannot be made anew.
var NoReset = os.Getenv("VERIFSIM_NORESET") != ""

var resets []func()

// OnReset registers what makes the state of a package as it is when a process starts;
// packages register in the order of their initialisation.
func OnReset(f func()) { resets = append(resets, f) }

// RandSeed is the seed for the random numbers of the running process.
func RandSeed() int64 {
	if S == nil {
		return 0
	}
	return S.Seed
}

// Restart makes the state of all packages as when a process starts.
func (s *Sim) Restart() {
	if NoReset {
		return
	}
	for _, f := range resets {
		f()
	}
}

// Roots are the package-level variables, by name.
var Roots = map[string]interface{}{}

func Root(name string, p interface{}) { Roots[name] = p }

// Pending counts the tasks and timers that are left.
func (s *Sim) Pending() int {
	n := len(s.timers)
	for _, t := range s.tasks {
		if !t.done && t != s.rootT {
			n++
		}
	}
	return n
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Shutdown ends the tasks that are left.
func (s *Sim) Shutdown() {
	old := S
	S = s
	for s.live() {
		s.aborting = true
		s.inRun = true
		s.cur = s.rootT
		for _, o := range s.tasks {
			if !o.done && o != s.rootT {
				o.cond = nil
				s.switchTo(o, -5)
				break
			}
		}
	}
	s.aborting, s.inRun, s.multi = false, false, false
	S = old
}

// Kill ends a process: its background tasks and timers are gone.
func (s *Sim) Kill() {
	if NoReset {
		return
	}
	s.Shutdown()
	s.compact()
	s.timers, s.crash = nil, nil
}

func trimStack(st string) string {
	if len(st) > 6000 {
		st = st[:6000]
	}
	return st
}

// ---- map iteration order

// MapIter iterates over a map in the simulator's order: the keys present at the start,
// those deleted meanwhile left out.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Iter starts an iteration; the zero key and value only give the loop variables their
// types.
func Iter[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	return &MapIter[K, V]{m, order(RM(m))}, k, v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		x := it.keys[0]
		it.keys = it.keys[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

func order[K comparable, V any](m map[K]V) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if s := S; s != nil {
		s.MapIter++
		if s.MapSeed != 0 {
			s.mapCtr++
			x := s.MapSeed + s.mapCtr*0x9e3779b97f4a7c15
			for i := len(keys) - 1; i > 0; i-- {
				x = mix(x)
				j := int(x % uint64(i+1))
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// seqs numbers the objects that became keys of a map before any simulation, as the
// program was initialised.
var (
	seqs  = map[interface{}]uint64{}
	seqMu sync.Mutex
)

// PK notes that an object becomes the key of a map, so that maps whose keys are objects
// are gone through in an order that does not depend on where the objects lie in memory.
func PK[K any](k K) K {
	v := reflect.ValueOf(k)
	if !v.IsValid() || v.Kind() <= reflect.Complex128 || v.Kind() == reflect.String || !v.Comparable() {
		return k
	}
	if s := S; s != nil {
		if s.seqs == nil {
			s.seqs = map[interface{}]uint64{}
		}
		if _, ok := s.seqs[k]; !ok {
			s.seqs[k] = uint64(len(s.seqs))
		}
		return k
	}
	seqMu.Lock()
	defer seqMu.Unlock()
	if _, ok := seqs[k]; !ok {
		seqs[k] = uint64(len(seqs))
	}
	return k
}

func sortKeys[K comparable](keys []K) {
	switch ks := interface{}(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make([]string, len(keys))
		for i, k := range keys {
			strs[i] = keyString(k)
		}
		sort.Sort(&byStr[K]{strs, keys})
	}
}

func keyString(k interface{}) string {
	v := reflect.ValueOf(k)
	if v.IsValid() && v.Kind() > reflect.Complex128 && v.Kind() != reflect.String {
		if s := S; s != nil {
			if n, ok := s.seqs[k]; ok {
				return fmt.Sprintf("\x01%020d", n)
			}
		}
		seqMu.Lock()
		n, ok := seqs[k]
		seqMu.Unlock()
		if ok {
			return fmt.Sprintf("\x00%020d", n)
		}
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return ""
	}
	return fmt.Sprintf("%v", k)
}

type byStr[K comparable] struct {
	s []string
	k []K
}

func (b *byStr[K]) Len() int           { return len(b.s) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int)      { b.s[i], b.s[j] = b.s[j], b.s[i]; b.k[i], b.k[j] = b.k[j], b.k[i] }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Mix(z uint64) uint64 { return mix(z) }
