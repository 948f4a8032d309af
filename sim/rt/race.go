package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Happens-before race detection over the accesses the instrumenter exposes.
// Keys are the start addresses of leaf fields; keeping them as pointers keeps the
// objects alive for the run, so addresses are never reused.

const maxTasks = 24

type cell struct {
	wTask  int
	wClock uint32
	wSite  int
	rClock [maxTasks]uint32
	rSite  [maxTasks]int32
}

type leafSet struct{ offs []uintptr }

var leafCache = map[reflect.Type]*leafSet{}

func leaves(t reflect.Type) *leafSet {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := &leafSet{}
	var walk func(t reflect.Type, off uintptr)
	walk = func(t reflect.Type, off uintptr) {
		if len(l.offs) >= 256 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, off+f.Offset)
			}
		case reflect.Array:
			for i := 0; i < t.Len() && i < 64; i++ {
				walk(t.Elem(), off+uintptr(i)*t.Elem().Size())
			}
		default:
			if t.Size() > 0 {
				l.offs = append(l.offs, off)
			}
		}
	}
	walk(t, 0)
	leafCache[t] = l
	return l
}

func (s *Sim) leaf(p unsafe.Pointer, write bool) {
	s.Accesses++
	me := s.cur
	id := me.ID
	if id >= maxTasks || me.vc == nil {
		return
	}
	c := s.shadow[p]
	if c == nil {
		c = &cell{}
		s.shadow[p] = c
	}
	at := func(i int) uint32 {
		if i < len(me.vc) {
			return me.vc[i]
		}
		return 0
	}
	if c.wTask != 0 && c.wTask != id && c.wClock > at(c.wTask) {
		s.race(c.wTask, c.wSite, true, id, write)
	}
	if write {
		for i := 1; i < maxTasks; i++ {
			if i != id && c.rClock[i] > at(i) {
				s.race(i, int(c.rSite[i]), false, id, true)
			}
		}
		c.wTask, c.wClock, c.wSite = id, me.vc[id], s.lastSite
	} else {
		c.rClock[id], c.rSite[id] = me.vc[id], int32(s.lastSite)
	}
}

func (s *Sim) race(t1, site1 int, w1 bool, t2 int, w2 bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	d := fmt.Sprintf("%s at %s and %s at %s are not ordered by any synchronisation", k(w1), SiteName(site1), k(w2), SiteName(s.lastSite))
	if s.raceSeen == nil {
		s.raceSeen = map[string]bool{}
	}
	if s.raceSeen[d] || len(s.Races) >= 20 {
		return
	}
	s.raceSeen[d] = true
	s.Races = append(s.Races, Race{fmt.Sprintf("task %d / task %d: %s", t1, t2, d)})
}

func record[T any](p *T, write bool) {
	s := S
	if s == nil || s.shadow == nil || p == nil {
		return
	}
	t := reflect.TypeOf(p).Elem()
	switch t.Kind() {
	case reflect.Struct, reflect.Array:
		for _, o := range leaves(t).offs {
			s.leaf(unsafe.Add(unsafe.Pointer(p), o), write)
		}
	default:
		if t.Size() > 0 {
			s.leaf(unsafe.Pointer(p), write)
		}
	}
}

// RD records a read of *p and returns p; WR a write.
func RD[T any](p *T) *T {
	if S != nil && S.multi {
		Y(S.lastSite)
		record(p, false)
	}
	return p
}
func WR[T any](p *T) *T {
	if S != nil && S.multi {
		Y(S.lastSite)
		record(p, true)
	}
	return p
}

// OBJ records a write to the object behind p as a whole (a mutating method of a
// library type that is not safe for concurrent use) and returns p.
func OBJ[T any](p *T) *T {
	if S != nil && S.multi && p != nil {
		Y(S.lastSite)
		if S.shadow != nil {
			S.leaf(unsafe.Pointer(p), true)
		}
	}
	return p
}

// OBR records a read of the object behind p.
func OBR[T any](p *T) *T {
	if S != nil && S.multi && p != nil {
		Y(S.lastSite)
		if S.shadow != nil {
			S.leaf(unsafe.Pointer(p), false)
		}
	}
	return p
}

func S_() *Sim { return S }

func mapPtr(m interface{}) unsafe.Pointer { return reflect.ValueOf(m).UnsafePointer() }

// RM and WM record a read or write of a map's contents.
func RM[M ~map[K]V, K comparable, V any](m M) M {
	if S != nil && S.multi {
		Y(S.lastSite)
		if S.shadow != nil && m != nil {
			S.leaf(mapPtr(m), false)
		}
	}
	return m
}
func WM[M ~map[K]V, K comparable, V any](m M) M {
	if S != nil && S.multi {
		Y(S.lastSite)
		if S.shadow != nil && m != nil {
			S.leaf(mapPtr(m), true)
		}
	}
	return m
}

// SC charges the work a library function does on a string it walks through to the end.
func SC[T ~string | ~[]byte](x T) T {
	if sm := S_(); sm != nil {
		sm.Steps += int64(len(x)) / 16
	}
	return x
}

// RS records reads of the first elements of a slice, AP the write an append makes
// into spare capacity, CW the writes a copy makes.
func RS[S ~[]E, E any](x S) S {
	if sm := S_(); sm != nil && sm.multi && sm.shadow != nil {
		for i := 0; i < len(x) && i < 16; i++ {
			record(&x[i], false)
		}
	}
	return x
}
func AP[S ~[]E, E any](x S) S {
	if sm := S_(); sm != nil && sm.multi {
		Y(sm.lastSite)
		if sm.shadow != nil && cap(x) > len(x) {
			record(&x[:len(x)+1][len(x)], true)
		}
	}
	return x
}
func CW[S ~[]E, E any](x S) S {
	if sm := S_(); sm != nil && sm.multi && sm.shadow != nil {
		for i := 0; i < len(x) && i < 16; i++ {
			record(&x[i], true)
		}
	}
	return x
}

// ---- synchronisation edges, used by the sync and atomic shims

func Acquire(p unsafe.Pointer) {
	s := S
	if s == nil || s.syncVC == nil {
		return
	}
	v := s.syncVC[p]
	me := s.cur
	for i, x := range v {
		for len(me.vc) <= i {
			me.vc = append(me.vc, 0)
		}
		if x > me.vc[i] {
			me.vc[i] = x
		}
	}
}

func Release(p unsafe.Pointer) {
	s := S
	if s == nil || s.syncVC == nil {
		return
	}
	me := s.cur
	v := s.syncVC[p]
	for i, x := range me.vc {
		for len(v) <= i {
			v = append(v, 0)
		}
		if x > v[i] {
			v[i] = x
		}
	}
	s.syncVC[p] = v
	me.vc[me.ID]++
}
