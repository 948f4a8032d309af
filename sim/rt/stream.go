package rt

// Stream is a sequence of recorded choices. In generating mode values come from a
// PRNG; in replay mode from a given list, and 0 (the simplest choice) past its end.
type Stream struct {
	Name   string
	Rec    []uint32
	replay bool
	in     []uint32
	pos    int
	state  uint64
}

func NewStream(name string, seed uint64) *Stream {
	h := seed
	for i := 0; i < len(name); i++ {
		h = mix(h ^ uint64(name[i])*0x100000001b3)
	}
	return &Stream{Name: name, state: h}
}

func ReplayStream(name string, in []uint32) *Stream {
	return &Stream{Name: name, replay: true, in: in}
}

// Choose returns a value in [0,n).
func (s *Stream) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
		}
		s.pos++
		v %= uint32(n)
	} else {
		s.state = mix(s.state)
		v = uint32((s.state >> 11) % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Bool is true with probability num/den (and false for choice 0).
func (s *Stream) Bool(num, den int) bool { return s.Choose(den) >= den-num }

// Range returns a value in [lo,hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.Choose(hi-lo+1) }

// Pick returns an index weighted by w; index 0 is the simplest.
func (s *Stream) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Choose(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}
