// Package simcrand replaces crypto/rand.
package simcrand

import (
	"io"
	"math/rand"

	"verifsim/rt"
)

type reader struct{ r *rand.Rand }

var source = &reader{}

// Reader is the simulated source of randomness.
var Reader io.Reader = source

func init() {
	rt.OnReset(func() {
		source.r = nil
		Reader = source
	})
}

func (s *reader) Read(p []byte) (int, error) {
	if s.r == nil {
		s.r = rand.New(rand.NewSource(7 + rt.RandSeed()))
	}
	return s.r.Read(p)
}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
