package gen

import "math/rand"

// splitmix64: nearby seeds give unrelated sequences, as opposed to math/rand's own source, which
// takes its seed modulo 2³¹-1
type source struct{ x uint64 }

func (s *source) Seed(x int64) { s.x = uint64(x) }

func (s *source) Uint64() uint64 {
	s.x += 0x9E3779B97F4A7C15
	z := s.x
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (s *source) Int63() int64 { return int64(s.Uint64() >> 1) }

// Rng returns a source of random numbers for a seed
func Rng(seed int64) *rand.Rand {
	s := &source{uint64(seed)}
	s.x = s.Uint64() // seeds that differ by the increment must not give shifted sequences
	return rand.New(s)
}
