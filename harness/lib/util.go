package lib

import (
	"math/rand"

	"verif/harness/fw"
)

// newRng makes a PRNG for a goroutine of the case
func newRng(c *fw.Case) *rand.Rand { return rand.New(rand.NewSource(c.Rng.Int63())) }

func oneOf[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }
