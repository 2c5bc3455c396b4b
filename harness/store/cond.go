package store

import (
	"time"

	"verif/harness/fw"
	"verif/harness/tcond"
)

func genCond(c *fw.Case, pts []time.Time, depth int) *tcond.Cond {
	if len(pts) > 3 && c.Rng.Intn(6) == 0 {
		return tcond.Bands(c.Rng, pts)
	}
	return tcond.Gen(c.Rng, pts, depth)
}
