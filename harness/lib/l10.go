package lib

import (
	"bytes"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/uuid"
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L10",
		Rule: "new: goroutines make identifiers in all the forms, an event log with a logical clock is checked off-line: no duplicates, an identifier which is requested after another one was returned is greater " +
			"(as bytes and as text), the time encoded is the time of the call. neighbours: the next and the previous identifiers of random and border ones are exactly +1 and -1 of the 128-bit number. " +
			"Non-trivial: same millisecond, overlapping calls, carries over several bytes; distinct by the numbers of carries and of IDs in a millisecond",
		Assumptions: []string{"the system clock may be off by 2 seconds between the calls"},
		MinEvents:   []string{"made", "same-ms", "overlapped", "neighbours", "carried"},
		Scens: []fw.Scenario{
			{Name: "new", Quick: 160, Thorough: 6000, Run: l10New},
			{Name: "neighbours", Quick: 4000, Thorough: 400000, Run: l10Next},
		},
	})
}

func l10New(c *fw.Case) {
	type ev struct {
		start, end int64
		id         ulid.ULID
	}
	var clock atomic.Int64
	gs := 1 + c.Rng.Intn(8)
	logs := make([][]ev, gs)
	n := 200 + c.Rng.Intn(800)
	var wg sync.WaitGroup
	from := time.Now()
	for g := 0; g < gs; g++ {
		g, r := g, newRng(c)
		c.Go(&wg, "new", func() {
			for i := 0; i < n; i++ {
				e := ev{start: clock.Add(1)}
				switch r.Intn(3) {
				case 0:
					e.id = ulidutils.New()
				case 1:
					u := ulidutils.NewUUID()
					e.id = ulid.ULID(u)
					if v, err := uuid.Parse(u.String()); err != nil || v != u {
						c.Fail("uuid", "wrong UUID %s: %v", u, err)
					}
				case 2:
					s := ulidutils.NewID()
					var err error
					if e.id, err = ulid.ParseStrict(s); err != nil || e.id.String() != s {
						c.Fail("text", "wrong text of an ID %q: %v", s, err)
						return
					}
				}
				e.end = clock.Add(1)
				logs[g] = append(logs[g], e)
				if r.Intn(200) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
		})
	}
	wg.Wait()
	to := time.Now()
	var all []ev
	for _, l := range logs {
		all = append(all, l...)
	}
	c.Count("made", len(all))
	c.Eval(len(all))
	seen := map[ulid.ULID]bool{}
	perMs := map[uint64]int{}
	lo, hi := uint64(from.Add(-2*time.Second).UnixMilli()), uint64(to.Add(2*time.Second).UnixMilli())
	for _, e := range all {
		if seen[e.id] {
			c.Fail("duplicate", "the ID %s is given twice", e.id)
			return
		}
		seen[e.id] = true
		perMs[e.id.Time()]++
		if t := e.id.Time(); t < lo || t > hi {
			c.Fail("time", "the ID %s made at %v..%v has the time %v", e.id, from, to, ulid.Time(t))
			return
		}
	}
	most := 0
	for _, k := range perMs {
		if k > 1 {
			c.Count("same-ms", 1)
		}
		most = max(most, k)
	}
	// the events by the start, the ended ones before it by the end
	byEnd := append([]ev(nil), all...)
	sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	var top ulid.ULID
	topS := ""
	k := 0
	for _, e := range all {
		for k < len(byEnd) && byEnd[k].end < e.start {
			if bytes.Compare(byEnd[k].id[:], top[:]) > 0 {
				top = byEnd[k].id
			}
			topS = max(topS, byEnd[k].id.String())
			k++
		}
		if bytes.Compare(e.id[:], top[:]) <= 0 || e.id.String() <= topS {
			c.Fail("order", "the ID %s is not greater than %s, which had been returned before it was requested", e.id, top)
			return
		}
	}
	for i := 1; i < len(byEnd); i++ {
		if byEnd[i].start < byEnd[i-1].end {
			c.Count("overlapped", 1)
		}
	}
	c.Distinct(gs, len(perMs), most/16)
}

func l10Next(c *fw.Case) {
	var id ulid.ULID
	r := c.Rng
	switch r.Intn(4) {
	case 0:
		id = ulidutils.New()
	case 1:
		r.Read(id[:])
	default: // a tail for carries
		r.Read(id[:])
		v := byte(0)
		if r.Intn(2) == 0 {
			v = 255
		}
		for i := 16 - r.Intn(16); i < 16; i++ {
			id[i] = v
		}
	}
	id[0] &= 0x3f // far from the ends
	id[0] |= 1
	one := big.NewInt(1)
	num := func(s string) *big.Int {
		u, err := ulid.ParseStrict(s)
		if err != nil {
			c.Fail("text", "wrong neighbour %q of %s: %v", s, id, err)
			c.Stop()
		}
		return new(big.Int).SetBytes(u[:])
	}
	s := id.String()
	if r.Intn(4) == 0 {
		s = strings.ToLower(s)
	}
	cur := new(big.Int).SetBytes(id[:])
	nx, pv := ulidutils.NextID(s), ulidutils.PrevID(s)
	if d := new(big.Int).Sub(num(nx), cur); d.Cmp(one) != 0 || nx <= id.String() {
		c.Fail("next", "the next ID of %s is %s, the difference is %s", id, nx, d)
	}
	if d := new(big.Int).Sub(cur, num(pv)); d.Cmp(one) != 0 || pv >= id.String() {
		c.Fail("prev", "the previous ID of %s is %s, the difference is %s", id, pv, d)
	}
	if b := ulidutils.PrevID(nx); b != id.String() {
		c.Fail("inverse", "the previous ID of the next one of %s is %s", id, b)
	}
	if m := ulidutils.MaxULID; bytes.Compare(id[:], m[:]) >= 0 || nx > m.String() {
		c.Fail("max", "%s is greater than the maximum one %s", id, m)
	}
	if z := ulidutils.ZeroULID; bytes.Compare(id[:], z[:]) <= 0 {
		c.Fail("zero", "%s is less than zero", id)
	}
	c.Count("neighbours", 2)
	c.Eval(5)
	carry := 0
	for i := 15; i >= 0 && (id[i] == 0 || id[i] == 255) && id[i] == id[15]; i-- {
		carry++
	}
	if carry > 0 {
		c.Count("carried", 1)
	}
	c.Distinct(carry, id[15] == 0)
}
