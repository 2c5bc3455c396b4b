package store

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/oklog/ulid/v2"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "D08",
		Rule: "layout: a case is a PRNG-chosen (initial size, growth step, maximum size) with 5-60 appends of hostile sizes interleaved with reads from random IDs in both " +
			"directions, closing and reopening with and without the full check; damage: a valid file with 1-8 damaged bytes of the header or the records table, or cut, " +
			"is opened with the full check; non-trivial: something was written; distinct by the layout",
		MinEvents: []string{"appends", "reopens", "seeks", "full", "damaged-refused", "closed-refused"},
		Scens: []fw.Scenario{
			{Name: "layout", Quick: 2400, Thorough: 60000, Run: d08Layout},
			{Name: "damage", Quick: 16000, Thorough: 400000, Run: d08Damage},
		},
	})
}

type d08Chunk struct {
	c   *fw.Case
	ch  *chunkfs.Chunk
	cfg chunkfs.Config
	fn  string
	m   []rec
}

func (d *d08Chunk) used() int {
	n := 32
	for _, r := range d.m {
		n += len(r.pl) + 24
	}
	return n
}

func (d *d08Chunk) read(desc bool, start string) {
	c := d.c
	cr, err := d.ch.OpenChunkReader(desc)
	if err != nil {
		c.Fatal("reader-error", "the reader of the file with %d records cannot be opened: %v; cfg=%+v", len(d.m), err, d.cfg)
	}
	defer cr.Close()
	want := append([]rec{}, d.m...)
	if start != "" {
		want = want[:0]
		for _, r := range d.m {
			if desc && r.id <= start || !desc && r.id >= start {
				want = append(want, r)
			}
		}
	}
	if desc {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	if start != "" {
		if n := cr.SetStartID(ulid.MustParse(start)); n != len(want) {
			c.Fatal("seek-count", "SetStartID(%s) desc=%t reports %d records, want %d of %d", start, desc, n, len(want), len(d.m))
		}
		c.Count("seeks", 1)
	}
	for i, w := range want {
		if !cr.HasNext() {
			c.Fatal("short-read", "reading desc=%t start=%q ended after %d records, want %d; cfg=%+v", desc, start, i, len(want), d.cfg)
		}
		r, ok := cr.Next()
		if !ok || r.ID.String() != w.id || !bytes.Equal(r.UnsafePayload, w.pl) {
			c.Fatal("wrong-record", "reading desc=%t start=%q: the record #%d is {%s %s}, want {%s %s}; cfg=%+v", desc, start, i, r.ID, short(r.UnsafePayload), w.id, short(w.pl), d.cfg)
		}
	}
	if _, ok := cr.Next(); ok || cr.HasNext() {
		c.Fatal("extra-record", "reading desc=%t start=%q returned more than %d records; cfg=%+v", desc, start, len(want), d.cfg)
	}
	c.Eval(1)
}

func (d *d08Chunk) startID() string {
	c := d.c
	if len(d.m) == 0 || c.Rng.Intn(4) == 0 {
		return pick(c, "00000000000000000000000001", "7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
	}
	id := d.m[c.Rng.Intn(len(d.m))].id
	return pick(c, id, nextID(id, true), nextID(id, false))
}

func d08New(c *fw.Case) *d08Chunk {
	d := &d08Chunk{c: c, cfg: genChunkCfg(c)}
	d.fn = filepath.Join(c.Dir(), "chunk")
	fw.Must(files.EnsureFileExists(d.fn))
	d.open(false)
	return d
}

func (d *d08Chunk) open(full bool) {
	d.ch = chunkfs.NewChunk(d.fn, "chunk", d.cfg)
	if err := d.ch.Open(full); err != nil {
		d.c.Fatal("open-error", "the file with %d records cannot be opened with fullCheck=%t: %v; cfg=%+v", len(d.m), full, err, d.cfg)
	}
}

func (d *d08Chunk) append(pls [][]byte) {
	c := d.c
	recs := toRecs(pls)
	sz := 0
	for _, p := range pls {
		sz += len(p) + 24
	}
	res, err := d.ch.AppendRecords(recs)
	c.Count("appends", 1)
	fits := d.used()+sz <= int(d.cfg.MaxChunkSize)
	if fits && (err != nil || res.Written != len(pls)) {
		c.Fatal("refused", "%d records of %d bytes fit the file (used=%d of %d), but written=%d err=%v; cfg=%+v", len(pls), sz, d.used(), d.cfg.MaxChunkSize, res.Written, err, d.cfg)
	}
	if !fits {
		c.Count("full", 1)
		if err != nil && (!errors.Is(err, serrors.ErrExhausted) || res.Written != 0) {
			c.Fatal("wrong-error", "the records don't fit, written=%d, err=%v", res.Written, err)
		}
	}
	if res.Written > len(pls) {
		c.Fatal("overwritten", "%d of %d records are written", res.Written, len(pls))
	}
	last := ""
	if len(d.m) > 0 {
		last = d.m[len(d.m)-1].id
	}
	for i := 0; i < res.Written; i++ {
		if recs[i].ID <= last {
			c.Fatal("id-order", "ID %s goes after %s", recs[i].ID, last)
		}
		last = recs[i].ID
		d.m = append(d.m, rec{recs[i].ID, pls[i]})
	}
	if res.Written > 0 {
		if res.StartID.String() != recs[0].ID || res.LastID.String() != recs[res.Written-1].ID {
			c.Fatal("wrong-range", "the reported range [%s %s], but the IDs are [%s %s]", res.StartID, res.LastID, recs[0].ID, recs[res.Written-1].ID)
		}
	}
	fi, err := os.Stat(d.fn)
	fw.Must(err)
	if fi.Size() > d.cfg.MaxChunkSize || d.used() > int(d.cfg.MaxChunkSize) {
		c.Fatal("too-big", "the file size is %d (used %d), but the maximum is %d", fi.Size(), d.used(), d.cfg.MaxChunkSize)
	}
	c.Eval(1)
}

func d08Layout(c *fw.Case) {
	d := d08New(c)
	defer func() { d.ch.Close() }()
	mx := maxRecSize(d.cfg)
	fill := pick(c, 0, 20, 200, mx)
	shape := fmt.Sprint(d.cfg)
	for op := 0; op < 5+c.Rng.Intn(56); op++ {
		switch c.Rng.Intn(8) {
		case 0, 1, 2, 3:
			n := 1 + c.Rng.Intn(8)
			if c.Rng.Intn(6) == 0 {
				n = 40 + c.Rng.Intn(300)
			}
			pls := make([][]byte, n)
			for i := range pls {
				if c.Rng.Intn(10) == 0 {
					pls[i] = genPayload(c, mx, "")
				} else {
					pls[i] = make([]byte, c.Rng.Intn(fill+1))
					c.Rng.Read(pls[i])
				}
				shape += fmt.Sprintf("|%d", len(pls[i]))
			}
			d.append(pls)
		case 4:
			// exactly the rest of the file
			if rest := int(d.cfg.MaxChunkSize) - d.used() - 24 + pick(c, 0, 0, 1, -1); rest >= 0 && c.Rng.Intn(3) == 0 {
				shape += fmt.Sprintf("|=%d", rest)
				d.append([][]byte{make([]byte, rest)})
			}
		case 5:
			d.read(c.Rng.Intn(2) == 0, "")
		case 6:
			for k := 0; k < 5; k++ {
				d.read(c.Rng.Intn(2) == 0, d.startID())
			}
		case 7:
			if err := d.ch.Close(); err != nil {
				c.Fatal("close-error", "close failed: %v", err)
			}
			if _, err := d.ch.OpenChunkReader(false); !errors.Is(err, serrors.ErrClosed) {
				c.Fatal("closed-read", "reading of the closed file is answered with %v", err)
			}
			if _, err := d.ch.AppendRecords(toRecs([][]byte{{1}})); !errors.Is(err, serrors.ErrClosed) {
				c.Fatal("closed-append", "appending to the closed file is answered with %v", err)
			}
			c.Count("closed-refused", 1)
			if c.Rng.Intn(3) == 0 {
				d.cfg.NewSize = min(d.cfg.MaxChunkSize, d.cfg.NewSize+blk)
			}
			if c.Rng.Intn(3) == 0 {
				d.cfg.MaxGrowIncreaseSize = int64(1+c.Rng.Intn(6)) * blk
			}
			d.open(c.Rng.Intn(2) == 0)
			c.Count("reopens", 1)
		}
	}
	d.read(false, "")
	d.read(true, "")
	fw.Must(d.ch.Close())
	d.open(true)
	d.read(c.Rng.Intn(2) == 0, "")
	if len(d.m) > 0 {
		c.Distinct(shape)
	}
	c.Sample("%+v records=%d used=%d", d.cfg, len(d.m), d.used())
}

// d08Damage: a file which passes the full check can be read
func d08Damage(c *fw.Case) {
	d := d08New(c)
	mx := min(maxRecSize(d.cfg), 300)
	n := 1 + c.Rng.Intn(12)
	var pls [][]byte
	for i := 0; i < n; i++ {
		pls = append(pls, genPayload(c, mx, ""))
	}
	d.append(pls)
	fw.Must(d.ch.Close())
	b, err := os.ReadFile(d.fn)
	fw.Must(err)
	what := ""
	total := len(d.m)
	meta := len(b) - total*24
	for k := 0; k < 1+c.Rng.Intn(2); k++ {
		switch c.Rng.Intn(7) {
		case 0:
			v := pick(c, uint32(total+1), uint32(total-1), uint32(len(b)/24), uint32(len(b)), 0x7fffffff, 0xffffffff, 0x80000000, uint32(c.Rng.Int63()))
			binary.BigEndian.PutUint32(b[8:], v)
			what += fmt.Sprintf("total=%d ", v)
		case 1:
			v := pick(c, uint64(len(b)-24), uint64(len(b)+24), uint64(24), ^uint64(0), 1<<63, uint64(c.Rng.Int63()), uint64(c.Rng.Intn(len(b))))
			binary.BigEndian.PutUint64(b[12:], v)
			what += fmt.Sprintf("end=%d ", v)
		case 2:
			for j := 0; j < 1+c.Rng.Intn(8) && total > 0; j++ {
				p := meta + c.Rng.Intn(total*24)
				b[p] ^= byte(1 + c.Rng.Intn(255))
				what += fmt.Sprintf("meta[%d] ", p-meta)
			}
		case 3, 4:
			if total > 0 {
				p := meta + c.Rng.Intn(total)*24
				if c.Rng.Intn(2) == 0 {
					p += 16
				} else {
					p += 20
				}
				old := int32(binary.BigEndian.Uint32(b[p:]))
				v := pick(c, old+1, old-1, -old, -1, 0x7fffffff, -0x80000000, int32(c.Rng.Uint32()), int32(c.Rng.Intn(len(b))))
				binary.BigEndian.PutUint32(b[p:], uint32(v))
				what += fmt.Sprintf("offset/size@%d=%d ", p-meta, v)
			}
		case 5:
			if total > 1 {
				// a pair of records with the consistent negative size
				i := 1 + c.Rng.Intn(total-1)
				po, ps := len(b)-(i+1)*24+16, len(b)-i*24+20
				dlt := uint32(1 + c.Rng.Intn(400))
				binary.BigEndian.PutUint32(b[po:], binary.BigEndian.Uint32(b[po:])-dlt)
				binary.BigEndian.PutUint32(b[ps:], binary.BigEndian.Uint32(b[ps:])-dlt)
				so := len(b) - (i+1)*24 + 20
				binary.BigEndian.PutUint32(b[so:], binary.BigEndian.Uint32(b[so:])+dlt)
				what += fmt.Sprintf("shift %d by %d ", i, dlt)
			}
		case 6:
			cut := c.Rng.Intn(len(b)/blk) * blk
			b = b[:cut]
			what += fmt.Sprintf("cut to %d ", cut)
			k = 10
		}
		if meta = len(b) - total*24; meta < 32 {
			break
		}
	}
	fw.Must(os.WriteFile(d.fn, b, 0o644))
	ch := chunkfs.NewChunk(d.fn, "chunk", d.cfg)
	var oerr error
	if pv, st := fw.Try(func() { oerr = ch.Open(true) }); pv != nil {
		c.Fatal("damage-"+fw.PanicSig(pv, []byte(st)), "opening of the damaged file (%s) with the full check panicked: %v\n%s", what, pv, st)
	}
	c.Eval(1)
	c.Distinct(what)
	if oerr != nil {
		c.Count("damaged-refused", 1)
		return
	}
	defer ch.Close()
	c.Count("damaged-accepted", 1)
	var ids []string
	if pv, st := fw.Try(func() {
		cr, err := ch.OpenChunkReader(false)
		if err != nil {
			c.Fail("accepted-unreadable", "the damaged file (%s) passed the full check, but the reader reports %v", what, err)
			return
		}
		defer cr.Close()
		for cr.HasNext() {
			r, _ := cr.Next()
			ids = append(ids, r.ID.String())
		}
	}); pv != nil {
		c.Fatal("accepted-"+fw.PanicSig(pv, []byte(st)), "the damaged file (%s) passed the full check, but reading panicked: %v\n%s", what, pv, st)
	}
	if !sort.StringsAreSorted(ids) {
		c.Fatal("accepted-order", "the damaged file (%s) passed the full check, but its IDs are not ordered", what)
	}
	c.Sample("%s accepted with %d records of %d", what, len(ids), total)
}
