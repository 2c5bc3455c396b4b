// Package store contains the monitors for the record and metadata storage: the chunk
// files, the local log, the replication and the metadata storage.
package store

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

const blk = 4096

type (
	// stackCfg is the configuration of one storage stack
	stackCfg struct {
		Dir        string
		MaxOpened  int
		Chunk      chunkfs.Config
		Log        logfs.Config
		Cached     bool
		InMemMeta  bool
		Remote     sss.Storage
		WrapMeta   func(m cache.LogsChunksMetaStorage) cache.LogsChunksMetaStorage
		WrapRemote func(s sss.Storage) sss.Storage
	}

	// stack is the assembled storage: what pkg/server puts together, but with the buntdb metadata
	stack struct {
		cfg   stackCfg
		db    *buntdb.Storage
		meta  cache.LogsChunksMetaStorage
		prov  *chunkfs.Provider
		repl  *chunkfs.Replicator
		ca    *chunkfs.ChunkAccessor
		log   storage.Log
		shutL func()
		rem   sss.Storage
		data  string
	}
)

func defChunk() chunkfs.Config {
	return chunkfs.Config{NewSize: blk, MaxChunkSize: 4 * blk, MaxGrowIncreaseSize: 2 * blk}
}

func (sc stackCfg) String() string {
	return fmt.Sprintf("{opened:%d chunk:%+v log:%+v cached:%t}", sc.MaxOpened, sc.Chunk, sc.Log, sc.Cached)
}

func openStack(sc stackCfg) *stack {
	s := &stack{cfg: sc}
	s.data = filepath.Join(sc.Dir, "data")
	fw.Must(os.MkdirAll(s.data, 0o755))
	mp := filepath.Join(sc.Dir, "meta.db")
	if sc.InMemMeta {
		mp = ""
	}
	s.db = buntdb.NewStorage(buntdb.Config{DBFilePath: mp})
	if err := s.db.Init(context.Background()); err != nil {
		panic(fmt.Errorf("metadata storage could not be opened: %w", err))
	}
	s.meta = s.db
	if sc.WrapMeta != nil {
		s.meta = sc.WrapMeta(s.meta)
	}
	if sc.Cached {
		s.meta = cache.NewCachedStorage(s.meta)
	}
	s.rem = sc.Remote
	if s.rem == nil {
		s.rem = inmem.NewStorage()
	}
	if sc.WrapRemote != nil {
		s.rem = sc.WrapRemote(s.rem)
	}
	s.prov = chunkfs.NewProvider(s.data, sc.MaxOpened, sc.Chunk)
	s.ca = chunkfs.NewChunkAccessor()
	s.repl = chunkfs.NewReplicator(s.prov.GetFileNameByID)
	s.repl.CA = s.ca
	s.repl.Storage = s.rem
	s.prov.CA = s.ca
	s.prov.Replicator = s.repl
	ll := logfs.NewLocalLog(sc.Log)
	ll.LMStorage = s.meta
	ll.ChnkProvider = s.prov
	s.log = ll
	s.shutL = ll.Shutdown
	return s
}

func (s *stack) close() {
	s.shutL()
	s.prov.Shutdown()
	s.ca.Shutdown()
	s.db.Shutdown()
}

func (s *stack) newLog(tags map[string]string) string {
	l, err := s.meta.CreateLog(fw.Ctx(), &solaris.Log{Tags: tags})
	if err != nil {
		panic(fmt.Errorf("CreateLog: %w", err))
	}
	return l.ID
}

func toRecs(pls [][]byte) []*solaris.Record {
	res := make([]*solaris.Record, len(pls))
	for i, p := range pls {
		res[i] = &solaris.Record{Payload: p}
	}
	return res
}

func (s *stack) append(lid string, pls [][]byte) ([]string, int, error) {
	return s.appendCtx(fw.Ctx(), lid, pls)
}

func (s *stack) appendCtx(ctx context.Context, lid string, pls [][]byte) ([]string, int, error) {
	r, err := s.log.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: lid, Records: toRecs(pls), ExpandIDs: true})
	if r == nil {
		return nil, 0, err
	}
	return r.RecordIDs, int(r.Added), err
}

// rec is what the model knows about a record
type rec struct {
	id string
	pl []byte
}

func (r rec) ms() int64 {
	u, err := ulid.ParseStrict(r.id)
	if err != nil {
		panic(err)
	}
	return int64(u.Time())
}

func (r rec) time() time.Time { return time.UnixMilli(r.ms()).UTC() }

func short(b []byte) string {
	if len(b) > 16 {
		return fmt.Sprintf("%x..(%d)", b[:16], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

// checkRec compares the returned record with the model one
func checkRec(c *fw.Case, sig, what string, got *solaris.Record, want rec, lid string) bool {
	if got.ID != want.id || string(got.Payload) != string(want.pl) || got.LogID != lid {
		c.Fail(sig, "%s: got record {ID:%s log:%s payload:%s}, want {ID:%s log:%s payload:%s}", what, got.ID, got.LogID, short(got.Payload), want.id, lid, short(want.pl))
		return false
	}
	if got.CreatedAt == nil || !got.CreatedAt.AsTime().Equal(want.time()) {
		c.Fail(sig+"-ctime", "%s: record %s has the creation time %v, but its ID says %v", what, got.ID, got.CreatedAt, want.time())
		return false
	}
	return true
}

func pick[T any](c *fw.Case, vs ...T) T { return vs[c.Rng.Intn(len(vs))] }

// payloads of the hostile size distribution, maxRec is the biggest record which fits a chunk
func genPayload(c *fw.Case, maxRec int, tag string) []byte {
	var n int
	switch c.Rng.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3, 4, 5:
		n = c.Rng.Intn(64)
	case 6, 7:
		n = c.Rng.Intn(700)
	case 8:
		n = c.Rng.Intn(maxRec + 1)
	case 9:
		n = maxRec - c.Rng.Intn(60)
	case 10:
		n = maxRec/2 + c.Rng.Intn(49) - 24
	case 11:
		n = pick(c, blk-24, blk-32-24, blk-1, blk, blk+1, 2*blk-56, 24, 32)
	}
	if n < 0 {
		n = 0
	}
	if n > maxRec {
		n = maxRec
	}
	b := make([]byte, n)
	c.Rng.Read(b)
	copy(b, tag)
	return b
}

func genChunkCfg(c *fw.Case) chunkfs.Config {
	cc := chunkfs.Config{}
	cc.MaxChunkSize = int64(pick(c, 1, 2, 2, 3, 4, 5, 8, 16)) * blk
	cc.NewSize = int64(1+c.Rng.Intn(int(cc.MaxChunkSize/blk))) * blk
	if c.Rng.Intn(2) == 0 {
		cc.NewSize = blk
	}
	cc.MaxGrowIncreaseSize = int64(1+c.Rng.Intn(6)) * blk
	return cc
}

func genLogCfg(c *fw.Case) logfs.Config {
	return logfs.Config{
		MaxRecordsLimit: pick(c, 3, 7, 50, 1000, 10000),
		MaxBunchSize:    pick(c, 1, 100, 1000, 10000, 8192000),
		MaxLocks:        pick(c, 2, 5, 100),
	}
}

// maxRecSize is the biggest payload which may be stored in an empty chunk: the header takes
// 32 bytes and every record needs 24 bytes of the meta information
func maxRecSize(cc chunkfs.Config) int { return int(cc.MaxChunkSize) - 32 - 24 }

// queryAll pages through the log with the page size lim using the public contract (the
// StartID is inclusive)
func (s *stack) query(lid, cond, start string, desc bool, lim int64) ([]*solaris.Record, bool, error) {
	return s.log.QueryRecords(fw.Ctx(), storage.QueryRecordsRequest{LogID: lid, Condition: cond, StartID: start, Descending: desc, Limit: lim})
}

// readAll reads the whole log paging by record IDs
func (s *stack) readAll(c *fw.Case, lid, cond string, desc bool, lim int64) ([]*solaris.Record, error) {
	var res []*solaris.Record
	start := ""
	last := ""
	for page := 0; ; page++ {
		rs, more, err := s.query(lid, cond, start, desc, lim)
		if err != nil {
			return res, err
		}
		skipped := rs
		if last != "" && len(rs) > 0 && rs[0].ID == last {
			skipped = rs[1:]
		}
		res = append(res, skipped...)
		if !more || len(rs) == 0 {
			return res, nil
		}
		last = rs[len(rs)-1].ID
		start = nextID(last, desc)
		if page > 200000 {
			c.Fatal("pagination-endless", "the pagination of %s does not end", lid)
		}
	}
}

// nextID returns the ID right after (before) the id
func nextID(id string, desc bool) string {
	u, err := ulid.ParseStrict(id)
	if err != nil {
		panic(err)
	}
	if desc {
		for i := 15; i >= 0; i-- {
			u[i]--
			if u[i] != 0xff {
				break
			}
		}
	} else {
		for i := 15; i >= 0; i-- {
			u[i]++
			if u[i] != 0 {
				break
			}
		}
	}
	return u.String()
}

func appendReq(lid string, pls ...[]byte) *solaris.AppendRecordsRequest {
	return &solaris.AppendRecordsRequest{LogID: lid, Records: toRecs(pls), ExpandIDs: true}
}
