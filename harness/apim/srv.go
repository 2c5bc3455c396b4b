// Package apim contains the monitors of the public API: the real gRPC and HTTP servers over the
// real storage, driven by clients over the loopback network.
package apim

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/jmoiron/sqlx"
	"github.com/logrange/linker"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/transport"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/api/rest"
	sgrpc "github.com/solarisdb/solaris/pkg/grpc"
	shttp "github.com/solarisdb/solaris/pkg/http"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health"
	"google.golang.org/grpc/health/grpc_health_v1"
	"verif/harness/fw"
	"verif/harness/minisql"
)

const (
	blk = 4096
	// inTime is how long any request may take, it normally takes milliseconds
	inTime = 30 * time.Second
)

type (
	opts struct {
		dir    string
		pg     *minisql.DB // nil - buntdb
		chunk  chunkfs.Config
		log    logfs.Config
		opened int
		wrap   func(m cache.LogsChunksMetaStorage) cache.LogsChunksMetaStorage
	}

	srv struct {
		c            *fw.Case
		o            opts
		gaddr, haddr string
		inj          *linker.Injector
		db           *buntdb.Storage
		sdb          *sql.DB
		lock         sync.Mutex
		conns        []*grpc.ClientConn
	}

	// noShut hides Init() and Shutdown() of the storage
	noShut struct{ cache.LogsChunksMetaStorage }

	// guard turns a panic in a gRPC handler, which would crash the server, into the violation
	guard struct {
		solaris.UnimplementedServiceServer
		c   *fw.Case
		svc *api.Service
	}

	// lockedBuf is where gin writes about recovered panics
	lockedBuf struct {
		lock sync.Mutex
		b    bytes.Buffer
	}
)

var (
	ginErrs  lockedBuf
	loopIP   string
	portLock sync.Mutex
	nextPort int
)

func init() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = &ginErrs
	// every process has its own loopback address, so they don't see each other's servers
	pid := os.Getpid()
	loopIP = fmt.Sprintf("127.%d.%d.%d", 16+(pid>>14)%200, (pid>>7)&127, 1+pid&127)
	nextPort = 20000 + pid%10000
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.lock.Lock()
	defer b.lock.Unlock()
	return b.b.Write(p)
}

func (b *lockedBuf) take() string {
	b.lock.Lock()
	defer b.lock.Unlock()
	s := b.b.String()
	b.b.Reset()
	return s
}

func freeAddr() (string, int) {
	portLock.Lock()
	defer portLock.Unlock()
	for i := 0; i < 2000; i++ {
		nextPort++
		if nextPort > 32000 {
			nextPort = 20000
		}
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", loopIP, nextPort))
		if err == nil {
			l.Close()
			return loopIP, nextPort
		}
		if loopIP != "127.0.0.1" && !strings.Contains(err.Error(), "in use") {
			loopIP = "127.0.0.1"
		}
	}
	panic(fmt.Errorf("harness environment problem: no free loopback port"))
}

func genOpts(c *fw.Case) opts {
	o := opts{dir: c.Dir(), opened: 2 + c.Rng.Intn(20)}
	o.chunk = chunkfs.Config{MaxChunkSize: int64(2+c.Rng.Intn(7)) * blk, NewSize: blk, MaxGrowIncreaseSize: 2 * blk}
	o.log = logfs.Config{MaxRecordsLimit: pick(c.Rng, 5, 50, 10000), MaxBunchSize: pick(c.Rng, 1000, 1000000), MaxLocks: 1000}
	if c.Rng.Intn(2) == 0 {
		o.pg = minisql.NewDB()
	}
	return o
}

func start(c *fw.Case, o opts) *srv {
	s := &srv{c: c, o: o}
	ginErrs.take()
	data := filepath.Join(o.dir, "data")
	fw.Must(os.MkdirAll(data, 0o755))
	var meta cache.LogsChunksMetaStorage
	if o.pg != nil {
		s.sdb = o.pg.Open()
		meta = postgres.NewStorage(&postgres.Db{DB: sqlx.NewDb(s.sdb, "postgres")})
	} else {
		s.db = buntdb.NewStorage(buntdb.Config{DBFilePath: filepath.Join(o.dir, "meta.db")})
		fw.Must(s.db.Init(context.Background()))
		meta = s.db
	}
	meta = noShut{meta} // the servers are shut down the last ones, see stop2
	if o.wrap != nil {
		meta = o.wrap(meta)
	}
	gsvc := api.NewService()
	reg := func(gs *grpc.Server) error {
		grpc_health_v1.RegisterHealthServer(gs, health.NewServer())
		solaris.RegisterServiceServer(gs, &guard{c: c, svc: gsvc})
		return nil
	}
	provider := chunkfs.NewProvider(data, o.opened, o.chunk)
	repl := chunkfs.NewReplicator(provider.GetFileNameByID)
	ip, gp := freeAddr()
	_, hp := freeAddr()
	s.gaddr, s.haddr = fmt.Sprintf("%s:%d", ip, gp), fmt.Sprintf("%s:%d", ip, hp)

	s.inj = linker.New()
	for _, v := range []any{cache.NewCachedStorage(meta), provider, chunkfs.NewChunkAccessor(), repl,
		chunkfs.NewScanner(repl, chunkfs.GetDefaultScannerConfig()), inmem.NewStorage(), logfs.NewLocalLog(o.log), gsvc,
		sgrpc.NewServer(sgrpc.Config{Transport: transport.Config{Network: "tcp", Address: ip, Port: gp}, RegisterEndpoints: reg}),
		shttp.NewRouter(shttp.Config{HttpAddr: ip, HttpPort: hp, RestRegistrar: rest.New(gsvc).RegisterEPs})} {
		s.inj.Register(linker.Component{Name: "", Value: v})
	}
	s.inj.Init(context.Background())
	for end := time.Now().Add(inTime); ; {
		cn, err := net.Dial("tcp", s.haddr)
		if err == nil {
			cn.Close()
			break
		}
		if time.Now().After(end) {
			c.Fatal("not-listening", "the HTTP server doesn't accept connections in %v: %v", inTime, err)
		}
		time.Sleep(2 * time.Millisecond)
	}
	return s
}

// stop shuts the server down the way it is done by the command
func (s *srv) stop() {
	s.c.Within(inTime, "stop-hangs", "the server shutdown", func() { s.inj.Shutdown() })
	s.stop2()
}

// stop2 is for the server which is already shut down
func (s *srv) stop2() {
	s.closeClients()
	if s.db != nil {
		s.db.Shutdown()
	}
	if s.sdb != nil {
		s.sdb.Close()
	}
	s.checkGin()
}

func (s *srv) closeClients() {
	for _, cn := range s.conns {
		cn.Close()
	}
	s.conns = nil
}

// checkGin reports the panics the HTTP server has recovered from
func (s *srv) checkGin() {
	if t := ginErrs.take(); strings.Contains(t, "panic recovered") {
		s.c.Fail(fw.PanicSig("", []byte(ginFrames(t))), "panic in a HTTP handler: %s", t)
	}
}

// ginFrames turns the gin stack (file:line (0xaddr)\n\tfunc: code) to the function names; the package is lost there
func ginFrames(t string) string {
	var fs []string
	ls := strings.Split(t, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "/repo/") && i+1 < len(ls) {
			p := strings.TrimPrefix(l[:strings.LastIndex(l, "/")], "/repo/")
			fn, _, _ := strings.Cut(strings.TrimSpace(ls[i+1]), ":")
			fs = append(fs, "github.com/solarisdb/solaris/"+p+"."+fn+"(")
		}
	}
	return strings.Join(fs, "\n")
}

func (s *srv) dial() *grpc.ClientConn {
	cn, err := grpc.Dial(s.gaddr, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20), grpc.MaxCallSendMsgSize(64<<20)))
	fw.Must(err)
	s.lock.Lock()
	s.conns = append(s.conns, cn)
	s.lock.Unlock()
	return cn
}

func (g *guard) CreateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	defer g.c.Recover("gRPC CreateLog")
	return g.svc.CreateLog(ctx, r)
}

func (g *guard) UpdateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	defer g.c.Recover("gRPC UpdateLog")
	return g.svc.UpdateLog(ctx, r)
}

func (g *guard) QueryLogs(ctx context.Context, r *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	defer g.c.Recover("gRPC QueryLogs")
	return g.svc.QueryLogs(ctx, r)
}

func (g *guard) DeleteLogs(ctx context.Context, r *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	defer g.c.Recover("gRPC DeleteLogs")
	return g.svc.DeleteLogs(ctx, r)
}

func (g *guard) AppendRecords(ctx context.Context, r *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	defer g.c.Recover("gRPC AppendRecords")
	return g.svc.AppendRecords(ctx, r)
}

func (g *guard) QueryRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
	defer g.c.Recover("gRPC QueryRecords")
	return g.svc.QueryRecords(ctx, r)
}

func (g *guard) CountRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
	defer g.c.Recover("gRPC CountRecords")
	return g.svc.CountRecords(ctx, r)
}

func pick[T any](r *rand.Rand, vs ...T) T { return vs[r.Intn(len(vs))] }
