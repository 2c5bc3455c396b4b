package lib

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
	sinmem "github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/sss/s3"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L07",
		Rule: "seq: random puts, gets, deletes and listings of valid and wrong keys in the in-memory storage and in the S3 one (an S3 server in the process, listing by pages, failing sometimes) " +
			"against a map; readers which fail in the middle of a put, readers got before a change. conc: clients put, get, delete and list the same keys, every key's history must " +
			"be linearizable. Non-trivial: overwriting, missing keys, sub-paths, several pages; distinct by the backend, content and outcomes",
		Assumptions: []string{"no . and .. segments and control characters in the keys (the AWS library and XML don't pass them)", "the S3 server is strongly consistent"},
		MinEvents:   []string{"stored", "overwritten", "missing", "listed", "sub-paths", "refused", "pages", "read-failures", "overlapped", "storage-failures"},
		Scens: []fw.Scenario{
			{Name: "seq", Quick: 240, Thorough: 12000, Run: l07Seq},
			{Name: "conc", Quick: 200, Thorough: 8000, Run: l07Conc},
		},
	})
}

func newSimple(idx int) (sss.Storage, *fakeS3, string) {
	if idx%2 == 0 {
		return sinmem.NewStorage(), nil, "inmem"
	}
	f := newFakeS3()
	st := &s3.Storage{Bucket: "bucket", AwsConfig: &aws.Config{
		Endpoint: aws.String(f.URL), Region: aws.String("us-east-1"), S3ForcePathStyle: aws.Bool(true), MaxRetries: aws.Int(0),
		Credentials: credentials.NewStaticCredentials("id", "secret", ""),
	}}
	fw.Must(st.Init(ctx))
	return st, f, "s3"
}

func keyValid(k string) bool {
	ss := strings.Split(k, "/")
	if len(ss) < 2 || ss[0] != "" {
		return false
	}
	for _, s := range ss[1:] {
		if s == "" {
			return false
		}
	}
	return strings.Trim(ss[len(ss)-1], " ") != ""
}

func pathValid(p string) bool {
	return p == "/" || strings.HasSuffix(p, "/") && keyValid(p+"x")
}

// failReader gives the data and then an error
type failReader struct {
	r    io.Reader
	fail bool
}

var errRead = errors.New("read failure")

func (f *failReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p[:min(len(p), 7)])
	if err == io.EOF && f.fail {
		err = errRead
	}
	return n, err
}

func l07Seq(c *fw.Case) {
	st, srv, name := newSimple(c.Idx)
	if srv != nil {
		defer srv.Close()
		srv.maxKeys = pick(c, 1, 2, 3, 7, 1000)
	}
	model := map[string][]byte{}
	segs := []string{"a", "b", "ab", "a b", "ключ", "a%2Fb", "a+b", "x?y#z", "<&>", "ab.zip", "A", "-", "~", "a'\"b", " "}
	key := func() string {
		var sb strings.Builder
		for n := 1 + c.Rng.Intn(3); n > 0; n-- {
			sb.WriteString("/" + segs[c.Rng.Intn(min(len(segs), 3+c.Rng.Intn(len(segs))))])
		}
		k := sb.String()
		if c.Rng.Intn(20) == 0 {
			k = pick(c, "", "/", "a", k+"/", "/"+k, k[1:], k+"//x", "//", k+"/ ", " /"+k)
		}
		return k
	}
	steps := 60
	if name == "inmem" {
		steps = 200
	}
	for i := 0; i < steps; i++ {
		k := key()
		valid := keyValid(k)
		if valid && c.Rng.Intn(2) == 0 && len(model) > 0 { // an existing one
			ks := sortedKeys(model)
			k = ks[c.Rng.Intn(len(ks))]
		}
		old, exists := model[k]
		failed := 0
		if srv != nil {
			srv.lock.Lock()
			srv.fail = 0
			if c.Rng.Intn(10) == 0 {
				srv.fail = 1 + c.Rng.Intn(3)
			}
			failed = srv.failed
			srv.lock.Unlock()
		}
		srvFailed := func() bool {
			if srv == nil {
				return false
			}
			srv.lock.Lock()
			defer srv.lock.Unlock()
			return srv.failed > failed
		}
		c.Eval(1)
		switch op := c.Rng.Intn(10); {
		case op < 4:
			val := rndBytes(c.Rng)
			var r io.Reader = bytes.NewReader(val)
			what := "bytes"
			switch c.Rng.Intn(6) {
			case 0:
				r, what = strings.NewReader(string(val)), "string"
			case 1:
				r, what = &failReader{r, false}, "stream"
			case 2:
				r, what = &failReader{r, true}, "failing"
				c.Count("read-failures", 1)
			}
			err := st.Put(ctx, k, r)
			switch {
			case !valid:
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("wrong-key", "%s: put of the wrong key %q: %v", name, k, err)
				}
				c.Count("refused", 1)
			case srvFailed() || what == "failing" || what == "stream" && name == "s3":
				if err == nil && (srvFailed() || what == "failing") {
					c.Fatal("error-lost", "%s: put of %q from the %s reader gives no error though it failed", name, k, what)
				}
				if err == nil {
					model[k] = append([]byte{}, val...)
				}
				c.Count("storage-failures", 1)
			default:
				if err != nil {
					c.Fatal("put-failed", "%s: put of %q: %v", name, k, err)
				}
				model[k] = append([]byte{}, val...)
				c.Count("stored", 1)
				if exists {
					c.Count("overwritten", 1)
				}
			}
			scribble(val)
		case op < 7:
			r, err := st.Get(ctx, k)
			switch {
			case !valid:
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("wrong-key", "%s: get of the wrong key %q: %v", name, k, err)
				}
				c.Count("refused", 1)
			case srvFailed():
				if err == nil || errors.Is(err, serrors.ErrNotExist) {
					c.Fatal("error-lost", "%s: get of %q: %v, though the storage failed", name, k, err)
				}
			case !exists:
				if !errors.Is(err, serrors.ErrNotExist) {
					c.Fatal("missing-found", "%s: get of the missing %q: %v", name, k, err)
				}
				c.Count("missing", 1)
			default:
				if err != nil {
					c.Fatal("lost", "%s: get of %q: %v", name, k, err)
				}
				if name == "inmem" && c.Rng.Intn(3) == 0 {
					nv := rndBytes(c.Rng)
					fw.Must(st.Put(ctx, k, bytes.NewReader(nv)))
					model[k] = nv
				}
				got, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(got, old) {
					c.Fatal("not-equal", "%s: %q has %d bytes %.40x, %d bytes %.40x are read, %v", name, k, len(old), old, len(got), got, err)
				}
				scribble(got)
				r.Close()
			}
		case op < 8:
			err := st.Delete(ctx, k)
			switch {
			case !valid:
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("wrong-key", "%s: delete of the wrong key %q: %v", name, k, err)
				}
				c.Count("refused", 1)
			case srvFailed():
				if err == nil {
					c.Fatal("error-lost", "%s: delete of %q gives no error though the storage failed", name, k)
				}
			default:
				if err != nil && (exists || !errors.Is(err, serrors.ErrNotExist)) {
					c.Fatal("delete-failed", "%s: delete of %q: %v", name, k, err)
				}
				delete(model, k)
			}
		default:
			p := pick(c, "/", "/", k[:strings.LastIndex(k, "/")+1], k+"/", k, "", "//", "a/")
			got, err := st.List(ctx, p)
			switch {
			case !pathValid(p):
				// a path with a blank segment is fine
				if err == nil && strings.Contains(p, " ") {
					continue
				}
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("wrong-key", "%s: list of the wrong path %q: %q, %v", name, p, got, err)
				}
				c.Count("refused", 1)
			case srvFailed():
				if err == nil {
					c.Fatal("error-lost", "%s: list of %q gives no error though the storage failed", name, p)
				}
			default:
				set := map[string]bool{}
				for mk := range model {
					if strings.HasPrefix(mk, p) {
						if j := strings.Index(mk[len(p):], "/"); j >= 0 {
							mk = mk[:len(p)+j+1]
							c.Count("sub-paths", 1)
						}
						set[mk] = true
					}
				}
				want := sortedKeys(set)
				sort.Strings(got)
				if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					c.Fatal("wrong-list", "%s: the list of %q is %q, must be %q, %v", name, p, got, want, err)
				}
				c.Count("listed", 1)
			}
		}
	}
	if srv != nil {
		c.Count("pages", srv.pages)
	}
	c.Distinct(name, len(model), strings.Join(sortedKeys(model), ","))
}

func sortedKeys[V any](m map[string]V) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// a register: the input is the value to put, "-" to delete, "?" to get; the output is the value or "-"
var regModel = porcupine.Model{
	Init: func() any { return "-" },
	Step: func(st, in, out any) (bool, any) {
		if in.(string) == "?" {
			return st.(string) == out.(string), st
		}
		return true, in
	},
}

func l07Conc(c *fw.Case) {
	st, srv, name := newSimple(c.Idx)
	if srv != nil {
		defer srv.Close()
	}
	keys := []string{"/a", "/b/c", "/b/d"}[:1+c.Rng.Intn(3)]
	var ts, seq int64
	var wg sync.WaitGroup
	var lock sync.Mutex
	hist := map[string][]porcupine.Operation{}
	for w := 0; w < 2+c.Rng.Intn(5); w++ {
		rng := newRng(c)
		c.Go(&wg, "client", func() {
			for i := 0; i < 20; i++ {
				k := keys[rng.Intn(len(keys))]
				in, out := "?", "-"
				call := atomic.AddInt64(&ts, 1)
				var err error
				switch rng.Intn(7) {
				case 0, 1:
					in = fmt.Sprintf("v%d", atomic.AddInt64(&seq, 1))
					err = st.Put(ctx, k, slowReader(rng, in))
				case 2:
					in = "-"
					if err = st.Delete(ctx, k); errors.Is(err, serrors.ErrNotExist) {
						err, in = nil, "?" // a missing key is observed
					}
				case 3:
					ls, e := st.List(ctx, "/")
					if e != nil || len(ls) > 2 {
						c.Fail("wrong-list", "%s: list: %q, %v", name, ls, e)
					}
					continue
				default:
					r, e := st.Get(ctx, k)
					if err = e; err == nil {
						var b []byte
						b, err = io.ReadAll(r)
						out = string(b)
						r.Close()
					} else if errors.Is(e, serrors.ErrNotExist) {
						err = nil
					}
				}
				ret := atomic.AddInt64(&ts, 1)
				if err != nil {
					c.Fail("failed", "%s: %q of %q: %v", name, in, k, err)
				}
				lock.Lock()
				hist[k] = append(hist[k], porcupine.Operation{ClientId: w, Input: in, Call: call, Output: out, Return: ret})
				lock.Unlock()
			}
		})
	}
	wg.Wait()
	for k, h := range hist {
		c.Eval(len(h))
		for i, o := range h {
			if i > 0 && o.Call < h[i-1].Return {
				c.Count("overlapped", 1)
			}
		}
		if porcupine.CheckOperationsTimeout(regModel, h, 20*time.Second) == porcupine.Illegal {
			sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
			var sb strings.Builder
			for _, o := range h {
				fmt.Fprintf(&sb, "  [%d-%d] client %d %v -> %v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
			}
			c.Fail("not-linearizable", "%s: the history of %q is not linearizable:\n%s", name, k, sb.String())
		}
		c.Distinct(name, k, len(h), h[len(h)-1].Output)
	}
}

func slowReader(rng *rand.Rand, s string) io.Reader {
	if rng.Intn(3) == 0 {
		time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
	}
	return strings.NewReader(s)
}

var _ = context.Background
