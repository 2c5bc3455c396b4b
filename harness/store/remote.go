package store

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
)

type (
	// dirStorage is the remote storage which survives a crash of the process: as a real
	// object storage, its Put is atomic
	dirStorage struct{ dir string }

	// memStorage is the thread-safe in-memory remote storage
	memStorage struct {
		lock sync.Mutex
		m    map[string][]byte
		puts int
		gets int
		dels int
	}

	// faultStorage injects the faults into the remote storage calls. The inner storage is
	// never damaged: as a real object storage, its Put is atomic
	faultStorage struct {
		sss.Storage
		lock  sync.Mutex
		rng   *rand.Rand
		on    bool
		putP  int // percents
		getP  int
		delay time.Duration
		delP  int
		onPut func()
		onGet func()
		hit   map[string]int
	}
)

var errRemote = errors.New("injected remote storage fault")

// remoteErr is errRemote of some kind: a remote storage fails in many ways
type remoteErr struct{ kind error }

func (e remoteErr) Error() string        { return "injected remote storage fault: " + e.kind.Error() }
func (e remoteErr) Is(target error) bool { return target == errRemote }
func (e remoteErr) Unwrap() error        { return e.kind }

var remoteKinds = []error{serrors.ErrExist, serrors.ErrConflict, serrors.ErrInvalid, serrors.ErrInternal, serrors.ErrExhausted, serrors.ErrClosed, serrors.ErrCommunication,
	serrors.ErrDataLoss, serrors.ErrCanceled, context.Canceled, context.DeadlineExceeded, os.ErrPermission, io.ErrUnexpectedEOF, io.ErrClosedPipe}

// remoteFault returns one of the errors, a missing object is reported by Put only (there is no such a bucket)
func remoteFault(how int, put bool) error {
	how = how / 16 % (2*len(remoteKinds) + 1)
	if how < len(remoteKinds) {
		return remoteErr{remoteKinds[how]}
	}
	if put && how == 2*len(remoteKinds) {
		return remoteErr{serrors.ErrNotExist}
	}
	return errRemote
}

func (d *dirStorage) fn(key string) string {
	return filepath.Join(d.dir, strings.ReplaceAll(key, "/", "_"))
}

func (d *dirStorage) Get(_ context.Context, key string) (io.ReadCloser, error) {
	f, err := os.Open(d.fn(key))
	if os.IsNotExist(err) {
		return nil, serrors.ErrNotExist
	}
	return f, err
}

func (d *dirStorage) Put(_ context.Context, key string, r io.Reader) error {
	f, err := os.CreateTemp(d.dir, "tmp-*")
	if err != nil {
		return err
	}
	defer os.Remove(f.Name())
	if _, err := io.Copy(f, r); err != nil {
		f.Close()
		return err
	}
	if err := f.Close(); err != nil {
		return err
	}
	return os.Rename(f.Name(), d.fn(key))
}

func (d *dirStorage) List(_ context.Context, path string) ([]string, error) { return nil, nil }

func (d *dirStorage) Delete(_ context.Context, key string) error {
	err := os.Remove(d.fn(key))
	if os.IsNotExist(err) {
		return nil
	}
	return err
}

func (d *memStorage) nGets() int {
	d.lock.Lock()
	defer d.lock.Unlock()
	return d.gets
}

func (d *memStorage) nPuts() int {
	d.lock.Lock()
	defer d.lock.Unlock()
	return d.puts
}

func newMemStorage() *memStorage { return &memStorage{m: map[string][]byte{}} }

func (d *memStorage) Get(_ context.Context, key string) (io.ReadCloser, error) {
	d.lock.Lock()
	defer d.lock.Unlock()
	d.gets++
	b, ok := d.m[key]
	if !ok {
		return nil, serrors.ErrNotExist
	}
	return io.NopCloser(bytes.NewReader(b)), nil
}

func (d *memStorage) Put(_ context.Context, key string, r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	d.lock.Lock()
	defer d.lock.Unlock()
	d.puts++
	d.m[key] = b
	return nil
}

func (d *memStorage) List(_ context.Context, path string) ([]string, error) {
	d.lock.Lock()
	defer d.lock.Unlock()
	var res []string
	for k := range d.m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res, nil
}

func (d *memStorage) Delete(_ context.Context, key string) error {
	d.lock.Lock()
	defer d.lock.Unlock()
	d.dels++
	delete(d.m, key)
	return nil
}

func newFaultStorage(inner sss.Storage, seed int64) *faultStorage {
	return &faultStorage{Storage: inner, rng: rand.New(rand.NewSource(seed)), hit: map[string]int{}}
}

func (f *faultStorage) set(on bool) {
	f.lock.Lock()
	f.on = on
	f.lock.Unlock()
}

// roll returns whether to fail, how and how long to sleep
func (f *faultStorage) roll(p int) (bool, int, time.Duration) {
	f.lock.Lock()
	defer f.lock.Unlock()
	var d time.Duration
	if f.delay > 0 {
		d = time.Duration(f.rng.Int63n(int64(f.delay)))
	}
	return f.on && f.rng.Intn(100) < p, f.rng.Int(), d
}

func (f *faultStorage) note(what string) {
	f.lock.Lock()
	f.hit[what]++
	f.lock.Unlock()
}

func (f *faultStorage) Put(ctx context.Context, key string, r io.Reader) error {
	fail, how, d := f.roll(f.putP)
	time.Sleep(d)
	if f.onPut != nil {
		f.onPut()
	}
	if err := ctx.Err(); err != nil {
		f.note("put-cancelled")
		return err
	}
	if !fail {
		if err := f.Storage.Put(ctx, key, r); err != nil {
			return err
		}
		return ctx.Err()
	}
	err := remoteFault(how, true)
	switch how % 3 {
	case 0:
		f.note("put-refused")
		return err
	case 1:
		f.note("put-partly")
		_, _ = io.CopyN(io.Discard, r, int64(how%4096))
		return err
	default:
		// the object is stored, but the response is lost
		f.note("put-lost-response")
		if err := f.Storage.Put(ctx, key, r); err != nil {
			return err
		}
		return err
	}
}

func (f *faultStorage) Delete(ctx context.Context, key string) error {
	fail, how, d := f.roll(f.delP)
	time.Sleep(d)
	if err := ctx.Err(); err != nil {
		return err
	}
	if fail {
		f.note("delete-refused")
		return remoteFault(how, true)
	}
	return f.Storage.Delete(ctx, key)
}

type faultReader struct {
	r    io.Reader
	left int
	err  error
}

func (fr *faultReader) Read(p []byte) (int, error) {
	if fr.left <= 0 {
		return 0, fr.err
	}
	if len(p) > fr.left {
		p = p[:fr.left]
	}
	n, err := fr.r.Read(p)
	fr.left -= n
	return n, err
}

func (fr *faultReader) Close() error { return nil }

func (f *faultStorage) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	fail, how, d := f.roll(f.getP)
	time.Sleep(d)
	if f.onGet != nil {
		f.onGet()
	}
	if err := ctx.Err(); err != nil {
		f.note("get-cancelled")
		return nil, err
	}
	r, err := f.Storage.Get(ctx, key)
	if err != nil || !fail {
		return r, err
	}
	b, err := io.ReadAll(r)
	r.Close()
	if err != nil {
		return nil, err
	}
	n := 0
	if len(b) > 0 {
		n = (how / 8) % len(b)
	}
	switch how % 4 {
	case 0:
		f.note("get-refused")
		return nil, remoteFault(how, false)
	case 1:
		f.note("get-broken")
		return &faultReader{r: bytes.NewReader(b), left: n, err: remoteFault(how, false)}, nil
	case 2:
		f.note("get-truncated")
		return &faultReader{r: bytes.NewReader(b), left: n, err: io.EOF}, nil
	default:
		// some bytes of the compressed content are damaged, the checksum is to reveal it
		f.note("get-damaged")
		c := append([]byte{}, b...)
		if len(c) > 200 {
			k := 60 + (how/8)%(len(c)/2)
			for i := k; i < k+8 && i < len(c); i++ {
				c[i] ^= 0xff
			}
		}
		return io.NopCloser(bytes.NewReader(c)), nil
	}
}

func (f *faultStorage) String() string {
	f.lock.Lock()
	defer f.lock.Unlock()
	return fmt.Sprint(f.hit)
}
