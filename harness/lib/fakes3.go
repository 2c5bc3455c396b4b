package lib

import (
	"encoding/xml"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// fakeS3 is an S3 server with one bucket, keeping the objects in memory
type fakeS3 struct {
	*httptest.Server
	lock    sync.Mutex
	objs    map[string][]byte
	maxKeys int // the server may give less keys than asked
	fail    int // every fail-th request fails
	reqs    int
	failed  int
	pages   int
}

func newFakeS3() *fakeS3 {
	f := &fakeS3{objs: map[string][]byte{}, maxKeys: 1000}
	f.Server = httptest.NewServer(f)
	return f
}

func (f *fakeS3) error(w http.ResponseWriter, code int, name string) {
	w.WriteHeader(code)
	io.WriteString(w, "<Error><Code>"+name+"</Code><Message>"+name+"</Message></Error>")
}

func (f *fakeS3) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	f.lock.Lock()
	defer f.lock.Unlock()
	if err != nil { // the client gave up, nobody waits for the response
		f.error(w, http.StatusBadRequest, "BadRequest")
		return
	}
	f.reqs++
	if f.fail > 0 && f.reqs%f.fail == 0 {
		f.failed++
		f.error(w, http.StatusForbidden, "AccessDenied")
		return
	}
	bucket, key, _ := strings.Cut(strings.TrimPrefix(r.URL.Path, "/"), "/")
	if bucket != "bucket" || r.ContentLength >= 0 && int64(len(body)) != r.ContentLength {
		f.error(w, http.StatusBadRequest, "BadRequest")
		return
	}
	switch {
	case r.Method == "PUT" && key != "":
		f.objs[key] = body
	case r.Method == "DELETE" && key != "":
		delete(f.objs, key)
		w.WriteHeader(http.StatusNoContent)
	case r.Method == "GET" && key != "":
		b, ok := f.objs[key]
		if !ok {
			f.error(w, http.StatusNotFound, "NoSuchKey")
			return
		}
		w.Header().Set("Content-Length", strconv.Itoa(len(b)))
		w.Write(b)
	case r.Method == "GET":
		f.list(w, r)
	default:
		f.error(w, http.StatusMethodNotAllowed, "MethodNotAllowed")
	}
}

func (f *fakeS3) list(w http.ResponseWriter, r *http.Request) {
	q := r.URL.Query()
	prefix, delim, marker := q.Get("prefix"), q.Get("delimiter"), q.Get("marker")
	max, err := strconv.Atoi(q.Get("max-keys"))
	if err != nil || max > f.maxKeys {
		max = f.maxKeys
	}
	type content struct{ Key string }
	type common struct{ Prefix string }
	res := struct {
		XMLName        xml.Name `xml:"ListBucketResult"`
		Name, Prefix   string
		IsTruncated    bool
		NextMarker     string `xml:",omitempty"`
		Contents       []content
		CommonPrefixes []common
	}{Name: "bucket", Prefix: prefix}
	var keys []string
	for k := range f.objs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	last, n := "", 0
	for _, k := range keys {
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		item := k
		if i := strings.Index(k[len(prefix):], delim); delim != "" && i >= 0 {
			item = k[:len(prefix)+i+len(delim)]
		}
		if item <= marker || item == last {
			continue
		}
		if n == max {
			res.IsTruncated = true
			res.NextMarker = last
			f.pages++
			break
		}
		n++
		last = item
		if item != k || strings.HasSuffix(item, delim) && delim != "" {
			res.CommonPrefixes = append(res.CommonPrefixes, common{item})
		} else {
			res.Contents = append(res.Contents, content{item})
		}
	}
	w.Header().Set("Content-Type", "application/xml")
	xml.NewEncoder(w).Encode(res)
}
