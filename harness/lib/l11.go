package lib

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L11",
		Rule: "tree: a random tree of files is listed, copied, hashed, zipped (with filters, without sub-folders), joined with other archives, unzipped and partly removed, the folder is named in different ways; the results are compared with " +
			"a walk of the harness. hostile: archives with names which lead out of the destination folder, long and repeated names: nothing outside is touched. mmap: a mapped file is written, grown, closed and opened " +
			"against a slice of bytes and the content of the file read in a usual way. make: folders, files and random names are made by goroutines. Distinct by the trees and outcomes",
		Assumptions: []string{"the process can read and write the files", "the links are only to the top folder which is listed"},
		MinEvents:   []string{"listed", "copied", "unzipped", "joined", "removed", "spelled", "same-hash", "other-hash", "hostile", "refused", "grown", "reopened", "made", "prepopulated"},
		Scens: []fw.Scenario{
			{Name: "tree", Quick: 320, Thorough: 16000, Run: l11Tree},
			{Name: "hostile", Quick: 400, Thorough: 16000, Run: l11Hostile},
			{Name: "mmap", Quick: 400, Thorough: 16000, Run: l11MMap},
			{Name: "make", Quick: 160, Thorough: 4000, Run: l11Make},
		},
	})
}

type ftree map[string]string // the path -> content, directories have names with / at the end

func (t ftree) write(dir string) {
	fw.Must(os.MkdirAll(dir, 0o755))
	for _, n := range sortedKeys(t) {
		fn := filepath.Join(dir, n)
		if strings.HasSuffix(n, "/") {
			fw.Must(os.MkdirAll(fn, 0o755))
			continue
		}
		fw.Must(os.MkdirAll(filepath.Dir(fn), 0o755))
		fw.Must(os.WriteFile(fn, []byte(t[n]), 0o644))
	}
}

func readTree(dir string) ftree {
	t := ftree{}
	fw.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			if os.IsNotExist(err) { // nothing is there
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			if rel != "." {
				t[rel+"/"] = ""
			}
			return nil
		}
		b, err := os.ReadFile(p)
		t[rel] = string(b)
		return err
	}))
	return t
}

// full adds the folders of the files
func (t ftree) full() ftree {
	res := ftree{}
	for n, v := range t {
		res[n] = v
		for d := filepath.Dir(strings.TrimSuffix(n, "/")); d != "."; d = filepath.Dir(d) {
			res[d+"/"] = ""
		}
	}
	return res
}

func (t ftree) filesOnly(f func(n string) bool) ftree {
	res := ftree{}
	for n, v := range t {
		if !strings.HasSuffix(n, "/") && (f == nil || f(n)) {
			res[n] = v
		}
	}
	return res
}

func (t ftree) diff(o ftree) string {
	var d []string
	for n, v := range t {
		if w, ok := o[n]; !ok {
			d = append(d, "no "+n)
		} else if v != w {
			d = append(d, fmt.Sprintf("%s has %d bytes, not the %d ones expected", n, len(w), len(v)))
		}
	}
	for n := range o {
		if _, ok := t[n]; !ok {
			d = append(d, "extra "+n)
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

func rndTree(r *rand.Rand) ftree {
	t := ftree{}
	names := []string{"a", "b", "ab", "a b", "c.txt", ".h", "яй", "d", "1", "10"}
	for i := r.Intn(12); i > 0; i-- {
		p := "x" + oneOf(r, names)
		for r.Intn(2) == 0 {
			p = oneOf(r, []string{"d", "e", "f1", "dd", "src"}) + "/" + p
		}
		switch r.Intn(8) {
		case 0:
			t[p+"y/"] = ""
		case 1:
			t[p] = ""
		case 2:
			b := make([]byte, r.Intn(70000))
			r.Read(b)
			t[p] = string(b)
		default:
			t[p] = oneOf(r, []string{"1", "la", "la la", "/xa", "xb"}) + oneOf(r, names)
		}
	}
	return t
}

// prepopulate makes some of the files of t in the folder in advance, they have another content there. It returns what the
// folder must have when t comes there
func (t ftree) prepopulate(c *fw.Case, dir string) ftree {
	res := t.full()
	if c.Rng.Intn(2) == 0 {
		return res
	}
	old := ftree{}
	for n, v := range t {
		if !strings.HasSuffix(n, "/") && c.Rng.Intn(2) == 0 {
			old[n] = oneOf(c.Rng, []string{v + "and more of it", "", v + v + v, strings.Repeat("z", len(v)), "?"})
		} else if c.Rng.Intn(4) == 0 {
			k := filepath.Join(filepath.Dir(n), "~kept")
			old[k], res[k] = "kept "+n, "kept "+n
		}
	}
	old.write(dir)
	c.Count("prepopulated", 1)
	return res
}

// spell names dir, which is in the current folder's parent, in another way
func spell(r *rand.Rand, base, name string) string {
	rel := "../" + filepath.Base(base) + "/" + name
	return oneOf(r, []string{filepath.Join(base, name), base + "/" + name + "/", base + "//" + name, base + "/./" + name, base + "/" + name + "/.", "./" + name, name, name + "/", rel, "./" + name + "/../" + name})
}

func l11Tree(c *fw.Case) {
	r := c.Rng
	base := c.Dir()
	wd, err := os.Getwd()
	fw.Must(err)
	fw.Must(os.Chdir(base))
	defer func() { fw.Must(os.Chdir(wd)) }()
	t := rndTree(r)
	full := t.full()
	t.write(filepath.Join(base, "src"))
	sp := func() string {
		c.Count("spelled", 1)
		return spell(r, base, "src")
	}
	ok := func(what string, err error) {
		if err != nil {
			c.Fatal(what+"-failed", "%s: %v", what, err)
		}
	}

	// list, by a link too
	dir := sp()
	if r.Intn(4) == 0 {
		fw.Must(os.Symlink("src", filepath.Join(base, "link")))
		dir = spell(r, base, "link")
	}
	var want, got []string
	for n := range full {
		if i := strings.Index(n, "/"); i < 0 || i == len(n)-1 {
			want = append(want, fmt.Sprintf("%s %d", n, len(full[n])))
		}
	}
	for _, fi := range files.ListDir(dir) {
		n := fi.Name()
		sz := fi.Size()
		if fi.IsDir() {
			n, sz = n+"/", 0
		}
		got = append(got, fmt.Sprintf("%s %d", n, sz))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "|") != strings.Join(got, "|") {
		c.Fail("list", "the folder %q is listed as %q, it has %q", dir, got, want)
	}
	c.Count("listed", 1)

	// copy
	ok("copy", files.CopyDir(sp(), filepath.Join(base, "copy", "to")))
	if cto := filepath.Join(base, "copy2", "to"); r.Intn(2) == 0 {
		wantTo := t.prepopulate(c, cto)
		ok("copy", files.CopyDir(sp(), cto))
		if d := wantTo.diff(readTree(cto)); d != "" {
			c.Fail("copy", "the copy of the folder over another one differs: %s", d)
		}
	}
	if d := full.diff(readTree(filepath.Join(base, "copy", "to"))); d != "" {
		c.Fail("copy", "the copy of the folder differs: %s", d)
	}
	c.Count("copied", 1)

	// hashes
	rec := r.Intn(3) > 0
	h1, err := files.HashDir(sp(), nil, rec)
	ok("hash", err)
	h2, err := files.HashDir(filepath.Join(base, "copy", "to"), nil, rec)
	ok("hash", err)
	if !bytes.Equal(h1.Bytes(), h2.Bytes()) {
		c.Fail("hash-same", "different hashes of the same content (recursive %t)", rec)
	}
	c.Count("same-hash", 1)
	o := ftree{}
	for n, v := range t {
		o[n] = v
	}
	what := "nothing"
	ns := sortedKeys(o)
	switch k := r.Intn(6); {
	case len(ns) > 0 && k == 0:
		n := oneOf(r, ns)
		delete(o, n)
		what = "removed " + n
	case len(ns) > 0 && k == 1: // the content becomes a part of the name and so on
		n := oneOf(r, ns)
		v := o[n]
		if !strings.HasSuffix(n, "/") && len(v) > 1 && len(v) < 100 && !strings.ContainsAny(v[:1], "/.") {
			delete(o, n)
			o[n+v[:1]] = v[1:]
			what = "shifted " + n
		}
	case len(ns) > 1 && k == 2: // a file is glued to the previous one
		i := 1 + r.Intn(len(ns)-1)
		if a, b := ns[i-1], ns[i]; !strings.HasSuffix(a, "/") && !strings.HasSuffix(b, "/") {
			o[a] = o[a] + "/" + b + o[b]
			delete(o, b)
			what = "glued " + a + " and " + b
		}
	case len(ns) > 0 && k == 3:
		n := oneOf(r, ns)
		if !strings.HasSuffix(n, "/") {
			b := []byte(o[n] + "z")
			b[r.Intn(len(b))] ^= 1
			o[n] = string(b)
			what = "changed " + n
		}
	case k == 4:
		o["q/"] = ""
		what = "a folder added"
	case k == 5:
		o["q"] = ""
		what = "an empty file added"
	}
	o.write(filepath.Join(base, "other"))
	h3, err := files.HashDir(spell(r, base, "other"), nil, true)
	ok("hash", err)
	h1, err = files.HashDir(sp(), nil, true)
	ok("hash", err)
	if same := full.diff(readTree(filepath.Join(base, "other"))) == ""; same != bytes.Equal(h1.Bytes(), h3.Bytes()) {
		c.Fail("hash-other", "the content is the same: %t, the hashes are the same: %t after %s", same, bytes.Equal(h1.Bytes(), h3.Bytes()), what)
	}
	c.Count("other-hash", 1)

	// zip
	rec = r.Intn(3) > 0
	var test func(string) bool
	if r.Intn(2) == 0 {
		test = func(p string) bool { return strings.ContainsAny(filepath.Base(p), "ab") }
	}
	sel := t.filesOnly(func(n string) bool { return (rec || !strings.Contains(n, "/")) && (test == nil || test(n)) })
	zf := filepath.Join(base, "1.zip")
	if r.Intn(4) == 0 {
		fw.Must(os.WriteFile(zf, make([]byte, r.Intn(200000)), 0o644))
	}
	ok("zip", files.ZipFolder(sp(), zf, test, rec))
	wantUn := sel.prepopulate(c, filepath.Join(base, "un", "zip"))
	ok("unzip", files.UnzipToFolder(zf, filepath.Join(base, "un", "zip")))
	if d := wantUn.diff(readTree(filepath.Join(base, "un", "zip"))); d != "" {
		c.Fail("zip", "the folder is not the same after zipping (recursive %t, filter %t): %s", rec, test != nil, d)
	}
	c.Count("unzipped", 1)

	// join archives
	joined := ftree{}
	jf := filepath.Join(base, "join.zip")
	zw, err := files.NewZipWriter(jf)
	ok("zip-writer", err)
	for i := 0; i < 1+r.Intn(3); i++ {
		pfx := fmt.Sprintf("p%d", i)
		ot := rndTree(r)
		of := filepath.Join(base, pfx+".zip")
		zipTree(of, ot, r)
		zi, err := files.NewZipIterator(of)
		ok("zip-iterator", err)
		ok("zip-copy", files.ZipCopy(zw, zi, pfx))
		ok("zip-iterator-close", zi.Close())
		for n, v := range ot.filesOnly(nil) {
			joined[pfx+"/"+n] = v
		}
	}
	if w, err := zw.Create("own"); err == nil {
		_, err = io.WriteString(w, "mine")
		fw.Must(err)
		joined["own"] = "mine"
	} else {
		c.Fail("zip-create", "could not create a file in an archive: %v", err)
	}
	if _, err := zw.Create("own"); !errors.Is(err, os.ErrExist) {
		c.Fail("zip-twice", "the same name in an archive: %v", err)
	}
	ok("zip-close", zw.Close())
	ok("unzip", files.UnzipToFolder(jf, filepath.Join(base, "joined")))
	if d := joined.full().diff(readTree(filepath.Join(base, "joined"))); d != "" {
		c.Fail("join", "wrong content of joined archives: %s", d)
	}
	c.Count("joined", 1)

	// damaged archive must be reported
	if b, err := os.ReadFile(zf); err == nil && len(sel) > 0 {
		n := oneOf(r, sortedKeys(sel))
		zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
		fw.Must(err)
		for _, f := range zr.File {
			if off, err := f.DataOffset(); err == nil && strings.TrimLeft(f.Name, "/") == n && f.CompressedSize64 > 6 && len(sel[n]) > 0 {
				b[off+int64(f.CompressedSize64)/2] ^= 0x55
				bad := filepath.Join(base, "bad.zip")
				fw.Must(os.WriteFile(bad, b, 0o644))
				if err := files.UnzipToFolder(bad, filepath.Join(base, "bad")); err == nil {
					if g, _ := os.ReadFile(filepath.Join(base, "bad", n)); string(g) != sel[n] {
						c.Fail("damaged", "a damaged archive is unzipped without an error")
					}
				}
				zw, err := files.NewZipWriter(filepath.Join(base, "bad2.zip"))
				fw.Must(err)
				zi, err := files.NewZipIterator(bad)
				fw.Must(err)
				err = files.ZipCopy(zw, zi, "")
				_ = zi.Close()
				_ = zw.Close()
				if err == nil {
					c.Fail("damaged-copy", "a damaged archive is copied without an error")
				}
				c.Count("damaged", 1)
				break
			}
		}
	}

	// remove
	sel = ftree{}
	keep := ftree{}
	for n, v := range full {
		if strings.HasSuffix(n, "/") {
			continue
		}
		if strings.Contains(filepath.Base(n), "a") {
			sel[n] = v
		} else {
			keep[n] = v
		}
	}
	ok("remove", files.RemoveFiles(sp(), func(_ string, fi os.FileInfo) bool { return fi.IsDir() || strings.Contains(fi.Name(), "a") }))
	if d := keep.full().diff(readTree(filepath.Join(base, "src"))); d != "" {
		c.Fail("remove", "wrong files after removing: %s", d)
	}
	c.Count("removed", 1)
	for n := range full {
		if strings.HasSuffix(n, "/") {
			if _, err := os.Stat(filepath.Join(base, "copy", "to", n)); err != nil { // reported already
				continue
			}
			empty, err := files.IsDirEmpty(filepath.Join(base, "copy", "to", n))
			has := false
			for m := range full {
				has = has || (m != n && strings.HasPrefix(m, n))
			}
			if err != nil || empty == has {
				c.Fail("empty", "the folder %s has something: %t, it is reported as empty: %t, %v", n, has, empty, err)
			}
		}
	}
	c.Eval(8)
	c.Distinct(sortedKeys(t), rec, test != nil, what)
}

// zipTree writes an archive as other tools do: with folders, compressed or not
func zipTree(fn string, t ftree, r *rand.Rand) {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	src := t
	if r.Intn(2) == 0 {
		src = t.full()
	}
	for _, n := range sortedKeys(src) {
		h := &zip.FileHeader{Name: n, Method: uint16(r.Intn(2)) * zip.Deflate}
		if strings.HasSuffix(n, "/") {
			h.Method = zip.Store
		}
		w, err := zw.CreateHeader(h)
		fw.Must(err)
		if !strings.HasSuffix(n, "/") {
			_, err = io.WriteString(w, src[n])
			fw.Must(err)
		}
	}
	fw.Must(zw.Close())
	fw.Must(os.WriteFile(fn, buf.Bytes(), 0o644))
}

// l11Hostile: the destination is 5 levels below the scratch folder and the names go 3 levels up
func l11Hostile(c *fw.Case) {
	r := c.Rng
	base := c.Dir()
	dst := filepath.Join(base, "1", "2", "3", "4", "dst")
	fw.Must(os.MkdirAll(filepath.Dir(dst), 0o755))
	fw.Must(os.WriteFile(filepath.Join(base, "1", "2", "3", "4", "keep"), []byte("keep"), 0o644))
	if r.Intn(2) == 0 {
		fw.Must(os.MkdirAll(dst+"x", 0o755))
	}
	before := readTree(base)
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	good := ftree{}
	out := false
	used := map[string]bool{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		n := oneOf(r, []string{"a", "b/c", "b/d", "/abs", "/abs2/x", "..x", "x..", "...", "b/..c/d", "./dot", "e/./f", "e/../g"})
		bad := false
		if r.Intn(2) == 0 {
			n = oneOf(r, []string{"../keep", "../new", "../dstx/y", "../../z", "a/../../keep", "b/../../../w", "/../keep", "/../../q", "./../keep", "..", "b/../.."})
			bad = true
		}
		cl := strings.TrimPrefix(filepath.Clean("/"+n), "/")
		if used[cl] || (cl == "" && !bad) {
			continue
		}
		used[cl] = true
		w, err := zw.Create(n)
		fw.Must(err)
		v := fmt.Sprint("v", r.Intn(100))
		_, err = io.WriteString(w, v)
		fw.Must(err)
		if bad {
			out = true
		} else {
			good[cl] = v
		}
	}
	fw.Must(zw.Close())
	zf := filepath.Join(base, "z.zip")
	fw.Must(os.WriteFile(zf, buf.Bytes(), 0o644))
	before["z.zip"] = buf.String()
	err := files.UnzipToFolder(zf, dst)
	after := readTree(base)
	in := ftree{}
	for n, v := range after {
		if strings.HasPrefix(n, "1/2/3/4/dst/") {
			if rel := strings.TrimPrefix(n, "1/2/3/4/dst/"); rel != "" {
				in[rel] = v
			}
			delete(after, n)
		}
	}
	if d := before.diff(after); d != "" {
		c.Fail("escaped", "unzipping touched the files out of the destination folder: %s", d)
	}
	if !out {
		if err != nil {
			c.Fail("good-refused", "a good archive %q is refused: %v", sortedKeys(good), err)
		} else if d := good.full().diff(in); d != "" {
			c.Fail("content", "wrong content: %s", d)
		}
	} else {
		c.Count("hostile", 1)
		if err != nil {
			c.Count("refused", 1)
		}
		for n, v := range in.filesOnly(nil) {
			if w, ok := good[n]; ok && w != v {
				c.Fail("content", "wrong content of %s", n)
			}
		}
	}
	c.Eval(2)
	c.Distinct(sortedKeys(good), out, err == nil)
}

func l11MMap(c *fw.Case) {
	r := c.Rng
	fn := filepath.Join(c.Dir(), "mm")
	const B = files.BlockSize
	if _, err := files.NewMMFile(fn, B); err == nil {
		c.Fail("missing", "a missing file is mapped")
	}
	var model []byte
	if r.Intn(2) == 0 {
		model = make([]byte, r.Intn(4)*B)
		r.Read(model)
	}
	fw.Must(os.WriteFile(fn, model, 0o644))
	var mm *files.MMFile
	for step := 0; step < 30; step++ {
		if mm == nil {
			sz := []int64{int64(r.Intn(5) * B), -1, int64(r.Intn(3*B) + 1), 0}[min(r.Intn(8), 3)]
			if r.Intn(2) == 0 {
				sz = int64(1+r.Intn(5)) * B
			}
			m, err := files.NewMMFile(fn, sz)
			eff := sz
			if sz < 0 {
				eff = int64(len(model))
			}
			if good := eff > 0 && eff%B == 0; good != (err == nil) {
				c.Fatal("open", "the file of %d bytes is opened with the size %d: %v", len(model), sz, err)
			}
			if err != nil {
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fail("open-error", "wrong error %v", err)
				}
				c.Count("refused", 1)
				continue
			}
			mm = m
			if n := int(max(eff, int64(len(model)))); n > len(model) {
				model = append(model, make([]byte, n-len(model))...)
			}
			if mm.Size() != int64(len(model)) {
				c.Fatal("size", "the size is %d, expected %d", mm.Size(), len(model))
			}
		}
		switch r.Intn(6) {
		case 0, 1, 2: // write and read
			off, n := r.Intn(len(model)+100)-50, r.Intn(2*B)
			if r.Intn(4) == 0 {
				off = len(model) - r.Intn(5)
			}
			b, err := mm.Buffer(int64(off), n)
			if off < 0 || off >= len(model) {
				if !errors.Is(err, serrors.ErrInvalid) {
					c.Fail("bounds", "no error for the offset %d of %d: %v", off, len(model), err)
				}
				c.Count("refused", 1)
				continue
			}
			want := min(n, len(model)-off)
			if err != nil || len(b) != want {
				c.Fatal("buffer", "%d bytes are got by the offset %d and the size %d of %d: %v", len(b), off, n, len(model), err)
			}
			if !bytes.Equal(b, model[off:off+want]) {
				c.Fatal("read", "wrong bytes by the offset %d and the size %d", off, n)
			}
			r.Read(b)
			copy(model[off:], b)
		case 3:
			sz := int64(len(model) + (r.Intn(4)-1)*B)
			if r.Intn(4) == 0 {
				sz = int64(len(model) + r.Intn(2*B))
			}
			err := mm.Grow(sz)
			good := sz == int64(len(model)) || (sz > int64(len(model)) && sz%B == 0)
			if good != (err == nil) {
				c.Fatal("grow", "growing from %d to %d: %v", len(model), sz, err)
			}
			if err == nil {
				model = append(model, make([]byte, int(sz)-len(model))...)
				c.Count("grown", 1)
			}
			if mm.Size() != int64(len(model)) {
				c.Fatal("size", "the size is %d, expected %d", mm.Size(), len(model))
			}
		case 4:
			if err := mm.Flush(); err != nil {
				c.Fail("flush", "flush: %v", err)
			}
			b, err := os.ReadFile(fn)
			if err != nil || !bytes.Equal(b, model) {
				c.Fatal("file", "the file has not what is written: %d bytes of %d, %v", len(b), len(model), err)
			}
		case 5:
			if err := mm.Close(); err != nil {
				c.Fail("close", "close: %v", err)
			}
			if _, err := mm.Buffer(0, 1); err == nil {
				c.Fail("closed", "a closed file gives a buffer")
			}
			if err := mm.Flush(); err == nil {
				c.Fail("closed", "a closed file is flushed")
			}
			if err := mm.Close(); err != nil {
				c.Fail("close", "the second close: %v", err)
			}
			b, err := os.ReadFile(fn)
			if err != nil || !bytes.Equal(b, model) {
				c.Fatal("file", "the file has not what is written: %d bytes of %d, %v", len(b), len(model), err)
			}
			mm = nil
			c.Count("reopened", 1)
		}
		c.Eval(1)
	}
	if mm != nil {
		_ = mm.Close()
	}
	c.Distinct(len(model) / B)
}

var randomHangs bool

func l11Make(c *fw.Case) {
	r := c.Rng
	base := c.Dir()
	fw.Must(os.WriteFile(filepath.Join(base, "file"), []byte("x"), 0o644))
	wd, err := os.Getwd()
	fw.Must(err)
	fw.Must(os.Chdir(base))
	defer func() { fw.Must(os.Chdir(wd)) }()
	var wg sync.WaitGroup
	var lock sync.Mutex
	names := map[string]bool{}
	for g := 0; g < 6; g++ {
		rg := newRng(c)
		c.Go(&wg, "make", func() {
			for i := 0; i < 4; i++ {
				d := oneOf(rg, []string{"a", "a/b", "a/b/c", "d/"})
				if rg.Intn(2) == 0 {
					d = filepath.Join(base, d)
				}
				if err := files.EnsureDirExists(d); err != nil {
					c.Fail("dir", "could not make the folder %q: %v", d, err)
				} else if fi, err := os.Stat(d); err != nil || !fi.IsDir() {
					c.Fail("dir", "the folder %q is not made: %v", d, err)
				}
				f := oneOf(rg, []string{"f", "a/f", "x/y/f", "file"})
				if err := files.EnsureFileExists(f); err != nil {
					c.Fail("file", "could not make the file %q: %v", f, err)
				} else if fi, err := os.Stat(f); err != nil || !fi.Mode().IsRegular() {
					c.Fail("file", "the file %q is not made: %v", f, err)
				}
				n, err := files.CreateRandomDir(base, "rnd")
				if err != nil {
					c.Fail("random", "no random folder: %v", err)
					return
				}
				n2, err := files.CreateRandomFileName(base, "rnd")
				if err != nil {
					c.Fail("random", "no random name: %v", err)
					return
				}
				_, serr := os.Stat(n2)
				lock.Lock()
				if fi, err := os.Stat(n); err != nil || !fi.IsDir() || names[n] || names[n2] || serr == nil || !strings.HasPrefix(filepath.Base(n), "rnd") || filepath.Dir(n2) != base {
					c.Fail("random", "wrong random names %q %q: %v", n, n2, err)
				}
				names[n], names[n2] = true, true
				lock.Unlock()
				c.Count("made", 4)
				c.Eval(4)
			}
		})
	}
	wg.Wait()
	if b, err := os.ReadFile("file"); err != nil || string(b) != "x" {
		c.Fail("spoiled", "the existing file is spoiled %q %v", b, err)
	}
	if err := files.EnsureDirExists("file"); err == nil {
		c.Fail("file-as-dir", "a file is taken for a folder")
	}
	if err := files.EnsureFileExists("file/x"); err == nil {
		c.Fail("file-as-dir", "a file is taken for a folder")
	}
	if randomHangs { // reported, it takes a CPU
		return
	}
	randomHangs = !c.Within(inTime, "random-hangs", "a random name in a wrong folder", func() {
		if n, err := files.CreateRandomDir(filepath.Join(base, "file"), "x"); err == nil {
			c.Fail("random-wrong", "a random folder %q in a file", n)
		}
	})
	c.Distinct(r.Intn(1))
}
