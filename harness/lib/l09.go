package lib

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ghodss/yaml"

	"github.com/solarisdb/solaris/golibs/config"
	"github.com/solarisdb/solaris/pkg/db"
	"github.com/solarisdb/solaris/pkg/server"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L09",
		Rule: "server: the server configuration is built from a random file (JSON or YAML, any letter case of the keys) and random environment variables (among unrelated ones), every field must have the " +
			"value of the environment, else of the file, else the default; wrong files are errors. enricher: the same for structures with nested and missing pointers, lists, maps, aliases and private fields " +
			"through sequences of changes. dsn: an emulated database server must receive exactly the user, the database and the password which are configured. " +
			"Distinct by the sets of the fields provided and the outcomes",
		Assumptions: []string{"the values provided are valid for the types of the fields", "no NUL characters", "a name in different letter cases is not given twice"},
		MinEvents:   []string{"from-env", "from-file", "from-default", "bad-file", "applied", "set", "skipped", "connections"},
		Scens: []fw.Scenario{
			{Name: "server", Quick: 2400, Thorough: 60000, Run: l09Server},
			{Name: "enricher", Quick: 8000, Thorough: 300000, Run: l09Enricher},
			{Name: "dsn", Quick: 800, Thorough: 20000, Run: l09DSN},
		},
	})
}

// flat represents the value as the path -> leaf map, only exported fields are there. A pointer to
// a struct is presented by "&" if not nil
func flat(v reflect.Value, path string, res map[string]string) {
	switch {
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				flat(v.Field(i), path+"/"+f.Name, res)
			}
		}
	case v.Kind() == reflect.Pointer && v.Type().Elem().Kind() == reflect.Struct:
		if !v.IsNil() {
			res[path] = "&"
			flat(v.Elem(), path, res)
		}
	case v.IsZero():
	default:
		b, err := json.Marshal(v.Interface())
		fw.Must(err)
		res[path] = string(b)
	}
}

func flatten(v any) map[string]string {
	res := map[string]string{}
	flat(reflect.ValueOf(v), "", res)
	return res
}

// own leaves the values which are not shared with the configuration they are applied to: the lists and maps are
func own(m map[string]string) map[string]string {
	m = maps.Clone(m)
	maps.DeleteFunc(m, func(k, _ string) bool { return k == "/M" || strings.HasSuffix(k, "/List") })
	return m
}

func diffFlat(want, got map[string]string) string {
	var d []string
	for k, w := range want {
		if g, ok := got[k]; !ok || g != w {
			d = append(d, fmt.Sprintf("%s must be %q, but it is %q", k, w, g))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%s must not be set, but it is %q", k, g))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// rndCase changes the case of the letters
func rndCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

var cfgStrs = []string{"", "a", "localhost", "two words", "it's", `back\slash`, `q"uote`, "a=b", "123", "true", "null", "[1]", "{", "tab\there", "new\nline", "яйцо", "\U0001F600", "\u2028", "\U000e0001", "\x01\x1b", "_", "a_b", "# no", "- x", "key: v", " lead", "trail ", "%41", "a,b", "$HOME", "\x7f", "''", `\'`, `\\`}

func cfgStr(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return oneOf(r, cfgStrs) + oneOf(r, cfgStrs)
	}
	return oneOf(r, cfgStrs)
}

// encodeFile writes the object to the file, random format and extension
func encodeFile(c *fw.Case, obj map[string]any) string {
	b, err := json.Marshal(obj)
	fw.Must(err)
	ext := "json"
	// YAML doesn't allow some characters
	if c.Rng.Intn(2) == 0 && !strings.ContainsAny(string(b), "\x7f\U000e0001\u2028") && !strings.Contains(string(b), `\u00`) {
		ext = "yaml"
		if c.Rng.Intn(4) > 0 { // JSON is YAML too
			b, err = yaml.JSONToYAML(b)
			fw.Must(err)
		}
	}
	fn := filepath.Join(c.Dir(), fmt.Sprintf("f%d.%s", c.Rng.Intn(1000), rndCase(c.Rng, ext)))
	fw.Must(os.WriteFile(fn, b, 0o600))
	return fn
}

type cfgField struct {
	path string // as in flat
	kind string // s - string, i - int, p - pointer to int
	def  string
}

var srvFields = []cfgField{
	{"/GrpcTransport/Network", "s", `"tcp"`}, {"/GrpcTransport/Address", "s", ""}, {"/GrpcTransport/Port", "i", "50051"},
	{"/HttpPort", "i", "8080"}, {"/LocalDBFilePath", "s", `"slogs"`}, {"/MaxOpenedLogFiles", "i", "100"},
	{"/DB/Driver", "s", `"postgres"`}, {"/DB/Host", "s", `"localhost"`}, {"/DB/Port", "s", `"5432"`}, {"/DB/Username", "s", `"postgres"`},
	{"/DB/Password", "s", `"postgres"`}, {"/DB/DBName", "s", `"solaris"`}, {"/DB/SSLMode", "s", `"disable"`},
	{"/DB/MaxConnections", "p", "64"}, {"/DB/MaxIdleConnections", "p", "64"}, {"/DB/MaxConnIdleTimeSec", "p", "30"},
}

func l09Server(c *fw.Case) {
	r := c.Rng
	for _, e := range os.Environ() { // nothing of the environment of the check itself
		if n, _, _ := strings.Cut(e, "="); strings.HasPrefix(strings.ToUpper(n), "SOLARIS") {
			os.Unsetenv(n)
		}
	}
	want := map[string]string{"/GrpcTransport": "&", "/DB": "&"}
	obj := map[string]any{}
	var envs []string
	setenv := func(n, v string) {
		fw.Must(os.Setenv(n, v))
		envs = append(envs, n)
	}
	defer func() {
		for _, n := range envs {
			os.Unsetenv(n)
		}
	}()
	set := func(f cfgField, v string) { // v is JSON
		if v == "" || (f.kind == "s" && v == `""`) || (f.kind == "i" && v == "0") {
			delete(want, f.path)
			return
		}
		want[f.path] = v
	}
	pf, pe := r.Intn(4), r.Intn(4)
	keys := map[string]string{} // the section names of the file, same for all the fields
	mask := ""
	for _, f := range srvFields {
		set(f, f.def)
		src := "d"
		val := func() any {
			if f.kind == "s" {
				return cfgStr(r)
			}
			return []int{0, 1, r.Intn(100000), -1, 65535}[r.Intn(5)]
		}
		if r.Intn(4) < pf {
			v := val()
			parts := strings.Split(f.path[1:], "/")
			m := obj
			if len(parts) == 2 {
				k, ok := keys[parts[0]]
				if !ok {
					k = rndCase(r, parts[0])
					keys[parts[0]] = k
					obj[k] = map[string]any{}
				}
				m = obj[k].(map[string]any)
			}
			m[rndCase(r, parts[len(parts)-1])] = v
			b, _ := json.Marshal(v)
			if zero := v == "" || (v == 0 && f.kind == "i"); !zero { // no value same as not provided
				set(f, string(b))
				src = "f"
			}
			c.Count("from-file", 1)
		}
		if r.Intn(4) < pe {
			v := val()
			b, _ := json.Marshal(v)
			s := string(b)
			if f.kind == "s" {
				switch t := v.(string); {
				case strings.HasPrefix(strings.Trim(t, " "), `"`) && strings.HasSuffix(strings.Trim(t, " "), `"`): // ambiguous, as JSON only
				case r.Intn(3) > 0:
					s = t
				}
			}
			setenv(rndCase(r, "SOLARIS"+strings.ReplaceAll(f.path, "/", "_")), s)
			if s != "" { // no value
				set(f, string(b))
				src = "e"
			}
			c.Count("from-env", 1)
		}
		if src == "d" {
			c.Count("from-default", 1)
		}
		mask += src
	}
	for i := r.Intn(3); i > 0; i-- { // unrelated variables
		setenv(oneOf(r, []string{"SOLARISDB_PASSWORD", "SOLARIS_UNKNOWN", "SOLARIS_HTTPPORT_X", "SOLARIS_", "SOLARIS", "SOLARIS_DB__HOST", "SOLARIS_DB_HOST_X", "XSOLARIS_HTTPPORT", "SOLARIS_DB_MAXCONNECTIONS_X", "HTTPPORT", "DB_HOST"}), oneOf(r, []string{"1", "x", "{}", "", "null"}))
	}
	fn := ""
	if len(obj) > 0 || r.Intn(2) == 0 {
		fn = encodeFile(c, obj)
	}
	if r.Intn(12) == 0 {
		what := ""
		switch r.Intn(4) {
		case 0:
			what, fn = "missing", filepath.Join(c.Dir(), "no.json")
		case 1:
			what, fn = "extension", filepath.Join(c.Dir(), "cfg."+oneOf(r, []string{"txt", "jsonx", "toml", "json.bak"}))
			fw.Must(os.WriteFile(fn, []byte("{}"), 0o600))
		case 2:
			what, fn = "malformed", filepath.Join(c.Dir(), "cfg.json")
			fw.Must(os.WriteFile(fn, []byte(oneOf(r, []string{"{", "", `{"HttpPort": "x"`, "[]", "HttpPort: 1"})), 0o600))
		case 3:
			what, fn = "type", encodeFile(c, map[string]any{"HttpPort": map[string]any{"a": 1}})
		}
		cfg, err := server.BuildConfig(fn)
		if err == nil {
			c.Fail("bad-file", "the configuration file is wrong (%s), but it is accepted: %v", what, cfg)
		}
		c.Count("bad-file", 1)
		c.Distinct("bad", what)
		return
	}
	cfg, err := server.BuildConfig(fn)
	c.Eval(len(srvFields))
	if err != nil {
		c.Fail("refused", "a good configuration is refused: %v", err)
		return
	}
	if d := diffFlat(want, flatten(*cfg)); d != "" {
		b, _ := os.ReadFile(fn)
		c.Fail("value", "wrong values: %s; the file %s %q, variables %v", d, filepath.Base(fn), b, envs)
	}
	c.Distinct(mask)
}

type cfgDeep struct {
	Num  int64 `json:"n"`
	Str  *string
	List []string `yaml:"x" json:"items,omitempty"`
	priv int
}

type cfgMid struct {
	A    cfgDeep  `json:"first"`
	B    *cfgDeep `json:",omitempty"`
	On   bool
	Flag *bool `json:"fl"`
	note *string
}

type cfgTop struct {
	F     float64
	Mid   *cfgMid `json:"middle"`
	Other cfgMid
	M     map[string]int
	hid   cfgDeep
	Name  string
	U     *uint16
}

// a random value of cfgTop, the private fields are filled too
func rndTop(r *rand.Rand) cfgTop {
	deep := func() cfgDeep {
		var d cfgDeep
		d.priv = r.Intn(3)
		if r.Intn(2) == 0 {
			d.Num = int64(r.Intn(100) - 50)
		}
		if r.Intn(2) == 0 {
			s := cfgStr(r)
			d.Str = &s
		}
		for i := r.Intn(5) - 2; i > 0; i-- {
			d.List = append(d.List, cfgStr(r))
		}
		return d
	}
	mid := func() cfgMid {
		var m cfgMid
		if r.Intn(2) == 0 {
			m.A = deep()
		}
		if r.Intn(2) == 0 {
			d := deep()
			m.B = &d
		}
		m.On = r.Intn(3) == 0
		if r.Intn(2) == 0 {
			b := r.Intn(2) == 0
			m.Flag = &b
		}
		if r.Intn(2) == 0 {
			s := "note"
			m.note = &s
		}
		return m
	}
	var t cfgTop
	if r.Intn(2) == 0 {
		t.F = float64(r.Intn(1000)) / 8
		t.Name = cfgStr(r)
		t.hid = deep()
	}
	if r.Intn(2) == 0 {
		m := mid()
		t.Mid = &m
	}
	if r.Intn(2) == 0 {
		t.Other = mid()
	}
	if r.Intn(3) == 0 {
		t.M = map[string]int{cfgStr(r): 1, "b": r.Intn(3)}
	}
	if r.Intn(3) == 0 {
		u := uint16(r.Intn(3))
		t.U = &u
	}
	return t
}

// the leaves: the path, the aliases of the steps, the kind
type leaf struct{ path, names, kind string }

var topLeaves = func() (ls []leaf) {
	ls = []leaf{{"/F", "F", "float"}, {"/M", "M", "map"}, {"/Name", "Name", "str"}, {"/U", "U", "uint"}}
	for _, m := range []leaf{{"/Mid", "Mid|middle", ""}, {"/Other", "Other", ""}} {
		ls = append(ls, leaf{m.path + "/On", m.names + "/On", "bool"}, leaf{m.path + "/Flag", m.names + "/Flag|fl", "bool"})
		for _, d := range []leaf{{"/A", "A|first", ""}, {"/B", "B", ""}} {
			p, n := m.path+d.path, m.names+"/"+d.names
			ls = append(ls, leaf{p + "/Num", n + "/Num|n", "int"}, leaf{p + "/Str", n + "/Str", "str"}, leaf{p + "/List", n + "/List|items", "list"})
		}
	}
	return
}()

func l09Enricher(c *fw.Case) {
	r := c.Rng
	start := rndTop(r)
	want := flatten(start)
	hid := fmt.Sprint(start.hid.priv, start.hid.Num, start.Other.A.priv)
	e := config.NewEnricher(start)
	var hist []string
	var others []any // the configurations which are applied, they must not be changed
	var flats []map[string]string
	for step := 1 + r.Intn(5); step > 0; step-- {
		switch r.Intn(3) {
		case 0: // another one
			o := rndTop(r)
			fo := flatten(o)
			fw.Must(e.ApplyOther(config.NewEnricher(o)))
			others, flats = append(others, o), append(flats, own(fo))
			for k, v := range fo {
				want[k] = v
			}
			hist = append(hist, fmt.Sprintf("apply %v", fo))
			c.Count("applied", 1)
		case 1: // a file
			obj := map[string]any{}
			keys := map[string]string{}
			for _, l := range topLeaves {
				if r.Intn(4) > 0 {
					continue
				}
				m := obj
				pfx := ""
				steps := strings.Split(l.names, "/")
				for i, n := range steps {
					nn := strings.Split(n, "|")
					n = nn[len(nn)-1] // the alias if there is one: this is how the files are read
					pfx += "/" + n
					k, ok := keys[pfx]
					if !ok {
						k = rndCase(r, n)
						keys[pfx] = k
					}
					if i == len(steps)-1 {
						_, js := leafVal(r, l.kind)
						m[k] = json.RawMessage(js)
						if l.kind == "map" { // the new values are added
							mm := map[string]int{}
							_ = json.Unmarshal([]byte(want[l.path]), &mm)
							fw.Must(json.Unmarshal([]byte(js), &mm))
							b, _ := json.Marshal(mm)
							js = string(b)
						}
						setLeaf(want, l, js)
						continue
					}
					if m[k] == nil {
						m[k] = map[string]any{}
					}
					m = m[k].(map[string]any)
				}
			}
			fn := encodeFile(c, obj)
			if err := e.LoadFromFile(fn); err != nil {
				b, _ := os.ReadFile(fn)
				c.Fail("refused", "a good file %s is refused: %v: %q", filepath.Base(fn), err, b)
				return
			}
			hist = append(hist, fmt.Sprintf("file %v", obj))
			c.Count("loaded", 1)
		case 2: // key-values
			kv := map[string]string{}
			sep := oneOf(r, []string{"_", ".", "__", "-x-"})
			prefix := oneOf(r, []string{"", "App", "a"})
			pfx := ""
			if prefix != "" {
				pfx = prefix + sep
			}
			for _, l := range topLeaves {
				if r.Intn(6) > 0 {
					continue
				}
				var names []string
				for _, n := range strings.Split(l.names, "/") {
					names = append(names, oneOf(r, strings.Split(n, "|")))
				}
				v, js := leafVal(r, l.kind)
				if v == "" && l.path != "/Name" { // no value, but the structures on the way may appear
					continue
				}
				kv[rndCase(r, pfx+strings.Join(names, sep))] = v
				if v != "" {
					setLeaf(want, l, js)
				}
				c.Count("set", 1)
			}
			for i := r.Intn(3); i > 0; i-- { // must be skipped
				kv[oneOf(r, []string{
					pfx + "hid", pfx + "hid" + sep + "num", pfx + "other" + sep + "note", pfx + "unknown", pfx, pfx + sep, pfx + "name" + sep + "x", pfx + "f" + sep + "a",
					pfx + "mid" + sep + "b" + sep + "priv", pfx + "mid" + sep + "unknown", pfx + "u" + sep + "v", "zzz" + sep + "f"})] = oneOf(r, []string{"1", `{"n":1}`, "x"})
				c.Count("skipped", 1)
			}
			if pv, stack := fw.Try(func() { e.ApplyKeyValues(prefix, sep, kv) }); pv != nil {
				c.Fail(fw.PanicSig(pv, []byte(stack)), "panic: %v for %q\n%s", pv, kv, stack)
				return
			}
			hist = append(hist, fmt.Sprintf("kv %q", kv))
		}
		got := e.Value()
		c.Eval(len(want))
		if d := diffFlat(want, flatten(got)); d != "" {
			c.Fail("value", "wrong values: %s; history: %s", d, strings.Join(hist, " | "))
			return
		}
		for i, o := range others {
			if d := diffFlat(flats[i], own(flatten(o))); d != "" {
				c.Fail("source-changed", "the configuration #%d which was applied is changed: %s; history: %s", i, d, strings.Join(hist, " | "))
				return
			}
			c.Count("sources-intact", 1)
		}
		if h := fmt.Sprint(got.hid.priv, got.hid.Num, got.Other.A.priv); h != hid {
			c.Fail("private", "private fields are changed %s -> %s; history: %s", hid, h, strings.Join(hist, " | "))
			return
		}
	}
	c.Distinct(len(hist), sortedKeys(want))
}

// setLeaf sets the value in the model, the structs which are on the way exist then
func setLeaf(m map[string]string, l leaf, js string) {
	if strings.HasPrefix(l.path, "/Mid") {
		m["/Mid"] = "&"
	}
	if i := strings.Index(l.path, "/B/"); i > 0 {
		m[l.path[:i+2]] = "&"
	}
	ptr := strings.HasSuffix(l.path, "/Flag") || strings.HasSuffix(l.path, "/Str") || l.path == "/U"
	if !ptr && (js == "0" || js == "false" || js == `""`) {
		delete(m, l.path)
		return
	}
	m[l.path] = js
}

// leafVal gives the value for a variable and the same as JSON
func leafVal(r *rand.Rand, kind string) (string, string) {
	mj := func(v any) string {
		b, _ := json.Marshal(v)
		return string(b)
	}
	switch kind {
	case "str":
		s := cfgStr(r)
		t := strings.Trim(s, " ")
		if r.Intn(3) == 0 || (strings.HasPrefix(t, `"`) && strings.HasSuffix(t, `"`)) {
			return mj(s), mj(s)
		}
		return s, mj(s)
	case "int":
		s := strconv.Itoa(r.Intn(200) - 100)
		return s, s
	case "uint":
		s := strconv.Itoa(r.Intn(70) * 900)
		return s, s
	case "float":
		s := mj(float64(r.Intn(100000)-50000) / 16)
		return s, s
	case "bool":
		s := mj(r.Intn(2) == 0)
		return s, s
	case "list":
		l := []string{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			l = append(l, cfgStr(r))
		}
		return mj(l), mj(l)
	}
	// the key is always the same: files are merged to the map
	s := mj(map[string]int{"k" + strconv.Itoa(r.Intn(2)): r.Intn(10)})
	return s, s
}

func l09DSN(c *fw.Case) {
	r := c.Rng
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	fw.Must(err)
	defer ln.Close()
	type seen struct {
		params   map[string]string
		password string
		err      error
	}
	ch := make(chan seen, 1)
	go func() {
		var s seen
		defer func() { ch <- s }()
		conn, err := ln.Accept()
		if err != nil {
			s.err = err
			return
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(inTime))
		msg := func() []byte {
			var l [4]byte
			if _, err := io.ReadFull(conn, l[:]); err != nil {
				s.err = err
				return nil
			}
			b := make([]byte, int(binary.BigEndian.Uint32(l[:]))-4)
			if _, err := io.ReadFull(conn, b); err != nil {
				s.err = err
				return nil
			}
			return b
		}
		b := msg()
		if s.err != nil {
			return
		}
		kv := strings.Split(string(b[4:]), "\x00")
		s.params = map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] != "" {
				s.params[kv[i]] = kv[i+1]
			}
		}
		_, _ = conn.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 3})
		t := make([]byte, 1)
		if _, err := io.ReadFull(conn, t); err != nil || t[0] != 'p' {
			s.err = fmt.Errorf("no password message %q %v", t, err)
			return
		}
		b = msg()
		if s.err != nil {
			return
		}
		s.password = string(b[:len(b)-1])
		e := "SFATAL\x00C28P01\x00Mno\x00\x00"
		_, _ = conn.Write(append([]byte{'E', 0, 0, 0, byte(len(e) + 4)}, e...))
	}()
	nonEmpty := func() string {
		for {
			if s := cfgStr(r); s != "" {
				return s
			}
		}
	}
	_, port, _ := net.SplitHostPort(ln.Addr().String())
	cn := &db.DBConn{Driver: "postgres", Host: "127.0.0.1", Port: port, Username: nonEmpty(), Password: cfgStr(r), DBName: nonEmpty(), SSLMode: "disable"}
	ctx, cancel := context.WithTimeout(context.Background(), inTime)
	defer cancel()
	d, gerr := postgres.GetDb(ctx, cn)
	if gerr == nil {
		d.Close()
		c.Fail("connected", "connected, although the database refuses that")
		return
	}
	ln.Close()
	s := <-ch
	c.Eval(3)
	if s.err != nil {
		c.Fail("no-connection", "the database server with %+v is not connected: %v, %v", *cn, gerr, s.err)
		return
	}
	if s.params["user"] != cn.Username || s.params["database"] != cn.DBName || s.password != cn.Password {
		c.Fail("params", "the database server gets user=%q database=%q password=%q for %q %q %q", s.params["user"], s.params["database"], s.password, cn.Username, cn.DBName, cn.Password)
	}
	c.Count("connections", 1)
	c.Distinct(cn.Username, cn.DBName, cn.Password)
}
