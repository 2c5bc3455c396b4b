package qlm

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/intervals"
	"github.com/solarisdb/solaris/pkg/ql"
	"verif/harness/fw"
	"verif/harness/lcond"
	"verif/harness/tcond"
)

func init() {
	// the answers must not depend on the zone of the server
	time.Local = time.FixedZone("XST", 5*3600+1800)
	fw.Register(&fw.Prop{
		ID: "Q05",
		Rule: "soup: random token sequences, mutated correct conditions and random bytes go to the parser, the evaluator builders, the interval builder and the translator: no panic, every " +
			"refusal is an invalid argument error, the answer doesn't change if repeated. deep/huge: nesting up to millions of parentheses and NOTs, very long lists, chains and " +
			"strings end within the time limit, in the process which must survive. times: instants written in every documented format denote exactly that instant (its precision, " +
			"zone), unix nanoseconds, relative and special forms; dst: the special forms in a server zone the offset of which was changed earlier today or this week; broken or out of range literals are refused. distinct by the outcome and the form",
		Assumptions: []string{"the zone of the server is +05:30 in this harness", "time-only and year-less literals are completed by the current date of either UTC or the server zone"},
		MinEvents:   []string{"accepted", "refused", "deep", "huge", "instants", "relative", "dst", "bad-times"},
		Scens: []fw.Scenario{
			{Name: "soup", Quick: 12000, Thorough: 1200000, Run: q05Soup},
			{Name: "deep", Quick: 40, Thorough: 400, Run: q05Deep, Watchdog: 2 * time.Minute},
			{Name: "times", Quick: 6000, Thorough: 300000, Run: q05Times},
			{Name: "dst", Quick: 200, Thorough: 10000, Run: q05DST},
			{Name: "badtimes", Quick: 2000, Thorough: 100000, Run: q05BadTimes},
		},
	})
}

var ibTime = ql.NewParamIntervalBuilder(intervals.BasisTime, ql.RecordsCondValueDialect, "ctime", ql.OpsAll)

// feed passes the text to everything that takes conditions
func feed(c *fw.Case, text string) (accepted int) {
	check := func(what string, err error) bool {
		if err == nil {
			accepted++
			return true
		}
		if !errors.Is(err, serrors.ErrInvalid) {
			c.Fatal("wrong-error", "%s: the condition %s is refused with %v", what, cut(text), err)
		}
		return false
	}
	e, err := ql.Parse(text)
	if check("parse", err) {
		if f, err := ql.BuildExprF(e, ql.LogsCondValueDialect); check("logs", err) {
			f(&solaris.Log{ID: "x", Tags: map[string]string{"a": "b"}})
			f(&solaris.Log{})
		}
		if f, err := ql.BuildExprF(e, ql.RecordsCondValueDialect); check("records", err) {
			f(&solaris.Record{})
		}
		_, err = ibTime.Build(e)
		check("intervals", err)
	}
	var sb strings.Builder
	check("translate", ql.NewTranslator(ql.LogsCondTranslateDialect).Translate(&sb, text))
	c.Eval(1)
	if accepted > 0 {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	return
}

func cut(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

var toks = []string{"(", ")", "[", "]", ",", "AND", "and", "OR", "Or", "NOT", "not", "IN", "LIKE", "like", "<", ">", "<=", ">=", "=", "!=", "!", "==", "logID", "tag", "ctime", "tag('a')", "'a'", "\"b\"", "''", "'%a%'",
	"1", "-1", "1.5", "1e10", "1e400", "-", "+", ".", "*", ";", "--", "'", "\"", "\\", "\\'", "'\\n'", "'\\'", "foo", "foo(1, 'a', logID)", "f()", "tag(tag('x'))", "['a', 'b']", "[]", "[1, 'a']", "'2024-01-01'", "'-5m'",
	"'minute'", "\x00", "\xff", "ю", "_", "__string__", "__array__", "__number__", "$1", "?", ":", "logID = 'a'", "tag('a') = 'b'", "ctime > '1'", "ctime", "TAG", "LOGID", "nil", "null", "true"}

func q05Soup(c *fw.Case) {
	var text string
	switch c.Rng.Intn(6) {
	case 0:
		b := make([]byte, c.Rng.Intn(40))
		c.Rng.Read(b)
		text = string(b)
	case 1, 2:
		var ps []string
		for n := c.Rng.Intn(12); n > 0; n-- {
			ps = append(ps, toks[c.Rng.Intn(len(toks))])
		}
		text = strings.Join(ps, pick(c, " ", " ", "", "\n"))
	default:
		g := lcond.Gen{R: c.Rng, Tags: []string{"a", "b"}, Vals: vals, Depth: c.Rng.Intn(4)}
		if c.Rng.Intn(2) == 0 {
			text = g.Text(g.Cond())
		} else {
			text = tcond.Gen(c.Rng, nil, c.Rng.Intn(4)).Text(c.Rng)
		}
		for n := c.Rng.Intn(4); n > 0 && len(text) > 0; n-- {
			i := c.Rng.Intn(len(text))
			j := min(len(text), i+1+c.Rng.Intn(8))
			switch c.Rng.Intn(5) {
			case 0:
				text = text[:i] + text[j:]
			case 1:
				text = text[:i] + toks[c.Rng.Intn(len(toks))] + text[i:]
			case 2:
				text = text[:i] + string(rune(c.Rng.Intn(300))) + text[j:]
			case 3:
				text = text[:j] + text[i:]
			case 4:
				k := c.Rng.Intn(len(text))
				text = text[:i] + text[k:]
			}
		}
	}
	a := feed(c, text)
	e1, err1 := ql.Parse(text)
	e2, err2 := ql.Parse(text)
	if fmt.Sprint(err1) != fmt.Sprint(err2) || !reflect.DeepEqual(e1, e2) {
		c.Fatal("not-stable", "the condition %s is parsed in two ways", cut(text))
	}
	c.Distinct(a, len(text)/4, err1 == nil)
	if c.Idx < 4 {
		c.Sample("%s accepted by %d", cut(text), a)
	}
}

func q05Deep(c *fw.Case) {
	n := []int{10, 100, 900, 1000, 1001, 5000, 100000, 3000000}[c.Rng.Intn(8)]
	var text string
	kind := c.Idx % 10
	rep := strings.Repeat
	switch kind {
	case 0:
		text = rep("(", n) + "logID = 'a'" + rep(")", n)
	case 1:
		text = rep("NOT (", n) + "logID = 'a'" + rep(")", n)
	case 2:
		text = rep("(", n)
	case 3:
		text = rep("(logID = 'a' AND ", n) + "logID = 'a'" + rep(")", n)
	case 4:
		text = rep("f(", n) + "1" + rep(")", n)
	case 5:
		text = rep("NOT ", n) + "logID = 'a'"
	case 6:
		text = rep("')' = (", n) + "1" + rep(")", n)
	case 7:
		n = min(n, 200000)
		text = "logID = 'a'" + rep(pick(c, " OR ", " AND ")+"logID = 'a'", n)
		c.Count("huge", 1)
	case 8:
		n = min(n, 200000)
		text = "logID IN ['a'" + rep(", 'b'", n) + "]"
		c.Count("huge", 1)
	case 9:
		text = "logID = '" + rep(pick(c, "x", "(", ")", "NOT (", "[", "\""), n) + "'"
		c.Count("huge", 1)
	}
	var a int
	c.Within(90*time.Second, "too-long", "parsing of "+cut(text), func() { a = feed(c, text) })
	c.Count("deep", 1)
	c.Distinct(kind, n, a)
	if kind >= 7 && kind <= 9 && a == 0 {
		c.Fatal("refused", "a correct condition %s is refused", cut(text))
	}
	if kind < 2 && n <= 900 && a == 0 {
		c.Fatal("refused", "a correct condition with %d nested parentheses is refused", n)
	}
}

// tfmt is a documented form of a time literal
type tfmt struct {
	layout string
	prec   time.Duration
	kind   string // "" - has a date, "noyear", "today"
	zone   bool
	pm     bool
}

func d(layout string) tfmt {
	f := tfmt{layout: layout, prec: time.Second}
	has := func(s string) bool { return strings.Contains(layout, s) }
	switch {
	case has(".000"):
		f.prec = time.Millisecond
	case !has(":"):
		f.prec = 24 * time.Hour
	case !has(":05"):
		f.prec = time.Minute
	}
	if !has("06") {
		f.kind = "noyear"
		if !has("2") || !has("Jan") && !has("01") {
			f.kind = "today"
		}
	}
	f.zone = has("-07") || has("MST")
	return f
}

// the formats the users may write, in the Go notation
var tfmts = func() (r []tfmt) {
	for _, s := range []string{
		"Jan 2, 2006 3:04:05 PM", "Mon Jan _2 15:04:05 2006", "Mon Jan _2 15:04:05 MST 2006", "Mon Jan 02 15:04:05 -0700 2006", "Monday, 06-Jan-02 15:04:05 MST",
		"Mon, 02 Jan 2006 15:04:05 MST", "Mon, 02 Jan 2006 15:04:05 -0700", "Mon, 2 Jan 2006 15:04:05 -0700", "02 Jan 2006, 15:04", "2006-Jan-02", "02 January 2006",
		"02/01/2006 15:04:05.000", "02/01/2006 15:04:05", "2/01/2006 15:04:05", "02/1/2006 15:04:05", "2/1/2006 15:04:05", "2/1/2006 03:04:05 PM", "02/01/2006 15:04", "2/1/2006 15:04", "2/1/06 15:04",
		"2/1/2006 03:04 PM", "2/1/2006 3:04 PM", "02/Jan/2006:15:04:05 -0700", "02/01/2006", "2/01/2006", "02/01/06", "2/1/06",
		"2006/01/02 15:04:05.000", "2006/01/02 15:04:05", "2006/01/2 15:04:05", "2006/1/02 15:04:05", "2006/01/02 15:04", "2006/1/2 15:04", "2006/01/02", "2006/1/02",
		"2006-01-02T15:04:05.000-07:00", "2006-01-02T15:04:05.000-0700", "2006-01-02T15:04:05.000Z", "2006-01-02T15:04:05-07:00", "2006-01-02T15:04:05-0700", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05",
		"2006-01-02 15:04:05.000 -0700 MST", "2006-01-02 15:04:05.000 -0700", "2006-01-02 15:04:05.000-07:00", "2006-01-02 15:04:05.000Z", "2006-01-02 15:04:05Z", "2006-01-02 15:04:05.000",
		"2006-01-02 15:04:05 -07:00", "2006-01-02 15:04:05-07:00", "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 -0700", "2006-01-02 15:04:05 MST", "2006-01-02 03:04:05 PM", "2006-01-02 15:04:05",
		"2006-01-02  15:04:05", "2006-01-02 15:04", "2006-01-02", "01.02.2006", "01.02.06",
		"Mon Jan _2 15:04:05.000", "Mon Jan 02 15:04:05.000", "Jan 02 15:04:05", "Jan _2 15:04:05",
		"15:04:05.000 -0700", "15:04:05 -0700", "15:04 -0700", "15:04:05.000 MST", "15:04:05 MST", "15:04 MST", "15:04:05.000", "15:04:05", "15:04",
	} {
		r = append(r, d(s))
	}
	return
}()

// instant returns what the literal means
func instant(c *fw.Case, lit string) (time.Time, error) {
	q := pick(c, "'", "\"")
	e, err := ql.Parse("ctime " + pick(c, "=", " = ") + q + lit + q)
	if err != nil {
		return time.Time{}, err
	}
	is, err := ibTime.Build(e)
	if err != nil {
		return time.Time{}, err
	}
	if len(is) != 1 || !is[0].L.Equal(is[0].R) || !is[0].LIn {
		c.Fatal("not-an-instant", "the literal %q gives the intervals %v", lit, is)
	}
	return is[0].L, nil
}

func q05Times(c *fw.Case) {
	k := c.Rng.Intn(100)
	c.Eval(1)
	switch {
	case k < 8:
		n := c.Rng.Int63n(3155760000) * 1e9
		if c.Rng.Intn(2) == 0 {
			n += c.Rng.Int63n(1e9)
		}
		got, err := instant(c, pick(c, "", "", "", "0", "00", "+")+fmt.Sprint(n))
		if err != nil || got.UnixNano() != n {
			c.Fatal("wrong-instant", "%d nanoseconds are taken as %v (%v)", n, got, err)
		}
		c.Count("instants", 1)
		return
	case k < 18:
		relative(c)
		return
	}
	f := tfmts[c.Rng.Intn(len(tfmts))]
	ref := time.Unix(c.Rng.Int63n(3155000000), c.Rng.Int63n(1e9)).UTC()
	if c.Rng.Intn(4) == 0 { // on the edges of days, months and years
		ref = time.Date(1971+c.Rng.Intn(98), time.Month(1+c.Rng.Intn(12)), pick(c, 1, 2, 9, 10, 12, 13, 28, 29, 30, 31), pick(c, 0, 1, 11, 12, 13, 23), pick(c, 0, 59, 30), pick(c, 0, 59, 1), pick(c, 0, 1000000, 999000000, 10000000), time.UTC)
	}
	if strings.Contains(f.layout, "06") && !strings.Contains(f.layout, "2006") && ref.Year() > 2068 {
		ref = ref.AddDate(-30, 0, 0) // two digits mean 1969-2068
	}
	if f.kind != "" {
		now := time.Now()
		ref = time.Date(now.Year(), pick(c, time.January, now.Month()), 1+c.Rng.Intn(28), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), time.UTC)
	}
	ref = ref.Truncate(f.prec)
	lit := ref.Format(f.layout)
	if f.zone && !strings.Contains(f.layout, "MST") {
		z := time.FixedZone("", 60*(c.Rng.Intn(24*60)-12*60))
		if f.kind == "today" {
			lit = ref.Format(strings.Split(f.layout, " ")[0]) + " " + ref.In(z).Format("-0700")
			ref = time.Date(ref.Year(), ref.Month(), ref.Day(), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), z)
		} else {
			lit = ref.In(z).Format(f.layout)
		}
	}
	if f.prec == time.Millisecond && c.Rng.Intn(3) == 0 && !strings.Contains(lit, "000") { // any number of the fraction digits
		s := ref.Format(".000")
		lit = strings.Replace(lit, s, s+"000000"[:pick(c, 3, 6)], 1)
	}
	if c.Rng.Intn(5) == 0 {
		lit = " " + lit + " "
	}
	if strings.Contains(f.layout, "PM") && c.Rng.Intn(2) == 0 {
		lit = strings.NewReplacer(" AM", " am", " PM", " pm").Replace(lit)
	}
	b := time.Now()
	got, err := instant(c, lit)
	if err != nil {
		c.Fatal("time-refused", "the literal %q (%s) is refused: %v", lit, f.layout, err)
	}
	ok := got.Equal(ref)
	if f.kind == "today" {
		for _, n := range []time.Time{b, b.UTC(), time.Now(), time.Now().UTC()} {
			ok = ok || got.Equal(time.Date(n.Year(), n.Month(), n.Day(), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), ref.Location()))
		}
	}
	if f.kind == "noyear" {
		ok = ok || got.Equal(ref.AddDate(-1, 0, 0)) && ref.After(b)
	}
	if !ok {
		c.Fatal("wrong-instant", "the literal %q (%s) is taken as %v, but it is %v", lit, f.layout, got.UTC(), ref)
	}
	c.Count("instants", 1)
	c.Distinct(f.layout, ref.Month(), ref.Hour())
	c.Sample("%q is %v", lit, got.UTC())
}

func relative(c *fw.Case) {
	c.Count("relative", 1)
	var lit string
	var lo, hi, alt time.Duration // ago
	b := time.Now()
	if c.Rng.Intn(3) > 0 {
		u := pick(c, "m", "h", "d", "M", "H")
		unit := map[string]time.Duration{"m": time.Minute, "h": time.Hour, "d": 24 * time.Hour}[strings.ToLower(u)]
		x := c.Rng.Float64() * pick(c, 1.0, 10, 1000)
		s := fmt.Sprintf("%.*f", c.Rng.Intn(4), x)
		fmt.Sscan(s, &x)
		lit = "-" + s + u
		ago := time.Duration(x * float64(unit))
		lo, hi = ago-time.Microsecond, ago+time.Microsecond
	} else {
		lit = pick(c, "minute", "hour", "day", "week", "Minute", "HOUR", " day ")
		h, m, s := b.Clock()
		ms := time.Duration(m)*time.Minute + time.Duration(s)*time.Second + time.Duration(b.Nanosecond())
		switch strings.ToLower(strings.TrimSpace(lit)) {
		case "minute":
			// either the beginning of the minute or the time one minute ago
			lo, hi = ms%time.Minute, ms%time.Minute
			alt = time.Minute
		case "hour":
			lo, hi = ms, ms
		case "day":
			lo, hi = ms+time.Duration(h)*time.Hour, ms+time.Duration(h)*time.Hour
		case "week":
			hi = ms + time.Duration(h)*time.Hour + 24*time.Hour*time.Duration(b.Weekday())
			lo = hi
		}
	}
	got, err := instant(c, lit)
	if err != nil {
		c.Fatal("time-refused", "the literal %q is refused: %v", lit, err)
	}
	e := time.Now()
	if b.Minute() != e.Minute() {
		return // the border is passed
	}
	got = got.Round(0) // the wall clock
	if alt != 0 && !got.Before(b.Round(0).Add(-alt-time.Microsecond)) && !got.After(e.Round(0).Add(-alt+time.Microsecond)) {
		lo, hi = alt, alt
	}
	if got.Before(b.Round(0).Add(-hi-time.Microsecond)) || got.After(e.Round(0).Add(-lo+time.Microsecond)) {
		c.Fatal("wrong-instant", "the literal %q is taken as %v at %v", lit, got, b)
	}
	c.Distinct("rel", lit)
}

func q05BadTimes(c *fw.Case) {
	var lit string
	switch c.Rng.Intn(3) {
	case 0:
		lit = pick(c, "", " ", "now", "yesterday", "-", "-m", "-5x", "5m", "-1e30d", "-nand", "-infd", "-0x1p70m", "minutes", "mon", "2024-13-01", "2024-02-30", "2023-02-29", "2024-01-01 25:00:00", "2024-01-01 23:60:00",
			"2024-01-01 23:59:60", "31/02/2024", "32/01/2024", "01/13/2024", "2024-01-01T", "T12:00:00", "12:00:00 PM AM", "25:00", "24:00:01", "12:61", "2024-1-1", "2024/01-01", "2024-01-01 12:00:00 XYZW", "99999999999999999999", "-99999999999999999999",
			"1.5", "1e9", "0x10", "Jan", "2024-Foo-01", "Foo, 02 Jan 2024 10:00:00 GMT", "2024-01-01 2024-01-02", "2024-01-01 13:00:00 PM", "00/00/0000", "2024-00-10", "2024-01-00")
	default: // a correct literal with something around it or broken inside
		f := tfmts[c.Rng.Intn(len(tfmts))]
		lit = time.Unix(c.Rng.Int63n(3e9), 5e8).UTC().Format(f.layout)
		switch c.Rng.Intn(4) {
		case 0:
			lit += pick(c, "x", "foo", " foo", ";", "$", ".", " .", "Q9", "\t!", "=")
		case 1:
			lit = pick(c, "x", "foo ", "at ", "$", ";", "=", "(", "~ ") + lit
		case 2:
			lit = strings.Replace(lit, ":", "?", 1) + "?"
		case 3:
			i := c.Rng.Intn(len(lit))
			lit = lit[:i] + pick(c, "$", "#", "~", "\t") + lit[i:]
		}
	}
	c.Eval(1)
	got, err := instant(c, lit)
	if err == nil {
		c.Fatal("time-accepted", "the literal %q is not a time, but it is taken as %v", lit, got.UTC())
	}
	if !errors.Is(err, serrors.ErrInvalid) {
		c.Fatal("wrong-error", "the literal %q is refused with %v", lit, err)
	}
	c.Count("bad-times", 1)
	c.Distinct("bad", lit)
}

// shifted is a zone with the offset before, and after since the transition (in seconds)
func shifted(at time.Time, before, after int) *time.Location {
	var b bytes.Buffer
	b.WriteString("TZif")
	b.Write(make([]byte, 16))
	w := func(v ...any) {
		for _, x := range v {
			fw.Must(binary.Write(&b, binary.BigEndian, x))
		}
	}
	w(uint32(0), uint32(0), uint32(0), uint32(2), uint32(2), uint32(8)) // isut, isstd, leap, time, type, char counts
	w(int32(0), int32(at.Unix()), []byte{0, 1})
	w(int32(before), []byte{0, 0}, int32(after), []byte{1, 4})
	b.WriteString("BEF\x00AFT\x00")
	l, err := time.LoadLocationFromTZData("Shifted", b.Bytes())
	fw.Must(err)
	return l
}

// q05DST checks the special forms while the server is in a zone which has moved its clock this week
func q05DST(c *fw.Case) {
	saved := time.Local
	defer func() { time.Local = saved }()
	now := time.Now()
	// it is the hour h there, and the clock was moved at a night or during a day before that
	h := 4 + c.Rng.Intn(20)
	after := (h-now.UTC().Hour())*3600 + pick(c, 0, 0, 1800, -900)
	if after > 14*3600 {
		after -= 24 * 3600
	}
	if after < -12*3600 {
		after += 24 * 3600
	}
	before := after + pick(c, -3600, 3600)
	ln := now.In(time.FixedZone("", after))
	days := pick(c, 0, 0, 1, int(ln.Weekday()))
	at := time.Date(ln.Year(), ln.Month(), ln.Day()-days, 2+c.Rng.Intn(2), pick(c, 0, 0, 30), 0, 0, time.FixedZone("", after))
	if at.After(now) {
		return
	}
	time.Local = shifted(at, before, after)
	lit := pick(c, "day", "week", "hour", "Day", "day")
	b := time.Now()
	c.Eval(1)
	got, err := instant(c, lit)
	if err != nil {
		c.Fatal("time-refused", "the literal %q is refused: %v", lit, err)
	}
	if e := time.Now(); e.Hour() != b.Hour() {
		return
	}
	var ref time.Time
	switch strings.ToLower(lit) {
	case "day":
		ref = time.Date(b.Year(), b.Month(), b.Day(), 0, 0, 0, 0, time.Local)
	case "week":
		ref = time.Date(b.Year(), b.Month(), b.Day()-int(b.Weekday()), 0, 0, 0, 0, time.Local)
	default:
		if b.Sub(at) < 2*time.Hour {
			return
		}
		ref = time.Date(b.Year(), b.Month(), b.Day(), b.Hour(), 0, 0, 0, time.Local)
	}
	c.Count("dst", 1)
	if !got.Equal(ref) {
		c.Fatal("wrong-instant", "the literal %q is taken as %v at %v, but it is %v (the clock was moved at %v)", lit, got.In(time.Local), b, ref, at.In(time.Local))
	}
	c.Distinct("dst", lit, days, before-after, h)
}
