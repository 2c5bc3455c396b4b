package qlm

import (
	"bytes"
	"math/rand"
	"strings"
	"time"

	"github.com/solarisdb/solaris/golibs/datetime"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L14",
		Rule: "found: an instant is written in one of the known or of the custom formats by an independent writer (Go layouts written by hand) somewhere in a text of words; a parser of that format finds the " +
			"instant (to the precision of the format) and reports the format, an exact parser accepts the date alone only; first: parsers of several formats answer as the first of them which fits alone; " +
			"known: the exact parser of all the known formats knows every one of them; hostile: texts of date tokens and random bytes. The buffer is compared after the call and overwritten then: the " +
			"answer, its zone name included, must not change. distinct by the format and the place",
		Assumptions: []string{"zones without an offset are written as UTC or GMT only, year-less dates are never Feb 29, the century of two digits is the one of Go (1969-2068)"},
		MinEvents:   []string{"found", "exact-refused", "ordered", "known", "hostile-accepted", "hostile-refused", "overwritten", "custom", "no-date"},
		Scens: []fw.Scenario{
			{Name: "found", Quick: 16000, Thorough: 800000, Run: l14Found},
			{Name: "first", Quick: 6000, Thorough: 200000, Run: l14First},
			{Name: "known", Quick: 6000, Thorough: 200000, Run: l14Known},
			{Name: "hostile", Quick: 3000, Thorough: 100000, Run: l14Hostile},
		},
	})
}

type dfmt struct {
	f string
	tfmt
	text, exact dparser
	custom      bool
}

type dparser interface {
	Parse(buf []byte) (time.Time, *datetime.Format)
}

// the forms which must be known, in the order of the package, and the custom ones
var dfmts = func() (r []*dfmt) {
	for _, p := range [][2]string{
		{"MMM D, YYYY h:mm:ss P", "Jan 2, 2006 3:04:05 PM"}, {"DDD MMM _D HH:mm:ss YYYY", "Mon Jan _2 15:04:05 2006"},
		{"DDD MMM _D HH:mm:ss ZZZ YYYY", "Mon Jan _2 15:04:05 MST 2006"}, {"DDD MMM DD HH:mm:ss ZZZZ YYYY", "Mon Jan 02 15:04:05 -0700 2006"},
		{"DDDD, YY-MMM-DD HH:mm:ss ZZZ", "Monday, 06-Jan-02 15:04:05 MST"}, {"DDD, DD MMM YYYY HH:mm:ss ZZZ", "Mon, 02 Jan 2006 15:04:05 MST"},
		{"DDD, DD MMM YYYY HH:mm:ss ZZZZ", "Mon, 02 Jan 2006 15:04:05 -0700"}, {"DDD, D MMM YYYY HH:mm:ss ZZZZ", "Mon, 2 Jan 2006 15:04:05 -0700"},
		{"DD MMM YYYY, HH:mm", "02 Jan 2006, 15:04"}, {"YYYY-MMM-DD", "2006-Jan-02"}, {"DD MMMM YYYY", "02 January 2006"},
		{"DD/MM/YYYY HH:mm:ss.SSS", "02/01/2006 15:04:05.000"}, {"DD/MM/YYYY HH:mm:ss", "02/01/2006 15:04:05"}, {"D/MM/YYYY HH:mm:ss", "2/01/2006 15:04:05"},
		{"DD/M/YYYY HH:mm:ss", "02/1/2006 15:04:05"}, {"D/M/YYYY HH:mm:ss", "2/1/2006 15:04:05"}, {"D/M/YYYY hh:mm:ss P", "2/1/2006 03:04:05 PM"},
		{"DD/MM/YYYY HH:mm", "02/01/2006 15:04"}, {"D/M/YYYY HH:mm", "2/1/2006 15:04"}, {"D/M/YY HH:mm", "2/1/06 15:04"}, {"D/M/YYYY hh:mm P", "2/1/2006 03:04 PM"},
		{"D/M/YYYY h:mm P", "2/1/2006 3:04 PM"}, {"DD/MMM/YYYY:HH:mm:ss ZZZZ", "02/Jan/2006:15:04:05 -0700"}, {"DD/MM/YYYY", "02/01/2006"}, {"D/MM/YYYY", "2/01/2006"},
		{"DD/MM/YY", "02/01/06"}, {"D/M/YY", "2/1/06"},
		{"YYYY/MM/DD HH:mm:ss.SSS", "2006/01/02 15:04:05.000"}, {"YYYY/MM/DD HH:mm:ss", "2006/01/02 15:04:05"}, {"YYYY/MM/D HH:mm:ss", "2006/01/2 15:04:05"},
		{"YYYY/M/DD HH:mm:ss", "2006/1/02 15:04:05"}, {"YYYY/MM/DD HH:mm", "2006/01/02 15:04"}, {"YYYY/M/D HH:mm", "2006/1/2 15:04"}, {"YYYY/MM/DD", "2006/01/02"}, {"YYYY/M/DD", "2006/1/02"},
		{"YYYY-MM-DDTHH:mm:ss.SSSZZZZZ", "2006-01-02T15:04:05.000-07:00"}, {"YYYY-MM-DDTHH:mm:ss.SSSZZZZ", "2006-01-02T15:04:05.000-0700"}, {"YYYY-MM-DDTHH:mm:ss.SSSZ", "2006-01-02T15:04:05.000Z"},
		{"YYYY-MM-DDTHH:mm:ssZZZZZ", "2006-01-02T15:04:05-07:00"}, {"YYYY-MM-DDTHH:mm:ssZZZZ", "2006-01-02T15:04:05-0700"}, {"YYYY-MM-DDTHH:mm:ssZ", "2006-01-02T15:04:05Z"}, {"YYYY-MM-DDTHH:mm:ss", "2006-01-02T15:04:05"},
		{"YYYY-MM-DD HH:mm:ss.SSS ZZZZ ZZZ", "2006-01-02 15:04:05.000 -0700 MST"}, {"YYYY-MM-DD HH:mm:ss.SSS", "2006-01-02 15:04:05.000"}, {"YYYY-MM-DD HH:mm:ss ZZZZZ", "2006-01-02 15:04:05 -07:00"},
		{"YYYY-MM-DD HH:mm:ssZZZZZ", "2006-01-02 15:04:05-07:00"}, {"YYYY-MM-DD HH:mm:ss ZZZZ ZZZ", "2006-01-02 15:04:05 -0700 MST"}, {"YYYY-MM-DD HH:mm:ss ZZZZ", "2006-01-02 15:04:05 -0700"},
		{"YYYY-MM-DD HH:mm:ss ZZZ", "2006-01-02 15:04:05 MST"}, {"YYYY-MM-DD hh:mm:ss P", "2006-01-02 03:04:05 PM"}, {"YYYY-MM-DD HH:mm:ss", "2006-01-02 15:04:05"}, {"YYYY-MM-DD  HH:mm:ss", "2006-01-02  15:04:05"},
		{"YYYY-MM-DD HH:mm", "2006-01-02 15:04"}, {"YYYY-MM-DD", "2006-01-02"}, {"MM.DD.YYYY", "01.02.2006"}, {"MM.DD.YY", "01.02.06"},
		{"DDD MMM _D HH:mm:ss.SSS", "Mon Jan _2 15:04:05.000"}, {"DDD MMM DD HH:mm:ss.SSS", "Mon Jan 02 15:04:05.000"}, {"MMM DD HH:mm:ss", "Jan 02 15:04:05"}, {"MMM _D HH:mm:ss", "Jan _2 15:04:05"},
		{"", ""},
		{"HH:mm:ss", "15:04:05"}, {"h:m:s P", "3:4:5 PM"}, {"HH:mm:ss.SSS ZZZZ", "15:04:05.000 -0700"}, {"DDDD, D MMMM YYYY 'h:mm P'", "Monday, 2 January 2006 '3:04 PM'"}, {"YYYY.MM.DD-HH.mm.ss", "2006.01.02-15.04.05"},
		{"MMMM _D YYYY HH:m:s.SSS", "January _2 2006 15:4:5.000"}, {"MM YYYY", "01 2006"}, {"YYYY:M:D:hh:m:P", "2006:1:2:03:4:PM"},
	} {
		if p[0] != "" {
			x := &dfmt{f: p[0], tfmt: d(p[1]), text: datetime.NewParser(p[0]), exact: datetime.NewExactParser(p[0]), custom: len(r) >= 60}
			switch {
			case strings.Contains(p[1], "05.000"), strings.Contains(p[1], "5.000"):
				x.prec = time.Millisecond
			case p[0] == "MM YYYY":
				x.prec = 0
			case p[0] == "YYYY:M:D:hh:m:P", strings.HasPrefix(p[0], "DDDD, D MMMM"):
				x.prec = time.Minute
			case strings.Contains(p[0], "s"):
				x.prec = time.Second
			}
			if x.custom {
				x.zone = strings.Contains(p[0], "Z")
				x.kind = ""
				if !strings.Contains(p[0], "Y") {
					x.kind = "today"
				}
			}
			r = append(r, x)
		} else if len(r) != 60 {
			panic("60 known formats are expected")
		}
	}
	return
}()

// written gives a date in the format and the instants it may mean
func written(c *fw.Case, f *dfmt) (string, func(time.Time) bool) {
	r := c.Rng
	ref := time.Unix(r.Int63n(3155000000), r.Int63n(1e9)).UTC()
	if r.Intn(4) == 0 {
		ref = time.Date(1971+r.Intn(98), time.Month(1+r.Intn(12)), pick(c, 1, 2, 9, 10, 12, 13, 28), pick(c, 0, 1, 11, 12, 13, 23), pick(c, 0, 59, 30), pick(c, 0, 59, 1), pick(c, 0, 1000000, 999000000, 10000000), time.UTC)
	}
	if strings.Contains(f.layout, "2006") && r.Intn(6) == 0 {
		ref = ref.AddDate(pick(c, -900, -400, 300, 800), 0, 0)
	}
	if !strings.Contains(f.layout, "2006") && ref.Year() > 2068 {
		ref = ref.AddDate(-30, 0, 0)
	}
	if f.kind != "" {
		now := time.Now()
		ref = time.Date(now.Year(), time.Month(1+r.Intn(12)), 1+r.Intn(28), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), time.UTC)
		if now.Month() == 12 && now.Day() > 29 || now.Month() == 1 && now.Day() < 3 { // the year may turn over
			ref = time.Date(now.Year(), 6, 1+r.Intn(28), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), time.UTC)
		}
	}
	switch f.prec {
	case 0:
		ref = time.Date(ref.Year(), ref.Month(), 1, 0, 0, 0, 0, time.UTC)
	case 24 * time.Hour:
		ref = time.Date(ref.Year(), ref.Month(), ref.Day(), 0, 0, 0, 0, time.UTC)
	default:
		ref = time.Date(ref.Year(), ref.Month(), ref.Day(), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), time.UTC).Truncate(f.prec)
	}
	s := ref.Format(f.layout)
	if f.zone && !strings.Contains(f.layout, "MST") {
		z := time.FixedZone("", 60*(r.Intn(24*60)-12*60))
		if f.kind == "today" {
			ref = time.Date(ref.Year(), ref.Month(), ref.Day(), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), z)
		}
		s = ref.In(z).Format(f.layout)
	} else if strings.Contains(f.layout, "MST") && r.Intn(3) == 0 {
		s = strings.Replace(s, "UTC", "GMT", 1)
	}
	if f.prec == time.Millisecond && r.Intn(3) == 0 {
		if q := ref.Format(".000"); strings.Count(s, q) == 1 {
			s = strings.Replace(s, q, q+"000000"[:pick(c, 3, 6)], 1)
		}
	}
	if strings.Contains(f.layout, "PM") && r.Intn(3) == 0 {
		s = strings.NewReplacer(" AM", " am", " PM", " pm").Replace(s)
		if strings.Contains(s, "m") && !strings.Contains(f.layout, " PM") {
			s = ref.Format(f.layout)
		}
	}
	b := time.Now()
	return s, func(got time.Time) bool {
		switch f.kind {
		case "today":
			ok := false
			for _, n := range []time.Time{b, b.UTC(), time.Now(), time.Now().UTC()} {
				ok = ok || got.Equal(time.Date(n.Year(), n.Month(), n.Day(), ref.Hour(), ref.Minute(), ref.Second(), ref.Nanosecond(), ref.Location()))
			}
			return ok
		case "noyear":
			if ref.Month() > time.Now().Month() {
				return got.Equal(ref.AddDate(-1, 0, 0))
			}
			return got.Equal(ref)
		}
		return got.Equal(ref)
	}
}

// parse looks for a date by p and watches what happens to the text and the answer
func parse(c *fw.Case, p dparser, text string) (time.Time, *datetime.Format) {
	buf := []byte(text)
	tm, f := p.Parse(buf)
	c.Eval(1)
	if string(buf) != text {
		c.Fatal("text-changed", "the text %q is %q after the parsing", text, buf)
	}
	if f == nil && !tm.IsZero() {
		c.Fatal("time-without-format", "%q: %v, but no format", text, tm)
	}
	if f != nil {
		was := tm.String()
		copy(buf, bytes.Repeat([]byte("#"), len(buf)))
		if is := tm.String(); is != was {
			c.Fatal("answer-changed", "the answer %q for the text %q became %q after the caller had used its buffer again", was, text, is)
		}
		c.Count("overwritten", 1)
		tm2, err := f.Parse([]byte(text))
		if err != nil || !tm2.Equal(tm) && f.GetFormat() != "" && strings.ContainsAny(f.GetFormat(), "YD") {
			c.Fatal("format-differs", "the text %q is %v, but the reported format %q gives %v %v", text, tm, f.GetFormat(), tm2, err)
		}
	}
	return tm, f
}

func words(r *rand.Rand) string {
	w := []string{"error", "kernel:", "the (quick)", "fox;", "<info>", "q=x&y", "—", "名"}
	s := ""
	for n := r.Intn(4); n > 0; n-- {
		s += w[r.Intn(len(w))] + " "
	}
	return s
}

func l14Found(c *fw.Case) {
	f := dfmts[c.Rng.Intn(len(dfmts))]
	s, ok := written(c, f)
	pre, post := words(c.Rng), ""
	if c.Rng.Intn(3) == 0 {
		pre += pick(c, "[", "<", "\"", "(")
	}
	if c.Rng.Intn(3) > 0 {
		post = pick(c, "]", ";", " ", "\n", "\"") + words(c.Rng)
	}
	if strings.HasPrefix(f.layout, "_2") { // nothing
		pre = ""
	}
	text := pre + s + post
	p := f.text
	if c.Rng.Intn(2) == 0 && pre == "" && post == "" {
		p = f.exact
	}
	got, rf := parse(c, p, text)
	if rf == nil || !ok(got) {
		c.Fatal("not-found:"+f.f, "%q written as %q isn't found in %q: %v", s, f.f, text, got)
	}
	if rf.GetFormat() != f.f {
		c.Fatal("format", "the format is %q, it is reported as %q", f.f, rf.GetFormat())
	}
	c.Count("found", 1)
	if f.custom {
		c.Count("custom", 1)
	}
	if pre+post != "" && !(pre == "" && strings.Trim(post, "0123456789") == "") {
		if tm, rf := parse(c, f.exact, text); rf != nil {
			c.Fatal("exact", "the exact parser of %q takes %q as %v", f.f, text, tm)
		}
		c.Count("exact-refused", 1)
	}
	if tm, rf := parse(c, f.text, pre+post); rf != nil {
		c.Fatal("found-nothing", "%q is found in %q", tm, pre+post)
	}
	c.Count("no-date", 1)
	c.Distinct(f.f, len(pre), len(post))
	c.Sample("%q: %v", text, got)
}

// l14First checks that the first of the formats decides
func l14First(c *fw.Case) {
	var fs []*dfmt
	var names []string
	most := 6
	if c.Rng.Intn(6) == 0 {
		most = 30
	}
	for n := 1 + c.Rng.Intn(most); n > 0; n-- {
		f := dfmts[c.Rng.Intn(len(dfmts))]
		fs, names = append(fs, f), append(names, f.f)
	}
	src := fs[c.Rng.Intn(len(fs))]
	if c.Rng.Intn(4) == 0 {
		src = dfmts[c.Rng.Intn(len(dfmts))]
	}
	s, _ := written(c, src)
	text := words(c.Rng) + s
	var p dparser
	exact := c.Rng.Intn(4) == 0
	switch {
	case exact:
		text = s
		p = datetime.NewExactParser(names...)
	case c.Rng.Intn(6) == 0: // the known ones follow
		p = datetime.NewDefaultParser(names...)
		fs = append(fs, dfmts[:60]...)
	default:
		p = datetime.NewParser(names...)
	}
	// what was parsed before changes nothing
	for n := c.Rng.Intn(4); n > 0; n-- {
		t, _ := written(c, fs[c.Rng.Intn(len(fs))])
		p.Parse([]byte(t))
	}
	got, rf := parse(c, p, text)
	for _, f := range fs {
		q := f.text
		if exact {
			q = f.exact
		}
		want, wf := q.Parse([]byte(text))
		if wf == nil {
			continue
		}
		if rf == nil || rf.GetFormat() != f.f || !got.Equal(want) && f.kind == "" {
			c.Fatal("not-the-first", "the parser of %q finds %v in %q, the first format which fits is %q: %v", names, got, text, f.f, want)
		}
		c.Count("ordered", 1)
		c.Distinct(f.f, src.f)
		return
	}
	if rf != nil {
		c.Fatal("not-the-first", "the parser of %q finds %v by %q in %q, but none of them does alone", names, got, rf.GetFormat(), text)
	}
	c.Distinct("none", src.f)
}

var knownExact = datetime.NewExactParser(datetime.KnownFormats...)

func l14Known(c *fw.Case) {
	f := dfmts[c.Rng.Intn(60)]
	s, ok := written(c, f)
	got, rf := parse(c, knownExact, s)
	if rf == nil || !ok(got) {
		c.Fatal("unknown:"+f.f, "%q written as %q must be known, it is taken as %v", s, f.f, got)
	}
	if _, err := datetime.Parse([]byte("x " + s)); err != nil {
		c.Fatal("unknown:"+f.f, "%q written as %q is not found by Parse: %v", s, f.f, err)
	}
	c.Count("known", 1)
	c.Distinct(f.f)
}

func l14Hostile(c *fw.Case) {
	tok := []string{"2006", "1999", "12", "31", "1", "0", "99", "/", "-", ".", ":", " ", "T", "Z", "Jan", "Feb", "Monday", "Sun", "+0000", "-07:00", "+9999", "UTC", "XYZ", "PM", "am", ",", ".5", "\x00", "\xff", "名", "  "}
	s := ""
	if c.Rng.Intn(2) == 0 {
		s, _ = written(c, dfmts[c.Rng.Intn(len(dfmts))])
		b := []byte(s)
		for n := c.Rng.Intn(3); n > 0; n-- {
			b[c.Rng.Intn(len(b))] = pick(c, byte('0'), '9', '1', '3', ' ', '/', 'A', 'z', 0, 255)
		}
		s = string(b)
	} else {
		for n := c.Rng.Intn(20); n > 0; n-- {
			s += tok[c.Rng.Intn(len(tok))]
		}
	}
	var p dparser = knownExact
	if c.Rng.Intn(3) > 0 {
		p = dfmts[c.Rng.Intn(len(dfmts))].text
	}
	tm, f := parse(c, p, s)
	tm2, f2 := p.Parse([]byte(s))
	if (f == nil) != (f2 == nil) || f != nil && !tm.Equal(tm2) && strings.ContainsAny(f.GetFormat(), "YD") {
		c.Fatal("unstable", "%q is %v at first and %v then", s, tm, tm2)
	}
	if f != nil {
		c.Count("hostile-accepted", 1)
	} else {
		c.Count("hostile-refused", 1)
	}
	if _, err := datetime.Parse([]byte(s)); err == nil && f == nil && p == dparser(knownExact) {
		c.Count("part-of-a-date", 1)
	}
	c.Distinct(len(s), f != nil)
}
