package lib

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/solarisdb/solaris/golibs/cast"
	"github.com/solarisdb/solaris/golibs/container"
	"github.com/solarisdb/solaris/golibs/strutil"
	"github.com/solarisdb/solaris/golibs/transport"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L12",
		Rule: "helpers: the helper functions of slices, maps, strings, pointers and network addresses are called with random arguments (with repetitions, empty ones, nils), the results are compared " +
			"with their definitions written in the harness; the arguments must not change unless the function is in place. Distinct by the arguments",
		MinEvents: []string{"slices", "maps", "strings", "addresses"},
		Scens: []fw.Scenario{
			{Name: "helpers", Quick: 16000, Thorough: 1500000, Run: l12Helpers},
		},
	})
}

func l12Helpers(c *fw.Case) {
	r := c.Rng
	ints := func() []int {
		if r.Intn(10) == 0 {
			return nil
		}
		s := make([]int, r.Intn(8))
		for i := range s {
			s[i] = r.Intn(6)
		}
		return s
	}
	set := func(ss ...[]int) map[int]bool {
		m := map[int]bool{}
		for _, s := range ss {
			for _, v := range s {
				m[v] = true
			}
		}
		return m
	}
	sorted := func(s []int) []int {
		s = append([]int{}, s...)
		sort.Ints(s)
		return s
	}
	setOf := func(m map[int]bool) []int {
		s := []int{}
		for v := range m {
			s = append(s, v)
		}
		return sorted(s)
	}
	eq := func(sig string, want, got any, args ...any) {
		c.Eval(1)
		if !reflect.DeepEqual(want, got) {
			c.Fail(sig, "%s of %v is %v, expected %v", sig, args, got, want)
		}
	}
	a, b := ints(), ints()
	a0, b0 := append([]int(nil), a...), append([]int(nil), b...)
	kept := func(sig string) {
		eq(sig+"-arguments", fmt.Sprint(a0, b0), fmt.Sprint(a, b), a0, b0)
	}
	sa, sb := set(a), set(b)
	minus := func(x, y map[int]bool) map[int]bool {
		m := map[int]bool{}
		for v := range x {
			if !y[v] {
				m[v] = true
			}
		}
		return m
	}
	v := r.Intn(7)
	idx := -1
	for i := range a {
		if a[i] == v {
			idx = i
			break
		}
	}
	eq("IndexOf", idx, container.IndexOf(a, v), a, v)
	eq("IndexOfAny", idx, container.IndexOfAny(a, v, func(x, y int) bool { return x == y }), a, v)
	eq("MergeSlicesUnique", setOf(set(a, b)), sorted(container.MergeSlicesUnique(a, b)), a, b)
	u1, u2 := container.SliceExcludeOverlaps(a, b)
	eq("SliceExcludeOverlaps1", setOf(minus(sa, sb)), sorted(u1), a, b)
	eq("SliceExcludeOverlaps2", setOf(minus(sb, sa)), setOf(set(u2)), a, b)
	u1, u2 = container.SliceExludeUniqueS2(a, b)
	eq("SliceExludeUniqueS2-1", setOf(minus(sa, sb)), sorted(u1), a, b)
	eq("SliceExludeUniqueS2-2", setOf(minus(sa, minus(sa, sb))), setOf(set(u2)), a, b)
	cp := container.SliceCopy(a)
	eq("SliceCopy", fmt.Sprint(a), fmt.Sprint(cp), a)
	if len(cp) > 0 {
		cp[0]++
	}
	kept("slices")
	rv := []int{}
	for i := len(a) - 1; i >= 0; i-- {
		rv = append(rv, a[i])
	}
	eq("SliceReverse", rv, append([]int{}, container.SliceReverse(a)...), a0)
	eq("SliceReverse-in-place", fmt.Sprint(rv), fmt.Sprint(a), a0)
	if len(b) > 0 {
		i := r.Intn(len(b))
		want := append(append([]int{}, b[:i]...), b[i+1:]...)
		eq("SliceRemoveIdx", sorted(want), sorted(container.SliceRemoveIdx(b, i)), b0, i)
	}
	f := make([]int, r.Intn(3)*60+r.Intn(60))
	for i := range f {
		f[i] = r.Intn(3)
	}
	n := r.Intn(len(f) + 1)
	rest := append([]int(nil), f[n:]...)
	container.SliceFill(f[:n], 7)
	for i := range f {
		if (i < n) != (f[i] == 7) || (i >= n && f[i] != rest[i-n]) {
			c.Fail("SliceFill", "filling %d of %d: wrong value by %d", n, len(f), i)
			break
		}
	}
	c.Count("slices", 1)

	var m map[int]string
	if r.Intn(8) > 0 {
		m = map[int]string{}
		for i := r.Intn(5); i > 0; i-- {
			m[r.Intn(9)] = fmt.Sprint(r.Intn(3))
		}
	}
	eq("CopyMap", m, container.CopyMap(m), m)
	m2 := container.CopyMap(m)
	if m2 != nil {
		m2[100] = "x"
		eq("CopyMap-shared", false, m[100] == "x", m)
	}
	ks := container.Keys(m)
	eq("Keys", len(m), len(set(ks)), m)
	eq("Keys-len", len(m), len(ks), m)
	vs := container.Values(m)
	var wv []string
	for k, v := range m {
		wv = append(wv, v)
		if !set(ks)[k] {
			c.Fail("Keys", "no key %d in %v", k, ks)
		}
	}
	sort.Strings(wv)
	sort.Strings(vs)
	eq("Values", fmt.Sprint(wv), fmt.Sprint(vs), m)
	k, fv, ok := container.GetFirst(m)
	if w, in := m[k]; ok != (len(m) > 0) || (ok && (!in || w != fv)) {
		c.Fail("GetFirst", "the first element of %v is %v %v %t", m, k, fv, ok)
	}
	c.Count("maps", 1)

	ln := []int{0, 1, r.Intn(64), 64, 65, 200}[r.Intn(6)]
	s := strutil.GetRandomString(ln, "ab1")
	if len(s) != ln || strings.Trim(s, "ab1") != "" {
		c.Fail("GetRandomString", "wrong random string of %d: %q", ln, s)
	}
	if s = strutil.RandomString(ln); len(s) != ln || !utf8.ValidString(s) {
		c.Fail("RandomString", "wrong random string of %d: %q", ln, s)
	}
	if ln >= 64 && s == strutil.RandomString(ln) {
		c.Fail("RandomString", "the same random string %q", s)
	}
	var ss []string
	for i := r.Intn(7); i > 0; i-- {
		ss = append(ss, oneOf(r, []string{"", "a", "b", "c", "d"}))
	}
	var dd []string
	for _, x := range ss {
		if container.IndexOf(dd, x) < 0 {
			dd = append(dd, x)
		}
	}
	eq("RemoveDups", fmt.Sprintf("%q", dd), fmt.Sprintf("%q", strutil.RemoveDups(append([]string(nil), ss...))), ss)
	sw := append([]string(nil), ss...)
	for i := 0; i+1 < len(sw); i += 2 {
		sw[i], sw[i+1] = sw[i+1], sw[i]
	}
	eq("SwapEvenOdd", fmt.Sprintf("%q", sw), fmt.Sprintf("%q", strutil.SwapEvenOdd(append([]string(nil), ss...))), ss)
	t := strings.Repeat("x", r.Intn(20))
	mx := 3 + r.Intn(15)
	tr := strutil.TruncateWithEllipses(t, mx)
	if len(t) <= mx && tr != t || len(t) > mx && (len(tr) != mx || tr != t[:mx-3]+"...") {
		c.Fail("TruncateWithEllipses", "%q is truncated to %d as %q", t, mx, tr)
	}
	by := rndBytes(r)
	if str := cast.ByteArrayToString(by); str != string(by) {
		c.Fail("ByteArrayToString", "%x is converted to %x", by, str)
	} else if back := cast.StringToByteArray(str); string(back) != string(by) || cap(back) != len(by) {
		c.Fail("StringToByteArray", "%x is converted to %x, the capacity is %d", by, back, cap(back))
	}
	var ip *int
	if r.Intn(2) == 0 {
		ip = cast.Ptr(v)
		eq("Value", v, cast.Value(ip, -1))
		eq("Int", v, cast.Int(ip, -1))
	} else {
		eq("Value-nil", -1, cast.Value(ip, -1))
	}
	c.Count("strings", 1)

	cfg := transport.Config{Address: oneOf(r, []string{"", "localhost", "127.0.0.1", "[::1]", "a.b.c", "::"}), Port: r.Intn(65536)}
	back, err := transport.ScanAddr(cfg.Addr())
	if err != nil || back != cfg {
		c.Fail("ScanAddr", "the address %+v is %q, it is scanned to %+v %v", cfg, cfg.Addr(), back, err)
	}
	if _, err := transport.ScanAddr(cfg.Address + ":" + oneOf(r, []string{"", "x", "1x", "99999999999", "-", " 1"})); err == nil {
		c.Fail("ScanAddr-wrong", "a wrong port of %q is accepted", cfg.Address)
	}
	o := transport.Config{Address: oneOf(r, []string{"", "x"}), Port: oneOf(r, []int{0, 7}), Network: oneOf(r, []string{"", "tcp4"})}
	got := cfg
	got.Apply(&o)
	got.Apply(nil)
	want := transport.Config{Network: cast.Value(nonZero(o.Network), cfg.Network), Address: cast.Value(nonZero(o.Address), cfg.Address), Port: cast.Value(nonZero(o.Port), cfg.Port)}
	eq("Apply", want, got, cfg, o)
	c.Count("addresses", 1)
	c.Distinct(a0, b0)
}

func nonZero[T comparable](v T) *T {
	if v == *new(T) {
		return nil
	}
	return &v
}
