package lib

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/strutil"
	"github.com/solarisdb/solaris/golibs/xbinary"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L05",
		Rule: "values: random sequences of values of all the kinds are written to a stream and marshalled to a buffer, the bytes and the reported sizes must be the same and decode to the same " +
			"values; a too short buffer is refused and nothing is written behind it. hostile: mutated and random bytes are decoded: no panic, no reading behind the buffer, " +
			"a number which doesn't fit is refused (against encoding/binary). hash: hashes survive their text form and don't change with the buffers. embed: objects " +
			"put into errors are found there after wrapping and gRPC. Distinct by the kinds of values, sizes and outcomes",
		MinEvents: []string{"round-trips", "refused", "hostile-ok", "hostile-refused", "hashes", "embedded"},
		Scens: []fw.Scenario{
			{Name: "values", Quick: 4000, Thorough: 300000, Run: l05Values},
			{Name: "hostile", Quick: 40000, Thorough: 4000000, Run: l05Hostile},
			{Name: "hash", Quick: 2000, Thorough: 50000, Run: l05Hash},
			{Name: "embed", Quick: 4000, Thorough: 100000, Run: l05Embed},
		},
	})
}

// rndUint gives numbers of all lengths, the border ones are frequent
func rndUint(r *rand.Rand) uint64 {
	v := r.Uint64() >> uint(r.Intn(64))
	switch r.Intn(4) {
	case 0:
		v = 1 << uint(r.Intn(64))
	case 1:
		v = 1<<uint(r.Intn(64)) - 1
	case 2:
		if r.Intn(10) == 0 {
			v = math.MaxUint64
		}
	}
	return v
}

func rndBytes(r *rand.Rand) []byte {
	n := []int{0, 1, r.Intn(20), 126 + r.Intn(4), r.Intn(400)}[r.Intn(5)]
	if r.Intn(300) == 0 {
		n = 16382 + r.Intn(4)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

type codecVal struct {
	kind int
	u    uint64
	b    []byte
}

var codecKinds = []string{"byte", "uint16", "uint32", "uint64", "uint", "bytes", "string"}

func (v codecVal) String() string { return fmt.Sprintf("%s(%d,%x)", codecKinds[v.kind], v.u, v.b) }

func (v codecVal) size() int {
	switch v.kind {
	case 4:
		return xbinary.WritableUintSize(v.u)
	case 5:
		return xbinary.WritebleBytesSize(v.b)
	case 6:
		return xbinary.WritableStringSize(string(v.b))
	}
	return []int{1, 2, 4, 8}[v.kind]
}

func (v codecVal) marshal(buf []byte) (int, error) {
	switch v.kind {
	case 0:
		return xbinary.MarshalByte(byte(v.u), buf)
	case 1:
		return xbinary.MarshalUint16(uint16(v.u), buf)
	case 2:
		return xbinary.MarshalUint32(uint32(v.u), buf)
	case 3:
		return xbinary.MarshalUint64(v.u, buf)
	case 4:
		return xbinary.MarshalUint(uint(v.u), buf)
	case 5:
		return xbinary.MarshalBytes(v.b, buf)
	}
	return xbinary.MarshalString(string(v.b), buf)
}

func (v codecVal) write(ow *xbinary.ObjectsWriter) (int, error) {
	switch v.kind {
	case 0:
		return ow.WriteByte(byte(v.u))
	case 1:
		return ow.WriteUint16(uint16(v.u))
	case 2:
		return ow.WriteUint32(uint32(v.u))
	case 3:
		return ow.WriteUint64(v.u)
	case 4:
		return ow.WriteUint(uint(v.u))
	case 5:
		return ow.WriteBytes(v.b)
	}
	return ow.WriteString(string(v.b))
}

func unmarshal(kind int, buf []byte, newBuf bool) (n int, v codecVal, err error) {
	v.kind = kind
	switch kind {
	case 0:
		var x byte
		n, x, err = xbinary.UnmarshalByte(buf)
		v.u = uint64(x)
	case 1:
		var x uint16
		n, x, err = xbinary.UnmarshalUint16(buf)
		v.u = uint64(x)
	case 2:
		var x uint32
		n, x, err = xbinary.UnmarshalUint32(buf)
		v.u = uint64(x)
	case 3:
		n, v.u, err = xbinary.UnmarshalUint64(buf)
	case 4:
		var x uint
		n, x, err = xbinary.UnmarshalUint(buf)
		v.u = uint64(x)
	case 5:
		n, v.b, err = xbinary.UnmarshalBytes(buf, newBuf)
	default:
		var s string
		n, s, err = xbinary.UnmarshalString(buf, newBuf)
		v.b = []byte(s)
	}
	return
}

func rndVal(r *rand.Rand) codecVal {
	v := codecVal{kind: r.Intn(len(codecKinds))}
	if v.kind < 5 {
		v.u = rndUint(r)
		if v.kind < 3 {
			v.u &= 1<<uint(8<<v.kind) - 1
		}
	} else {
		v.b = rndBytes(r)
	}
	return v
}

func l05Values(c *fw.Case) {
	var vals []codecVal
	total := 0
	for n := 1 + c.Rng.Intn(12); n > 0; n-- {
		v := rndVal(c.Rng)
		vals = append(vals, v)
		total += v.size()
	}
	const guard = 0xA5
	buf := bytes.Repeat([]byte{guard}, total+16)
	var stream bytes.Buffer
	ow := &xbinary.ObjectsWriter{Writer: &stream}
	pos := 0
	for _, v := range vals {
		c.Eval(1)
		sz := v.size()
		// a short buffer
		if sz > 0 {
			short := bytes.Repeat([]byte{guard}, sz+8)
			l := c.Rng.Intn(sz)
			if n, err := v.marshal(short[:l]); err == nil || n != 0 {
				c.Fatal("short-accepted", "%v is marshalled to the buffer of %d bytes, it needs %d: %d, %v", v, l, sz, n, err)
			}
			if !bytes.Equal(short[l:], bytes.Repeat([]byte{guard}, sz+8-l)) {
				c.Fatal("overrun", "%v: bytes behind the buffer of %d bytes are changed", v, l)
			}
			c.Count("refused", 1)
		}
		end := pos + sz
		if c.Rng.Intn(2) == 0 {
			end = total
		}
		n, err := v.marshal(buf[pos:end:end])
		if err != nil || n != sz {
			c.Fatal("wrong-size", "%v of size %d is marshalled: %d, %v", v, sz, n, err)
		}
		before := stream.Len()
		n, err = v.write(ow)
		if err != nil || n != sz || stream.Len()-before != sz {
			c.Fatal("wrong-size", "%v of size %d is written: %d, %v (%d bytes in fact)", v, sz, n, err, stream.Len()-before)
		}
		pos += sz
	}
	if !bytes.Equal(stream.Bytes(), buf[:total]) {
		c.Fatal("stream-differs", "the same values are written as %x and marshalled as %x", stream.Bytes(), buf[:total])
	}
	for i := total; i < len(buf); i++ {
		if buf[i] != guard {
			c.Fatal("overrun", "bytes behind the buffer are changed")
		}
	}
	pos = 0
	var kinds []int
	var copies []codecVal
	for _, v := range vals {
		if l := c.Rng.Intn(v.size()); true {
			if _, w, err := unmarshal(v.kind, buf[pos:pos+l:pos+l], true); err == nil {
				c.Fatal("short-accepted", "%v is decoded from %d bytes of %d: %v", v, l, v.size(), w)
			}
		}
		n, w, err := unmarshal(v.kind, buf[pos:total:total], true)
		if err != nil || n != v.size() || w.u != v.u || !bytes.Equal(w.b, v.b) {
			c.Fatal("not-equal", "%v is decoded as %v, %d bytes of %d, %v", v, w, n, v.size(), err)
		}
		if n, w, err = unmarshal(v.kind, buf[pos:total], false); err != nil || n != v.size() || w.u != v.u || !bytes.Equal(w.b, v.b) {
			c.Fatal("not-equal", "%v is decoded without copying as %v, %d bytes of %d, %v", v, w, n, v.size(), err)
		}
		_, w, _ = unmarshal(v.kind, buf[pos:], true)
		copies = append(copies, w)
		pos += n
		kinds = append(kinds, v.kind)
		c.Count("round-trips", 1)
	}
	for i := range buf {
		buf[i] = ^buf[i]
	}
	for i, w := range copies {
		if !bytes.Equal(w.b, vals[i].b) {
			c.Fatal("shared", "the decoded copy of %v is changed together with the buffer", vals[i])
		}
	}
	c.Distinct("values", fmt.Sprint(kinds), total)
}

func l05Hostile(c *fw.Case) {
	kind := c.Rng.Intn(len(codecKinds))
	var buf []byte
	switch c.Rng.Intn(4) {
	case 0: // a huge or overlong number
		for n := c.Rng.Intn(14); n > 0; n-- {
			buf = append(buf, 0x80|byte(c.Rng.Intn(256))&pick(c, byte(0), 0x7f, 0x01))
		}
		buf = append(buf, pick(c, byte(0), 1, 2, 3, 0x7f, byte(c.Rng.Intn(128))))
		buf = append(buf, rndBytes(c.Rng)...)
	case 1: // a length near to the size of the buffer or to the maximum
		b := rndBytes(c.Rng)
		l := pick(c, uint64(len(b))+1, uint64(len(b)), uint64(len(b))+9, math.MaxUint64, math.MaxInt64, 1<<63, math.MaxInt64-uint64(c.Rng.Intn(12)), math.MaxUint64-uint64(c.Rng.Intn(12)))
		buf = append(binary.AppendUvarint(nil, l), b...)
	case 2:
		v := rndVal(c.Rng)
		buf = make([]byte, v.size())
		v.marshal(buf)
		for i := 1 + c.Rng.Intn(3); i > 0 && len(buf) > 0; i-- {
			buf[c.Rng.Intn(min(len(buf), 12))] ^= 1 << uint(c.Rng.Intn(8))
		}
		buf = buf[:c.Rng.Intn(len(buf)+1)]
	default:
		buf = rndBytes(c.Rng)
	}
	buf = append([]byte{}, buf...) // cap is tight
	var n int
	var v codecVal
	var err error
	if pv, st := fw.Try(func() { n, v, err = unmarshal(kind, buf, c.Rng.Intn(2) == 0) }); pv != nil {
		c.Fatal("panic", "decoding of %s from %x panics: %v\n%s", codecKinds[kind], buf[:min(len(buf), 40)], pv, st)
	}
	c.Eval(1)
	if kind >= 4 {
		u, m := binary.Uvarint(buf)
		ok := m > 0
		wantN := m
		if kind > 4 && ok {
			ok = u <= uint64(len(buf)-m)
			wantN = m + int(u)
		}
		switch {
		case ok != (err == nil):
			c.Fatal("wrong-outcome", "decoding of %s from %x (%d bytes): %v, %d bytes, %v", codecKinds[kind], buf[:min(len(buf), 40)], len(buf), err, n, v)
		case ok && n != wantN || ok && kind == 4 && v.u != u || ok && kind > 4 && !bytes.Equal(v.b, buf[m:wantN]):
			c.Fatal("not-equal", "decoding of %s from %x: %d bytes, %v", codecKinds[kind], buf[:min(len(buf), 40)], n, v)
		}
	}
	if err == nil {
		c.Count("hostile-ok", 1)
		if n > len(buf) {
			c.Fatal("overrun", "decoding of %s from %d bytes takes %d", codecKinds[kind], len(buf), n)
		}
	} else {
		c.Count("hostile-refused", 1)
	}
	c.Distinct("hostile", kind, n, err == nil, len(buf))
}

func l05Hash(c *fw.Case) {
	buf := make([]byte, 32)
	c.Rng.Read(buf)
	if n := pick(c, 32, 32, 0, 31, 33, c.Rng.Intn(80)); n != 32 {
		if h, err := strutil.CreateHash(make([]byte, n)); err == nil {
			c.Fatal("hash-accepted", "a hash of %d bytes is created: %v", n, h)
		}
	}
	want := append([]byte{}, buf...)
	h, err := strutil.CreateHash(buf)
	fw.Must(err)
	text := h.String()
	c.Rng.Read(buf)
	if !bytes.Equal(h.Bytes(), want) || h.String() != text {
		c.Fatal("hash-shared", "the hash %x is changed together with the buffer it is created from", want)
	}
	h2, err := strutil.ParseHash(text)
	if err != nil || !bytes.Equal(h2.Bytes(), want) || h2.String() != text {
		c.Fatal("hash-text", "the hash %x is parsed from its text %q as %v, %v", want, text, h2, err)
	}
	d1, d2 := rndBytes(c.Rng), rndBytes(c.Rng)
	h1, err := strutil.NewSha256ForData(d1)
	fw.Must(err)
	h2, err = strutil.NewSha256ForData(d2)
	fw.Must(err)
	if (h1.String() == h2.String()) != bytes.Equal(d1, d2) {
		c.Fatal("hash-equal", "hashes of %x and %x: %v, %v", d1, d2, h1, h2)
	}
	s1, s2 := strutil.SumHashes(h1, h2, h), strutil.SumHashes(h1, h2, h)
	if s1.String() != s2.String() || len(s1.Bytes()) != 32 {
		c.Fatal("hash-sum", "sums of the same hashes: %v, %v", s1, s2)
	}
	if h1.String() != h2.String() && strutil.SumHashes(h2, h1, h).String() == s1.String() {
		c.Fatal("hash-sum", "sum of %v and %v doesn't depend on their order", h1, h2)
	}
	bad := []byte(text)
	bad[c.Rng.Intn(len(bad))] = "!+/ *\x00"[c.Rng.Intn(6)]
	if x, err := strutil.ParseHash(string(bad)); err == nil {
		c.Fatal("hash-accepted", "the text %q is parsed as a hash %v", bad, x)
	}
	c.Eval(1)
	c.Count("hashes", 1)
}

type embedded struct {
	A string
	B int
	C []byte         `json:",omitempty"`
	D map[string]int `json:",omitempty"`
}

var errClasses = []error{serrors.ErrExist, serrors.ErrNotExist, serrors.ErrInvalid, serrors.ErrNotAuthorized, serrors.ErrInternal, serrors.ErrDataLoss,
	serrors.ErrExhausted, serrors.ErrUnimplemented, serrors.ErrConflict, serrors.ErrCanceled}

func l05Embed(c *fw.Case) {
	words := []string{"", "a", "\x1bjson", "json", "\x1b", "ошибка", "%s%w", `{"A":"x"}`, "\n", "\"", "\\", "\xff"[:0]}
	text := func() string {
		var sb strings.Builder
		for i := c.Rng.Intn(4); i > 0; i-- {
			sb.WriteString(words[c.Rng.Intn(len(words))])
		}
		return sb.String()
	}
	o := embedded{A: text(), B: c.Rng.Intn(1000)}
	if c.Rng.Intn(2) == 0 {
		o.C = append([]byte("x"), rndBytes(c.Rng)...)
		o.D = map[string]int{text(): c.Rng.Intn(5), "k": 1}
	}
	class := errClasses[c.Rng.Intn(len(errClasses))]
	msg := strings.ReplaceAll(text(), "\x1b", "")
	base := fmt.Errorf("%s: %w", msg, class)
	err := serrors.EmbedObject(o, base)
	for i := c.Rng.Intn(3); i > 0; i-- {
		err = fmt.Errorf("more %d: %w", i, err)
	}
	if c.Rng.Intn(2) == 0 {
		err = serrors.GRPCWrap(err)
	} else if !errors.Is(err, class) {
		c.Fatal("class-lost", "the error %q with the object is not %v anymore", err, class)
	}
	var got embedded
	if !serrors.Is(err, class) {
		c.Fatal("class-lost", "the error %q with the object is not %v anymore", err, class)
	}
	if !serrors.ExtractObject(err, &got) || !reflect.DeepEqual(got, o) {
		c.Fatal("not-equal", "the object %+v is extracted from %q as %+v", o, err, got)
	}
	if serrors.ExtractObject(base, &got) || serrors.ExtractObject(nil, &got) {
		c.Fatal("not-equal", "an object is extracted from an error without it %q", base)
	}
	c.Eval(1)
	c.Count("embedded", 1)
	c.Distinct("embed", class, len(o.C) > 0)
}
