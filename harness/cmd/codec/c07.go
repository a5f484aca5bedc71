package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

// XCase is a value for one of the scalar transform pairs.
type XCase struct {
	K    string
	I    int64
	U    uint64
	S    gen.Blob
	NS   uint32
	Zone int // minutes east of UTC
}

type myI32 int32
type myI64 int64
type myU64 uint64
type myStr string
type myBool bool
type myBytes []byte
type myF64 float64
type myU8 uint8

var xKinds = []string{"string", "int", "int64", "int32", "int16", "int8", "uint", "uint64", "uint32", "uint16", "uint8", "f64", "f32", "bytes", "bool", "time", "void", "g-int32", "g-int64", "g-uint64", "g-string"}

func genX(t *rapid.T) XCase {
	c := XCase{K: rapid.SampledFrom(xKinds).Draw(t, "kind")}
	switch c.K {
	case "string", "g-string", "bytes":
		c.S = gen.BlobOf(true).Draw(t, "s")
	case "time":
		c.I = rapid.OneOf(rapid.Int64Range(-62135596800+86400, 253402300799-86400), gen.Sec()).Draw(t, "sec")
		c.NS = gen.NSec().Draw(t, "ns")
		c.Zone = rapid.SampledFrom([]int{0, 0, 60, -300, 345, -690, 839, -720}).Draw(t, "zone")
	default:
		c.I, c.U = gen.I64().Draw(t, "i"), gen.U64().Draw(t, "u")
		if c.K == "f64" {
			c.U = gen.F64Bits().Draw(t, "f")
		}
		if c.K == "f32" {
			c.U = uint64(gen.F32Bits().Draw(t, "f"))
		}
	}
	return c
}

// pairOf builds, for one transform pair and value, the closures that encode
// the value and decode-and-compare.
func pair_[T any](v T, enc func(T) (payload.Payload, error), dec func(payload.Payload) (T, error), eq func(a, b T) bool) (func() (payload.Payload, error), func(payload.Payload) (bool, string, error)) {
	return func() (payload.Payload, error) { return enc(v) },
		func(p payload.Payload) (bool, string, error) {
			got, err := dec(p)
			if err != nil {
				return false, "", err
			}
			return eq(got, v), fmt.Sprintf("%v instead of %v", got, v), nil
		}
}

func same[T comparable](a, b T) bool { return a == b }

func (c XCase) pair() (func() (payload.Payload, error), func(payload.Payload) (bool, string, error)) {
	switch c.K {
	case "string":
		return pair_(string(c.S.Bytes()), transform.String.Encode, transform.String.Decode, same[string])
	case "g-string":
		return pair_(myStr(c.S.Bytes()), transform.StringEncode[myStr], transform.StringDecode[myStr], same[myStr])
	case "bytes":
		return pair_(c.S.Bytes(), transform.Bytes.Encode, transform.Bytes.Decode, bytes.Equal)
	case "int":
		return pair_(int(c.I), transform.Int.Encode, transform.Int.Decode, same[int])
	case "int64":
		return pair_(c.I, transform.Int64.Encode, transform.Int64.Decode, same[int64])
	case "int32":
		return pair_(int32(c.I), transform.Int32.Encode, transform.Int32.Decode, same[int32])
	case "int16":
		return pair_(int16(c.I), transform.Int16.Encode, transform.Int16.Decode, same[int16])
	case "int8":
		return pair_(int8(c.I), transform.Int8.Encode, transform.Int8.Decode, same[int8])
	case "uint":
		return pair_(uint(c.U), transform.Uint.Encode, transform.Uint.Decode, same[uint])
	case "uint64":
		return pair_(c.U, transform.Uint64.Encode, transform.Uint64.Decode, same[uint64])
	case "uint32":
		return pair_(uint32(c.U), transform.Uint32.Encode, transform.Uint32.Decode, same[uint32])
	case "uint16":
		return pair_(uint16(c.U), transform.Uint16.Encode, transform.Uint16.Decode, same[uint16])
	case "uint8":
		return pair_(uint8(c.U), transform.Uint8.Encode, transform.Uint8.Decode, same[uint8])
	case "g-int32":
		return pair_(myI32(c.I), transform.Int32Encode[myI32], transform.Int32Decode[myI32], same[myI32])
	case "g-int64":
		return pair_(myI64(c.I), transform.Int64Encode[myI64], transform.Int64Decode[myI64], same[myI64])
	case "g-uint64":
		return pair_(myU64(c.U), transform.Uint64Encode[myU64], transform.Uint64Decode[myU64], same[myU64])
	case "f64":
		return pair_(math.Float64frombits(c.U), transform.Float64.Encode, transform.Float64.Decode, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) })
	case "f32":
		return pair_(math.Float32frombits(uint32(c.U)), transform.Float32.Encode, transform.Float32.Decode, func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) })
	case "bool":
		return pair_(c.U&1 == 1, transform.Bool.Encode, transform.Bool.Decode, same[bool])
	case "time":
		return pair_(c.time(), transform.Time.Encode, transform.Time.Decode, func(a, b time.Time) bool { return a.Equal(b) })
	case "void":
		return pair_(struct{}{}, transform.Void.Encode, transform.Void.Decode, same[struct{}])
	}
	kit.Bug("unknown transform %q", c.K)
	return nil, nil
}

func (c XCase) time() time.Time {
	return time.Unix(c.I, int64(c.NS)).In(time.FixedZone("", c.Zone*60))
}

func (c XCase) nilOK() bool { return c.K == "bytes" } // a nil reads as an absent byte array

func checkX(ctx *kit.Ctx, c XCase) error {
	ctx.Label(c.K)
	enc, dec := c.pair()
	p, err := enc()
	if c.K == "time" {
		if y := c.time().Year(); y < 0 || y > 9999 {
			// Not representable in RFC 3339: an error, or the same instant.
			if err != nil {
				return nil
			}
			if ok, why, err := dec(p); err == nil && !ok {
				return fmt.Errorf("time %v survives as %s", c.time(), why)
			}
			return nil
		}
	}
	ctx.NonTrivialIf(c.K != "void")
	if err != nil {
		return fmt.Errorf("%s: encoding fails: %v", c.K, err)
	}
	ok, why, err := dec(p)
	if err != nil {
		return fmt.Errorf("%s: decoding its own encoding fails: %v", c.K, err)
	}
	if !ok {
		return fmt.Errorf("%s: decodes to %s", c.K, short(why))
	}
	if c.K == "void" {
		return nil
	}
	if _, used, err := mp.Parse(p.Data()); err != nil || used != len(p.Data()) {
		return fmt.Errorf("%s: payload %x is not one complete value: %v", c.K, clip(p.Data()), err)
	}
	// Truncated payloads are errors.
	d := p.Data()
	step := 1 + len(d)/64
	for n := 0; n < len(d); n += step {
		if _, _, err := dec(payload.New(d[:n:n])); err == nil {
			return fmt.Errorf("%s: decoding %d of %d bytes gives no error", c.K, n, len(d))
		}
	}
	return nil
}

// XBad: arbitrary bytes through a decoder: an error, or a value that the
// standard reading of the bytes supports.
type XBad struct {
	K    string
	Data []byte
}

func checkXBad(ctx *kit.Ctx, c XBad) error {
	ctx.Label(c.K)
	ctx.NonTrivialIf(len(c.Data) > 0)
	p := payload.New(c.Data)
	_, dec := XCase{K: c.K}.pair()
	_, _, err := dec(p)
	n, _, perr := mp.Parse(c.Data)
	if perr != nil && err == nil && c.K != "void" && n.Kind != mp.Arr {
		return fmt.Errorf("%s: decoding malformed bytes %x (%v) gives no error", c.K, clip(c.Data), perr)
	}
	if err != nil || perr != nil {
		return nil
	}
	// Decoded: a well-formed value of another kind must not be accepted.
	var kinds []mp.Kind
	switch c.K {
	case "void":
		return nil
	case "string", "g-string", "time":
		kinds = []mp.Kind{mp.Str, mp.Bin, mp.Arr}
	case "bytes":
		kinds = []mp.Kind{mp.Bin, mp.Str, mp.Arr, mp.Nil}
	case "f64", "f32":
		kinds = []mp.Kind{mp.F32, mp.F64}
	case "bool":
		kinds = []mp.Kind{mp.Bool}
	default:
		kinds = []mp.Kind{mp.Int}
	}
	for _, k := range kinds {
		if n.Kind == k {
			return nil
		}
	}
	return fmt.Errorf("%s: decoding a %s value (%x) gives no error", c.K, n.Kind, clip(c.Data))
}

// ---- structured values and lists

// Item is a generated-code style structure: a map keyed by field name.
type Item struct {
	Name string
	N    int64
	Opt  *int32
	Tags []string
	Fail bool
}

var errItem = errors.New("item refuses to encode")

func (i *Item) Encode(w msgpack.Writer) error {
	if i.Fail {
		return errItem
	}
	w.WriteMapSize(4)
	w.WriteString("name")
	w.WriteString(i.Name)
	w.WriteString("n")
	w.WriteInt64(i.N)
	w.WriteString("opt")
	w.WriteNillableInt32(i.Opt)
	w.WriteString("tags")
	w.WriteArraySize(uint32(len(i.Tags)))
	for _, t := range i.Tags {
		w.WriteString(t)
	}
	return nil
}

func (i *Item) Decode(r msgpack.Reader) error {
	n, err := r.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := r.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "name":
			i.Name, err = r.ReadString()
		case "n":
			i.N, err = r.ReadInt64()
		case "opt":
			i.Opt, err = r.ReadNillableInt32()
		case "tags":
			var c uint32
			if c, err = r.ReadArraySize(); err == nil {
				for ; c > 0; c-- {
					var s string
					if s, err = r.ReadString(); err != nil {
						break
					}
					i.Tags = append(i.Tags, s)
				}
			}
		default:
			err = r.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (i Item) canon() string {
	o := "nil"
	if i.Opt != nil {
		o = fmt.Sprint(*i.Opt)
	}
	return fmt.Sprintf("%q %d %s %q", i.Name, i.N, o, i.Tags)
}

type ItemsCase struct {
	Items []Item
	Cut   uint32
	Byte  byte
}

func genItem(t *rapid.T) Item {
	i := Item{
		Name: rapid.StringN(0, 40, 60).Draw(t, "name"),
		N:    gen.I64().Draw(t, "n"),
		Tags: rapid.SliceOfN(rapid.StringN(0, 3, 8), 0, 3).Draw(t, "tags"),
		Fail: rapid.IntRange(0, 24).Draw(t, "fail") == 0,
	}
	if rapid.Bool().Draw(t, "hasopt") {
		v := int32(gen.I64().Draw(t, "opt"))
		i.Opt = &v
	}
	return i
}

func genItems(t *rapid.T) ItemsCase {
	max := 4
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		max = 40
	}
	return ItemsCase{rapid.SliceOfN(rapid.Custom(genItem), 0, max).Draw(t, "items"), rapid.Uint32().Draw(t, "cut"), rapid.Byte().Draw(t, "byte")}
}

func checkItems(ctx *kit.Ctx, c ItemsCase) error {
	ctx.NonTrivialIf(len(c.Items) > 0)
	fail := false
	for i, it := range c.Items {
		if len(it.Tags) == 0 {
			c.Items[i].Tags = nil
		}
		fail = fail || it.Fail
		if i > 2 {
			continue
		}
		it := c.Items[i]
		p, err := transform.MsgPackEncode[Item](it)
		p2, err2 := transform.CodecEncode(&it)
		if it.Fail {
			ctx.Label("encode fails")
			if err == nil || err2 == nil {
				return fmt.Errorf("encoding a structured value whose Encode fails reports no error")
			}
			continue
		}
		if err != nil || err2 != nil {
			return fmt.Errorf("encoding a structured value fails: %v, %v", err, err2)
		}
		if !bytes.Equal(p.Data(), p2.Data()) {
			return fmt.Errorf("MsgPackEncode and CodecEncode disagree")
		}
		got, err := transform.MsgPackDecode[Item](p)
		if err != nil || got.canon() != it.canon() {
			return fmt.Errorf("structured value %s decodes to %s, %v", it.canon(), got.canon(), err)
		}
		var got2 Item
		if err := transform.CodecDecode(p, &got2); err != nil || got2.canon() != it.canon() {
			return fmt.Errorf("structured value %s decodes to %s, %v", it.canon(), got2.canon(), err)
		}
		for n := 0; n < len(p.Data()); n++ {
			if _, err := transform.MsgPackDecode[Item](payload.New(p.Data()[:n:n])); err == nil {
				return fmt.Errorf("decoding %d of the %d bytes of a structured value gives no error", n, len(p.Data()))
			}
		}
	}
	p, err := transform.SliceEncode[Item](c.Items)
	if fail {
		if err == nil {
			return fmt.Errorf("encoding a list with an element whose Encode fails reports no error")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("encoding a list of %d fails: %v", len(c.Items), err)
	}
	if _, used, err := mp.Parse(p.Data()); err != nil || used != len(p.Data()) {
		return fmt.Errorf("the payload of a list is not one complete value: %v", err)
	}
	cmp := func(got []Item) string {
		if len(got) != len(c.Items) {
			return fmt.Sprintf("%d elements instead of %d", len(got), len(c.Items))
		}
		for i := range got {
			if got[i].canon() != c.Items[i].canon() {
				return fmt.Sprintf("element %d is %s instead of %s", i, got[i].canon(), c.Items[i].canon())
			}
		}
		return ""
	}
	got, err := transform.SliceDecode[Item](p)
	if err != nil {
		return fmt.Errorf("decoding a list fails: %v", err)
	}
	if d := cmp(got); d != "" {
		return fmt.Errorf("list of %d: %s", len(c.Items), d)
	}
	// Truncated and corrupted lists.
	d := p.Data()
	step := 1 + len(d)/64
	for n := 0; n < len(d); n += step {
		if got, err := transform.SliceDecode[Item](payload.New(d[:n:n])); err == nil {
			return fmt.Errorf("decoding %d of the %d bytes of a list gives %d elements and no error", n, len(d), len(got))
		}
	}
	bad := append([]byte{}, d...)
	bad[int(c.Cut)%len(bad)] = c.Byte
	var n uint64
	alloc := kit.Alloc(func() { _, _ = transform.SliceDecode[Item](payload.New(bad)) })
	if alloc > uint64(64<<10+2048*len(bad)) {
		return fmt.Errorf("decoding %d corrupted bytes of a list allocates %d bytes", len(bad), alloc)
	}
	_ = n
	return nil
}

type HugeCase struct {
	N    uint32
	Rest []byte
}

// checkHuge: a list header announcing more elements than there are bytes.
func checkHuge(ctx *kit.Ctx, c HugeCase) error {
	ctx.NonTrivial()
	raw, _ := mp.AppendLen(nil, mp.Arr, int(c.N), 4)
	raw = append(raw, c.Rest...)
	var err error
	alloc := kit.Alloc(func() { _, err = transform.SliceDecode[Item](payload.New(raw)) })
	if alloc > uint64(64<<10+2048*len(raw)) {
		return fmt.Errorf("decoding a %d byte list announcing %d elements allocates %d bytes", len(raw), c.N, alloc)
	}
	if err == nil && int(c.N) > len(c.Rest) {
		return fmt.Errorf("decoding a list announcing %d elements in %d bytes gives no error", c.N, len(raw))
	}
	return nil
}

// ---- convert helpers

type ConvCase struct {
	I    int64
	U    uint64
	S    string
	Null bool
	Err  bool
	NS   uint32
	Zone int
}

func genConv(t *rapid.T) ConvCase {
	return ConvCase{
		I: gen.I64().Draw(t, "i"), U: gen.U64().Draw(t, "u"), S: rapid.StringN(0, 20, 60).Draw(t, "s"),
		Null: rapid.Bool().Draw(t, "null"), Err: rapid.IntRange(0, 3).Draw(t, "err") == 0,
		NS: gen.NSec().Draw(t, "ns"), Zone: rapid.SampledFrom([]int{0, 60, -300, 345}).Draw(t, "zone"),
	}
}

var errSrc = errors.New("source error")

// nconv checks a nillable conversion.
func nconv[I, T any](name string, c ConvCase, v I, f func(*I, error) (*T, error), eq func(T, I) bool) error {
	var in *I
	if !c.Null {
		in = &v
	}
	var src error
	if c.Err {
		in, src = nil, errSrc
	}
	got, err := f(in, src)
	switch {
	case c.Err:
		if !errors.Is(err, errSrc) {
			return fmt.Errorf("%s: source error not propagated (got %v, %v)", name, got, err)
		}
	case err != nil:
		return fmt.Errorf("%s: unexpected error %v", name, err)
	case c.Null:
		if got != nil {
			return fmt.Errorf("%s: absent value becomes %v", name, *got)
		}
	case got == nil || !eq(*got, v):
		return fmt.Errorf("%s: %v becomes %v", name, v, got)
	}
	return nil
}

func conv[I, T any](name string, c ConvCase, v I, f func(I, error) (T, error), eq func(T, I) bool) error {
	var src error
	if c.Err {
		src = errSrc
	}
	got, err := f(v, src)
	if c.Err {
		if !errors.Is(err, errSrc) {
			return fmt.Errorf("%s: source error not propagated (%v)", name, err)
		}
		return nil
	}
	if err != nil || !eq(got, v) {
		return fmt.Errorf("%s: %v becomes %v, %v", name, v, got, err)
	}
	return nil
}

func checkConv(ctx *kit.Ctx, c ConvCase) error {
	ctx.NonTrivial()
	if c.Null {
		ctx.Label("absent")
	}
	if c.Err {
		ctx.Label("source error")
	}
	f := float64(c.I) / 16
	b := c.U&1 == 1
	errs := []error{
		conv("String", c, c.S, convert.String[myStr], func(a myStr, b string) bool { return string(a) == b }),
		nconv("NillableString", c, c.S, convert.NillableString[myStr], func(a myStr, b string) bool { return string(a) == b }),
		conv("Bool", c, b, convert.Bool[myBool], func(a myBool, b bool) bool { return bool(a) == b }),
		nconv("NillableBool", c, b, convert.NillableBool[myBool], func(a myBool, b bool) bool { return bool(a) == b }),
		conv("Numeric int32", c, int32(c.I), convert.Numeric[myI32, int32], func(a myI32, b int32) bool { return int32(a) == b }),
		nconv("NillableNumeric int32", c, int32(c.I), convert.NillableNumeric[myI32, int32], func(a myI32, b int32) bool { return int32(a) == b }),
		conv("Numeric int64", c, c.I, convert.Numeric[myI64, int64], func(a myI64, b int64) bool { return int64(a) == b }),
		nconv("NillableNumeric int64", c, c.I, convert.NillableNumeric[myI64, int64], func(a myI64, b int64) bool { return int64(a) == b }),
		conv("Numeric uint64", c, c.U, convert.Numeric[myU64, uint64], func(a myU64, b uint64) bool { return uint64(a) == b }),
		nconv("NillableNumeric uint64", c, c.U, convert.NillableNumeric[myU64, uint64], func(a myU64, b uint64) bool { return uint64(a) == b }),
		conv("Numeric uint8", c, uint8(c.U), convert.Numeric[myU8, uint8], func(a myU8, b uint8) bool { return uint8(a) == b }),
		nconv("NillableNumeric uint8", c, uint8(c.U), convert.NillableNumeric[myU8, uint8], func(a myU8, b uint8) bool { return uint8(a) == b }),
		conv("Numeric float64", c, f, convert.Numeric[myF64, float64], func(a myF64, b float64) bool { return float64(a) == b }),
		nconv("NillableNumeric float64", c, f, convert.NillableNumeric[myF64, float64], func(a myF64, b float64) bool { return float64(a) == b }),
		conv("ByteArray", c, []byte(c.S), convert.ByteArray[myBytes, []byte], func(a myBytes, b []byte) bool { return bytes.Equal(a, b) }),
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	// Times as strings.
	sec := c.I % 60000000000
	tm := time.Unix(sec, int64(c.NS)).In(time.FixedZone("", c.Zone*60))
	if y := tm.Year(); y >= 0 && y <= 9999 {
		s := convert.TimeToString(tm)
		if err := conv("StringToTime", c, s, convert.StringToTime, func(a time.Time, _ string) bool { return a.Equal(tm) }); err != nil {
			return err
		}
		sp := convert.TimeToStringPtr(nilOr(c.Null, tm))
		if (sp == nil) != c.Null || (sp != nil && *sp != s) {
			return fmt.Errorf("TimeToStringPtr gives %v", sp)
		}
		if err := nconv("StringToTimePtr", c, s, convert.StringToTimePtr, func(a time.Time, _ string) bool { return a.Equal(tm) }); err != nil {
			return err
		}
		bad := s + "x"
		if _, err := convert.StringToTime(bad, nil); err == nil {
			return fmt.Errorf("StringToTime(%q) gives no error", bad)
		}
		if _, err := convert.StringToTimePtr(&bad, nil); err == nil {
			return fmt.Errorf("StringToTimePtr(%q) gives no error", bad)
		}
	}
	// Format / Parse / NillableParse with a caller's functions.
	format := convert.Format(func(v *int64) string { return fmt.Sprint(*v) })
	parseFn := func(s string) (int64, error) {
		var v int64
		_, err := fmt.Sscan(s, &v)
		return v, err
	}
	str := format(nilOr(c.Null, c.I))
	if (str == nil) != c.Null || (str != nil && *str != fmt.Sprint(c.I)) {
		return fmt.Errorf("Format gives %v", str)
	}
	if err := nconv("NillableParse", c, fmt.Sprint(c.I), convert.NillableParse(parseFn), func(a int64, _ string) bool { return a == c.I }); err != nil {
		return err
	}
	if err := conv("Parse", c, fmt.Sprint(c.I), convert.Parse(parseFn), func(a int64, _ string) bool { return a == c.I }); err != nil {
		return err
	}
	bad := "?"
	if _, err := convert.Parse(parseFn)(bad, nil); err == nil {
		return fmt.Errorf("Parse swallows a parse error")
	}
	if v, err := convert.NillableParse(parseFn)(&bad, nil); err == nil || v != nil {
		return fmt.Errorf("NillableParse swallows a parse error (%v, %v)", v, err)
	}
	return nil
}

// ---- interface handles

type HandleCase struct{ Vals []string }

func checkHandles(ctx *kit.Ctx, c HandleCase) error {
	ctx.NonTrivialIf(len(c.Vals) > 0)
	tr := invoke.NewLiveInstances[*string]()
	enc := transform.InterfaceEncode(tr)
	seen := map[uint64]bool{}
	var hs []uint64
	for i := range c.Vals {
		p, err := enc(&c.Vals[i])
		if err != nil {
			return err
		}
		h, err := transform.Uint64.Decode(p)
		if err != nil {
			return fmt.Errorf("handle payload does not decode: %v", err)
		}
		if seen[h] {
			return fmt.Errorf("handle %d issued twice", h)
		}
		seen[h] = true
		hs = append(hs, h)
	}
	for i, h := range hs {
		v, ok := tr.Get(h)
		if !ok || v != &c.Vals[i] {
			return fmt.Errorf("handle %d resolves to another instance", i)
		}
	}
	return nil
}

var C07 = &kit.Property{
	ID:   "C07",
	Rule: "a case is a value pushed through one conversion pair and its truncations, a list of structured values, arbitrary bytes through a decoder, or a (possibly absent, possibly failed) input to the convert helpers; non-trivial when the value or input is non-empty",
	Assumptions: []string{
		"textual timestamps: years 0..9999 and whole-minute zone offsets (RFC 3339's range)",
	},
	Facets: []kit.Facet{
		kit.F("scalars", 60000, 400000, genX, checkX).WithBatch(3000),
		kit.F("bad-bytes", 60000, 400000, func(t *rapid.T) XBad {
			b := genData(t)
			if len(b) > 3000 {
				b = b[:3000]
			}
			return XBad{rapid.SampledFrom(xKinds).Draw(t, "k"), b}
		}, checkXBad).WithBatch(6000),
		kit.F("structures", 15000, 80000, genItems, checkItems).WithBatch(750),
		kit.F("announced", 1800, 4000, func(t *rapid.T) HugeCase {
			return HugeCase{uint32(gen.U64().Draw(t, "n")), rapid.SliceOfN(rapid.SampledFrom([]byte{0x80, 0xc0, 0x81, 0x00}), 0, 20).Draw(t, "rest")}
		}, checkHuge).WithBatch(450),
		kit.F("convert", 24000, 100000, genConv, checkConv).WithBatch(3000),
		kit.F("handles", 1800, 5000, func(t *rapid.T) HandleCase {
			return HandleCase{rapid.SliceOfN(rapid.StringN(0, 3, 8), 0, 20).Draw(t, "v")}
		}, checkHandles).WithBatch(900),
	},
}
