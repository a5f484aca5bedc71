package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

// Rec is a structured value: a codec that writes a map of its fields.
type Rec struct {
	Ops  []Op
	Sub  *Rec `json:",omitempty"`
	Fail int  `json:",omitempty"` // 1: Encode returns an error
}

var errRec = errors.New("record refuses to encode")

func (r *Rec) Decode(d msgpack.Reader) error {
	for i, o := range r.Ops {
		got, err := o.read(d)
		if err != nil {
			return err
		}
		if got != o.expect() {
			return fmt.Errorf("field %d: got %s want %s", i, short(got), short(o.expect()))
		}
	}
	if r.Sub != nil {
		return r.Sub.Decode(d)
	}
	return nil
}

func (r *Rec) Encode(w msgpack.Writer) error {
	writeAll(w, r.Ops)
	if r.Fail == 1 {
		return errRec
	}
	if r.Sub != nil {
		w.WriteAny(r.Sub)
	}
	return w.Err()
}

func (r *Rec) all() []Op {
	out := append([]Op{}, r.Ops...)
	if r.Sub != nil {
		out = append(out, r.Sub.all()...)
	}
	return out
}

func (r *Rec) fails() bool { return r.Fail != 0 || (r.Sub != nil && r.Sub.fails()) }

type SizeCase struct {
	Ops []Op
	Cut uint32 // selects the short buffer
}

func genSize(big bool) func(t *rapid.T) SizeCase {
	g := genOps(8, big)
	return func(t *rapid.T) SizeCase { return SizeCase{g(t), rapid.Uint32().Draw(t, "cut")} }
}

func checkSize(ctx *kit.Ctx, c SizeCase) error {
	enc, err := encodeRef(c.Ops)
	if err != nil {
		return err
	}
	for _, o := range c.Ops {
		ctx.Label(o.K)
	}
	ctx.NonTrivialIf(len(enc) > 1)
	s := msgpack.NewSizer()
	writeAll(&s, c.Ops)
	if s.Err() != nil {
		return fmt.Errorf("sizing pass reports %v", s.Err())
	}
	if int(s.Len()) != len(enc) {
		return fmt.Errorf("sizing pass predicts %d bytes, the encoding takes %d: %s", s.Len(), len(enc), briefAll(c.Ops))
	}
	exact := make([]byte, len(enc))
	e := msgpack.NewEncoder(exact)
	writeAll(&e, c.Ops)
	if e.Err() != nil {
		return fmt.Errorf("encoding into an exactly sized buffer reports %v", e.Err())
	}
	if !bytes.Equal(exact, enc) {
		return fmt.Errorf("encoding into an exactly sized buffer gives different bytes")
	}
	// Shorter buffers: all of them when few, else a sample.
	try := func(n int) error {
		back := bytes.Repeat([]byte{0x5A}, len(enc)+16)
		e := msgpack.NewEncoder(back[:n])
		writeAll(&e, c.Ops)
		if e.Err() == nil {
			return fmt.Errorf("encoding %d bytes into a buffer of %d reports no error: %s", len(enc), n, briefAll(c.Ops))
		}
		for i := n; i < len(back); i++ {
			if back[i] != 0x5A {
				return fmt.Errorf("encoding into a buffer of %d wrote outside it at %d", n, i)
			}
		}
		return nil
	}
	if len(enc) <= 64 {
		for n := 0; n < len(enc); n++ {
			if err := try(n); err != nil {
				return err
			}
		}
		return nil
	}
	for i := 0; i < 12; i++ {
		if err := try(int((c.Cut*uint32(i*i+1) + uint32(i)) % uint32(len(enc)))); err != nil {
			return err
		}
	}
	return try(len(enc) - 1)
}

func briefAll(ops []Op) string {
	s := ""
	for i, o := range ops {
		if i == 8 {
			return s + "..."
		}
		s += brief(o)
	}
	return s
}

func genRec(depth int) *rapid.Generator[Rec] {
	return rapid.Custom(func(t *rapid.T) Rec {
		r := Rec{Ops: rapid.SliceOfN(genOp(false), 0, 4).Draw(t, "fields")}
		if depth > 0 && rapid.Bool().Draw(t, "sub") {
			s := genRec(depth-1).Draw(t, "nested")
			r.Sub = &s
		}
		if rapid.IntRange(0, 7).Draw(t, "fail") == 0 {
			r.Fail = 1
		}
		return r
	})
}

func checkCodec(ctx *kit.Ctx, r Rec) error {
	ctx.NonTrivialIf(len(r.all()) > 0)
	b, err := msgpack.ToBytes(&r)
	if r.fails() {
		ctx.Label("failing codec")
		if err == nil {
			return fmt.Errorf("a codec whose Encode fails serialises to %d bytes without an error", len(b))
		}
		if _, err := msgpack.AnyToBytes(&r); err == nil {
			return fmt.Errorf("a codec whose Encode fails serialises without an error through AnyToBytes")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("ToBytes fails: %v", err)
	}
	want, err := encodeRef(r.all())
	if err != nil {
		return err
	}
	if !bytes.Equal(b, want) {
		return fmt.Errorf("ToBytes returns %d bytes %x, the fields encode to %d bytes %x", len(b), clip(b), len(want), clip(want))
	}
	b, err = msgpack.AnyToBytes(&r)
	if err != nil || !bytes.Equal(b, want) {
		return fmt.Errorf("AnyToBytes of a codec returns %x, %v; want %x", clip(b), err, clip(want))
	}
	b, err = msgpack.AnyToBytes([]any{&r, "x"})
	if err != nil {
		return err
	}
	want = append(append([]byte{0x92}, want...), 0xa1, 'x')
	if !bytes.Equal(b, want) {
		return fmt.Errorf("AnyToBytes of a list holding a codec returns %x; want %x", clip(b), clip(want))
	}
	return nil
}

func checkAnyToBytes(ctx *kit.Ctx, v DV) error {
	labelTypes(v, ctx.Label)
	ctx.NonTrivialIf(v.size() > 1)
	b, err := msgpack.AnyToBytes(v.value())
	if err != nil {
		return fmt.Errorf("serialising a supported %s fails: %v", v.T, err)
	}
	n, used, err := mp.Parse(b)
	if err != nil {
		return fmt.Errorf("serialising a %s gives no complete encoding (%x): %v", v.T, clip(b), err)
	}
	if used != len(b) {
		return fmt.Errorf("serialising a %s gives %d bytes of which only %d encode it", v.T, len(b), used)
	}
	if got, want := n.Canon(), v.canon(); got != want {
		return fmt.Errorf("serialising a %s: a standard decoder reads %s instead of %s", v.T, short(got), short(want))
	}
	return nil
}

// Scalar helper functions.
type ScalarCase struct{ Op Op }

func genScalarHelper(t *rapid.T) ScalarCase {
	o := genOp(true).Draw(t, "op")
	for o.K == "nil" || o.K == "time" || o.K == "arr" || o.K == "map" {
		o.K = rapid.SampledFrom([]string{"bool", "str", "bin", "i64", "u64"}).Draw(t, "k")
	}
	if o.K == "bool" {
		o.U &= 1
	}
	o.N, o.Null, o.RN = false, false, false
	return ScalarCase{o}
}

func checkScalarHelper(ctx *kit.Ctx, c ScalarCase) error {
	o := c.Op
	ctx.Label(o.K)
	ctx.NonTrivialIf(o.I != 0 || o.U != 0 || o.S.Len() > 0)
	var b []byte
	var err error
	switch o.K {
	case "bool":
		b, err = msgpack.BoolToBytes(o.U == 1)
	case "i8":
		b, err = msgpack.I8ToBytes(int8(o.I))
	case "i16":
		b, err = msgpack.I16ToBytes(int16(o.I))
	case "i32":
		b, err = msgpack.I32ToBytes(int32(o.I))
	case "i64":
		b, err = msgpack.I64ToBytes(o.I)
	case "u8":
		b, err = msgpack.U8ToBytes(uint8(o.U))
	case "u16":
		b, err = msgpack.U16ToBytes(uint16(o.U))
	case "u32":
		b, err = msgpack.U32ToBytes(uint32(o.U))
	case "u64":
		b, err = msgpack.U64ToBytes(o.U)
	case "f32":
		b, err = msgpack.F32ToBytes(math.Float32frombits(uint32(o.U)))
	case "f64":
		b, err = msgpack.F64ToBytes(math.Float64frombits(o.U))
	case "str":
		b, err = msgpack.StringToBytes(string(o.S.Bytes()))
	case "bin":
		b, err = msgpack.BytesToBytes(o.S.Bytes())
	}
	if err != nil {
		return fmt.Errorf("%s helper fails: %v", o.K, err)
	}
	got, used, err := o.refRead(b)
	if err != nil || used != len(b) || got != o.expect() {
		return fmt.Errorf("%s helper gives %d bytes (%x): a standard decoder reads %s from %d bytes, %v; want %s", o.K, len(b), clip(b), short(got), used, err, short(o.expect()))
	}
	return nil
}

// Unsupported types.
type UnsupCase struct {
	Type string
	Wrap []string // outermost last: list, map, imap
	N    int
}

type myInt int
type pair struct{ A, B int }

var unsupported = map[string]func(n int) any{
	"struct":         func(n int) any { return pair{n, n} },
	"*struct":        func(n int) any { return &pair{n, n} },
	"*int":           func(n int) any { return &n },
	"complex128":     func(n int) any { return complex(float64(n), 1) },
	"complex64":      func(n int) any { return complex(float32(n), 1) },
	"chan":           func(n int) any { return make(chan int, 1) },
	"func":           func(n int) any { return func() {} },
	"[][]string":     func(n int) any { return [][]string{{"a"}} },
	"[]float64":      func(n int) any { return []float64{float64(n), 1.5} },
	"[]float32":      func(n int) any { return []float32{float32(n), 1.5} },
	"[3]int":         func(n int) any { return [3]int{n, 1, 2} },
	"map[string]int": func(n int) any { return map[string]int{"a": n} },
	"map[bool]any":   func(n int) any { return map[bool]any{true: n} },
	"named int":      func(n int) any { return myInt(n) },
	"duration":       func(n int) any { return time.Duration(n) },
	"uintptr":        func(n int) any { return uintptr(n) },
	"error":          func(n int) any { return errRec },
	"[]struct":       func(n int) any { return []pair{{n, 1}} },
	"*string":        func(n int) any { s := "x"; return &s },
}

var unsupportedNames = func() []string {
	var out []string
	for _, n := range []string{"struct", "*struct", "*int", "complex128", "complex64", "chan", "func", "[][]string", "[]float64", "[]float32", "[3]int", "map[string]int", "map[bool]any", "named int", "duration", "uintptr", "error", "[]struct", "*string"} {
		out = append(out, n)
	}
	return out
}()

func genUnsup(t *rapid.T) UnsupCase {
	return UnsupCase{
		Type: rapid.SampledFrom(unsupportedNames).Draw(t, "type"),
		Wrap: rapid.SliceOfN(rapid.SampledFrom([]string{"list", "map", "imap", "amap", "rec"}), 0, 3).Draw(t, "wrap"),
		N:    rapid.IntRange(-5, 300).Draw(t, "n"),
	}
}

type anyRec struct{ v any }

func (r *anyRec) Decode(d msgpack.Reader) error { return nil }
func (r *anyRec) Encode(w msgpack.Writer) error { w.WriteAny(r.v); return w.Err() }

func checkUnsup(ctx *kit.Ctx, c UnsupCase) error {
	ctx.Label(c.Type)
	ctx.NonTrivial()
	v := unsupported[c.Type](c.N)
	for _, w := range c.Wrap {
		switch w {
		case "list":
			v = []any{int8(1), v, "tail"}
		case "map":
			v = map[string]any{"k": v}
		case "imap":
			v = map[int]any{7: v}
		case "amap":
			v = map[any]any{"k": v}
		case "rec":
			v = &anyRec{v}
		}
	}
	b, err := msgpack.AnyToBytes(v)
	if err != nil {
		return nil // reported
	}
	// Accepting the type is fine only if the result is one whole encoding.
	if _, used, perr := mp.Parse(b); perr != nil || used != len(b) {
		return fmt.Errorf("serialising a %s (wrapped in %v) reports no error but gives %x, which is not one complete encoding (%v, %d of %d bytes)", c.Type, c.Wrap, clip(b), perr, used, len(b))
	}
	return nil
}

var C02 = &kit.Property{
	ID:   "C02",
	Rule: "a case is a sequence of typed writes, a dynamic value, a structured value or an unsupported value; non-trivial when its encoding has more than one byte, or when the value is unsupported",
	Assumptions: []string{
		"the number of bytes encoded is located by an independent MessagePack parser in an over-sized pre-filled buffer, not taken from the encoder",
	},
	Facets: []kit.Facet{
		kit.F("sizer", 48000, 300000, genSize(false), checkSize).WithBatch(3000),
		kit.F("sizer-large", 4800, 16000, genSize(true), checkSize).WithBatch(300),
		kit.F("any", 36000, 300000, func(t *rapid.T) DV { return genDyn(3, false).Draw(t, "v") }, checkAnyToBytes).WithBatch(3000),
		kit.F("any-large", 4800, 16000, func(t *rapid.T) DV { return genDyn(2, true).Draw(t, "v") }, checkAnyToBytes).WithBatch(300),
		kit.F("any-long", 1800, 5000, genLong, checkAnyToBytes).WithBatch(120),
		kit.F("codec", 24000, 100000, func(t *rapid.T) Rec { return genRec(3).Draw(t, "rec") }, checkCodec).WithBatch(3000),
		kit.F("scalar", 24000, 100000, genScalarHelper, checkScalarHelper).WithBatch(3000),
		kit.F("unsupported", 12000, 20000, genUnsup, checkUnsup).WithBatch(3000),
	},
}

// genLong: lists and maps whose element count sits at the header boundaries.
func genLong(t *rapid.T) DV {
	n := rapid.SampledFrom([]int{14, 15, 16, 17, 31, 32, 255, 256, 1000, 65535, 65536}).Draw(t, "n")
	if rapid.Bool().Draw(t, "list") {
		typ := rapid.SampledFrom(listTypes).Draw(t, "elem")
		et := typ
		if typ == "any" {
			et = "int64"
		}
		e := genScalar(et, false).Draw(t, "e")
		if e.S.Rep > 8 {
			e.S = gen.Blob{Rep: 3}
		}
		v := DV{T: "list:" + typ}
		if n > 1000 && (e.S.Len() > 0) {
			n = 1000
		}
		v.L = make([]DV, n)
		for i := range v.L {
			v.L[i] = e
		}
		return v
	}
	if n > 1000 {
		n = 300
	}
	typ := rapid.SampledFrom([]string{"string=string", "string", "int", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "any"}).Draw(t, "key")
	v := DV{T: "map:" + typ}
	for i := 0; i < n; i++ {
		var k DV
		switch {
		case typ == "string=string" || typ == "string" || typ == "any":
			k = DV{T: "string", S: gen.Blob{Head: []byte(fmt.Sprint("k", i))}}
		case typ[0] == 'u':
			k = DV{T: typ, U: uint64(i * 3)}
		default:
			k = DV{T: typ, I: int64(i*3 - 100)}
		}
		v.KS = append(v.KS, k)
		if typ == "string=string" {
			v.L = append(v.L, DV{T: "string", S: gen.Blob{Head: []byte("v")}})
		} else {
			v.L = append(v.L, DV{T: "bool", U: uint64(i % 2)})
		}
	}
	return v
}
