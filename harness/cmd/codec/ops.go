package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

// Op is one typed write.
type Op struct {
	K    string   // nil bool i8..i64 u8..u64 f32 f64 str bin time arr map
	N    bool     `json:",omitempty"` // use the nillable writer
	Null bool     `json:",omitempty"` // ... with an absent value
	RN   bool     `json:",omitempty"` // read with the nillable reader
	I    int64    `json:",omitempty"`
	U    uint64   `json:",omitempty"`
	S    gen.Blob `json:",omitempty"`
	NS   uint32   `json:",omitempty"`
}

var scalarKinds = []string{"nil", "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str", "bin", "time", "arr", "map"}

func genOp(big bool) *rapid.Generator[Op] {
	return rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom(scalarKinds).Draw(t, "kind")}
		nillable := o.K != "nil" && o.K != "arr" && o.K != "map"
		if nillable {
			o.N = rapid.IntRange(0, 2).Draw(t, "nillable") == 0
			if o.N {
				o.Null = rapid.IntRange(0, 3).Draw(t, "absent") == 0
			}
			o.RN = o.N || rapid.IntRange(0, 3).Draw(t, "rn") == 0
		}
		if o.Null {
			return o
		}
		switch o.K {
		case "bool":
			o.U = uint64(rapid.IntRange(0, 1).Draw(t, "b"))
		case "i8":
			o.I = int64(int8(gen.I64().Draw(t, "i")))
		case "i16":
			o.I = int64(int16(gen.I64().Draw(t, "i")))
		case "i32":
			o.I = int64(int32(gen.I64().Draw(t, "i")))
		case "i64":
			o.I = gen.I64().Draw(t, "i")
		case "u8":
			o.U = uint64(uint8(gen.U64().Draw(t, "u")))
		case "u16":
			o.U = uint64(uint16(gen.U64().Draw(t, "u")))
		case "u32", "arr", "map":
			o.U = uint64(uint32(gen.U64().Draw(t, "u")))
		case "u64":
			o.U = gen.U64().Draw(t, "u")
		case "f32":
			o.U = uint64(gen.F32Bits().Draw(t, "f"))
		case "f64":
			o.U = gen.F64Bits().Draw(t, "f")
		case "str", "bin":
			o.S = gen.BlobOf(big).Draw(t, "s")
		case "time":
			o.I = gen.Sec().Draw(t, "sec")
			o.NS = gen.NSec().Draw(t, "nsec")
		}
		return o
	})
}

func genOps(max int, big bool) func(t *rapid.T) []Op {
	g := rapid.SliceOfN(genOp(big), 1, max)
	return func(t *rapid.T) []Op { return g.Draw(t, "ops") }
}

func ptr[T any](v T) *T { return &v }

func nilOr[T any](null bool, v T) *T {
	if null {
		return nil
	}
	return &v
}

// write performs the op on a writer.
func (o Op) write(w msgpack.Writer) {
	switch o.K {
	case "nil":
		w.WriteNil()
	case "bool":
		v := o.U == 1
		if o.N {
			w.WriteNillableBool(nilOr(o.Null, v))
		} else {
			w.WriteBool(v)
		}
	case "i8":
		v := int8(o.I)
		if o.N {
			w.WriteNillableInt8(nilOr(o.Null, v))
		} else {
			w.WriteInt8(v)
		}
	case "i16":
		v := int16(o.I)
		if o.N {
			w.WriteNillableInt16(nilOr(o.Null, v))
		} else {
			w.WriteInt16(v)
		}
	case "i32":
		v := int32(o.I)
		if o.N {
			w.WriteNillableInt32(nilOr(o.Null, v))
		} else {
			w.WriteInt32(v)
		}
	case "i64":
		if o.N {
			w.WriteNillableInt64(nilOr(o.Null, o.I))
		} else {
			w.WriteInt64(o.I)
		}
	case "u8":
		v := uint8(o.U)
		if o.N {
			w.WriteNillableUint8(nilOr(o.Null, v))
		} else {
			w.WriteUint8(v)
		}
	case "u16":
		v := uint16(o.U)
		if o.N {
			w.WriteNillableUint16(nilOr(o.Null, v))
		} else {
			w.WriteUint16(v)
		}
	case "u32":
		v := uint32(o.U)
		if o.N {
			w.WriteNillableUint32(nilOr(o.Null, v))
		} else {
			w.WriteUint32(v)
		}
	case "u64":
		if o.N {
			w.WriteNillableUint64(nilOr(o.Null, o.U))
		} else {
			w.WriteUint64(o.U)
		}
	case "f32":
		v := math.Float32frombits(uint32(o.U))
		if o.N {
			w.WriteNillableFloat32(nilOr(o.Null, v))
		} else {
			w.WriteFloat32(v)
		}
	case "f64":
		v := math.Float64frombits(o.U)
		if o.N {
			w.WriteNillableFloat64(nilOr(o.Null, v))
		} else {
			w.WriteFloat64(v)
		}
	case "str":
		v := string(o.S.Bytes())
		if o.N {
			w.WriteNillableString(nilOr(o.Null, v))
		} else {
			w.WriteString(v)
		}
	case "bin":
		v := o.S.Bytes()
		if o.N {
			if o.Null {
				v = nil
			}
			w.WriteNillableByteArray(v)
		} else {
			w.WriteByteArray(v)
		}
	case "time":
		v := time.Unix(o.I, int64(o.NS))
		if o.N {
			w.WriteNillableTime(nilOr(o.Null, v))
		} else {
			w.WriteTime(v)
		}
	case "arr":
		w.WriteArraySize(uint32(o.U))
	case "map":
		w.WriteMapSize(uint32(o.U))
	default:
		kit.Bug("unknown op %q", o.K)
	}
}

// expect returns the canonical rendering of the value the op carries.
func (o Op) expect() string {
	if o.Null || o.K == "nil" {
		return "nil"
	}
	switch o.K {
	case "bool":
		return fmt.Sprint(o.U == 1)
	case "i8", "i16", "i32", "i64":
		return mp.CanonInt(uint64(o.I), o.I < 0)
	case "u8", "u16", "u32", "u64":
		return mp.CanonInt(o.U, false)
	case "f32":
		return mp.CanonF32(uint32(o.U))
	case "f64":
		return mp.CanonF64(o.U)
	case "str":
		return mp.CanonStr(o.S.Bytes())
	case "bin":
		return mp.CanonBin(o.S.Bytes())
	case "time":
		return mp.CanonTime(o.I, o.NS)
	case "arr", "map":
		return o.K + mp.CanonInt(o.U, false)
	}
	kit.Bug("unknown op %q", o.K)
	return ""
}

func canonInt[T int8 | int16 | int32 | int64](v T) string {
	return mp.CanonInt(uint64(int64(v)), v < 0)
}
func canonUint[T uint8 | uint16 | uint32 | uint64](v T) string {
	return mp.CanonInt(uint64(v), false)
}
func canonTime(v time.Time) string { return mp.CanonTime(v.Unix(), uint32(v.Nanosecond())) }

func nv[T any](v *T, err error, f func(T) string) (string, error) {
	if err != nil {
		return "", err
	}
	if v == nil {
		return "nil", nil
	}
	return f(*v), nil
}

func pv[T any](v T, err error, f func(T) string) (string, error) {
	if err != nil {
		return "", err
	}
	return f(v), nil
}

// read performs the matching typed read and renders the value.
func (o Op) read(r msgpack.Reader) (string, error) {
	sbool := func(b bool) string { return fmt.Sprint(b) }
	sstr := func(s string) string { return mp.CanonStr([]byte(s)) }
	sf32 := func(f float32) string { return mp.CanonF32(math.Float32bits(f)) }
	sf64 := func(f float64) string { return mp.CanonF64(math.Float64bits(f)) }
	type key struct {
		k string
		n bool
	}
	switch (key{o.K, o.RN}) {
	case key{"nil", false}:
		ok, err := r.IsNextNil()
		if err == nil && !ok {
			return "not nil", nil
		}
		return "nil", err
	case key{"bool", false}:
		v, err := r.ReadBool()
		return pv(v, err, sbool)
	case key{"bool", true}:
		v, err := r.ReadNillableBool()
		return nv(v, err, sbool)
	case key{"i8", false}:
		v, err := r.ReadInt8()
		return pv(v, err, canonInt[int8])
	case key{"i8", true}:
		v, err := r.ReadNillableInt8()
		return nv(v, err, canonInt[int8])
	case key{"i16", false}:
		v, err := r.ReadInt16()
		return pv(v, err, canonInt[int16])
	case key{"i16", true}:
		v, err := r.ReadNillableInt16()
		return nv(v, err, canonInt[int16])
	case key{"i32", false}:
		v, err := r.ReadInt32()
		return pv(v, err, canonInt[int32])
	case key{"i32", true}:
		v, err := r.ReadNillableInt32()
		return nv(v, err, canonInt[int32])
	case key{"i64", false}:
		v, err := r.ReadInt64()
		return pv(v, err, canonInt[int64])
	case key{"i64", true}:
		v, err := r.ReadNillableInt64()
		return nv(v, err, canonInt[int64])
	case key{"u8", false}:
		v, err := r.ReadUint8()
		return pv(v, err, canonUint[uint8])
	case key{"u8", true}:
		v, err := r.ReadNillableUint8()
		return nv(v, err, canonUint[uint8])
	case key{"u16", false}:
		v, err := r.ReadUint16()
		return pv(v, err, canonUint[uint16])
	case key{"u16", true}:
		v, err := r.ReadNillableUint16()
		return nv(v, err, canonUint[uint16])
	case key{"u32", false}:
		v, err := r.ReadUint32()
		return pv(v, err, canonUint[uint32])
	case key{"u32", true}:
		v, err := r.ReadNillableUint32()
		return nv(v, err, canonUint[uint32])
	case key{"u64", false}:
		v, err := r.ReadUint64()
		return pv(v, err, canonUint[uint64])
	case key{"u64", true}:
		v, err := r.ReadNillableUint64()
		return nv(v, err, canonUint[uint64])
	case key{"f32", false}:
		v, err := r.ReadFloat32()
		return pv(v, err, sf32)
	case key{"f32", true}:
		v, err := r.ReadNillableFloat32()
		return nv(v, err, sf32)
	case key{"f64", false}:
		v, err := r.ReadFloat64()
		return pv(v, err, sf64)
	case key{"f64", true}:
		v, err := r.ReadNillableFloat64()
		return nv(v, err, sf64)
	case key{"str", false}:
		v, err := r.ReadString()
		return pv(v, err, sstr)
	case key{"str", true}:
		v, err := r.ReadNillableString()
		return nv(v, err, sstr)
	case key{"bin", false}:
		v, err := r.ReadByteArray()
		return pv(v, err, mp.CanonBin)
	case key{"bin", true}:
		v, err := r.ReadNillableByteArray()
		if err == nil && v == nil {
			return "nil", nil
		}
		return pv(v, err, mp.CanonBin)
	case key{"time", false}:
		v, err := r.ReadTime()
		return pv(v, err, canonTime)
	case key{"time", true}:
		v, err := r.ReadNillableTime()
		return nv(v, err, canonTime)
	case key{"arr", false}:
		v, err := r.ReadArraySize()
		return pv(v, err, func(n uint32) string { return "arr" + canonUint(n) })
	case key{"map", false}:
		v, err := r.ReadMapSize()
		return pv(v, err, func(n uint32) string { return "map" + canonUint(n) })
	}
	kit.Bug("unreadable op %+v", o)
	return "", nil
}

// refRead reads one op's value with the reference decoder.
func (o Op) refRead(b []byte) (string, int, error) {
	if !o.Null && (o.K == "arr" || o.K == "map") {
		k := mp.Arr
		if o.K == "map" {
			k = mp.Map
		}
		n, used, err := mp.Header(b, k)
		return o.K + mp.CanonInt(n, false), used, err
	}
	n, used, err := mp.Parse(b)
	if err != nil {
		return "", used, err
	}
	// The value must be carried by a format of its own type.
	want := map[string]mp.Kind{"nil": mp.Nil, "bool": mp.Bool, "f32": mp.F32, "f64": mp.F64, "str": mp.Str, "bin": mp.Bin, "time": mp.Ext}
	k, ok := want[o.K]
	if !ok {
		k = mp.Int
	}
	if o.Null {
		k = mp.Nil
	}
	if n.Kind != k {
		return "", used, fmt.Errorf("wire kind %s (lead byte %#x) for a %s value", n.Kind, n.Lead, o.K)
	}
	return n.Canon(), used, nil
}

func writeAll(w msgpack.Writer, ops []Op) {
	for _, o := range ops {
		o.write(w)
	}
}

func sizeBound(ops []Op) int {
	n := 64
	for _, o := range ops {
		n += 32 + o.S.Len()
	}
	return n
}

// encodeRef encodes ops into an oversized, pre-filled buffer and locates the
// end of the encoding with the reference decoder.
func encodeRef(ops []Op) ([]byte, error) {
	buf := bytes.Repeat([]byte{0xC1}, sizeBound(ops))
	enc := msgpack.NewEncoder(buf)
	writeAll(&enc, ops)
	if err := enc.Err(); err != nil {
		return nil, fmt.Errorf("encoder reports %v although the buffer has room", err)
	}
	pos := 0
	for i, o := range ops {
		got, used, err := o.refRead(buf[pos:])
		if err != nil {
			return nil, fmt.Errorf("op %d %+v: standard decoder at offset %d: %v (bytes %x)", i, brief(o), pos, err, clip(buf[pos:]))
		}
		if want := o.expect(); got != want {
			return nil, fmt.Errorf("op %d %+v: a standard decoder reads %s instead of %s", i, brief(o), short(got), short(want))
		}
		pos += used
	}
	for i := pos; i < len(buf); i++ {
		if buf[i] != 0xC1 {
			return nil, fmt.Errorf("%d bytes encode the values but the encoder also wrote byte %d", pos, i)
		}
	}
	return buf[:pos:pos], nil
}

func brief(o Op) string {
	return fmt.Sprintf("{%s nillable=%v absent=%v i=%d u=%d len=%d ns=%d}", o.K, o.N, o.Null, o.I, o.U, o.S.Len(), o.NS)
}

func clip(b []byte) []byte {
	if len(b) > 32 {
		return b[:32]
	}
	return b
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
