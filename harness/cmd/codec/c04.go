package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

type IntCase struct {
	U   uint64
	Neg bool // the number is int64(U)
}

func genInt(t *rapid.T) IntCase {
	if rapid.Bool().Draw(t, "signed") {
		v := gen.I64().Draw(t, "i")
		return IntCase{uint64(v), v < 0}
	}
	return IntCase{gen.U64().Draw(t, "u"), false}
}

func bigOf(u uint64, neg bool) *big.Int {
	if neg {
		return big.NewInt(int64(u))
	}
	return new(big.Int).SetUint64(u)
}

type intReader struct {
	name     string
	lo, hi   *big.Int
	read     func(d *msgpack.Decoder) (*big.Int, error)
	readNull func(d *msgpack.Decoder) (*big.Int, error)
}

func sreader[T int8 | int16 | int32 | int64](name string, lo, hi int64, r func(*msgpack.Decoder) (T, error), n func(*msgpack.Decoder) (*T, error)) intReader {
	return intReader{name, big.NewInt(lo), big.NewInt(hi),
		func(d *msgpack.Decoder) (*big.Int, error) { v, err := r(d); return big.NewInt(int64(v)), err },
		func(d *msgpack.Decoder) (*big.Int, error) {
			v, err := n(d)
			if v == nil {
				return nil, err
			}
			return big.NewInt(int64(*v)), err
		}}
}

func ureader[T uint8 | uint16 | uint32 | uint64](name string, hi uint64, r func(*msgpack.Decoder) (T, error), n func(*msgpack.Decoder) (*T, error)) intReader {
	return intReader{name, big.NewInt(0), new(big.Int).SetUint64(hi),
		func(d *msgpack.Decoder) (*big.Int, error) {
			v, err := r(d)
			return new(big.Int).SetUint64(uint64(v)), err
		},
		func(d *msgpack.Decoder) (*big.Int, error) {
			v, err := n(d)
			if v == nil {
				return nil, err
			}
			return new(big.Int).SetUint64(uint64(*v)), err
		}}
}

var intReaders = []intReader{
	sreader("int8", math.MinInt8, math.MaxInt8, (*msgpack.Decoder).ReadInt8, (*msgpack.Decoder).ReadNillableInt8),
	sreader("int16", math.MinInt16, math.MaxInt16, (*msgpack.Decoder).ReadInt16, (*msgpack.Decoder).ReadNillableInt16),
	sreader("int32", math.MinInt32, math.MaxInt32, (*msgpack.Decoder).ReadInt32, (*msgpack.Decoder).ReadNillableInt32),
	sreader("int64", math.MinInt64, math.MaxInt64, (*msgpack.Decoder).ReadInt64, (*msgpack.Decoder).ReadNillableInt64),
	ureader("uint8", math.MaxUint8, (*msgpack.Decoder).ReadUint8, (*msgpack.Decoder).ReadNillableUint8),
	ureader("uint16", math.MaxUint16, (*msgpack.Decoder).ReadUint16, (*msgpack.Decoder).ReadNillableUint16),
	ureader("uint32", math.MaxUint32, (*msgpack.Decoder).ReadUint32, (*msgpack.Decoder).ReadNillableUint32),
	ureader("uint64", math.MaxUint64, (*msgpack.Decoder).ReadUint64, (*msgpack.Decoder).ReadNillableUint64),
}

var intFormats = []byte{0, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3}

// checkInt encodes the number in every format that can carry it and reads it
// with every reader.
func checkInt(ctx *kit.Ctx, c IntCase) error {
	want := bigOf(c.U, c.Neg)
	ctx.NonTrivialIf(c.Neg || c.U > 127)
	for _, f := range intFormats {
		raw, ok := mp.AppendInt(nil, c.U, c.Neg, f)
		if !ok {
			continue
		}
		ctx.Label("format %#x", f)
		raw = append(raw, 0xa1, 'z')
		for _, r := range intReaders {
			fits := want.Cmp(r.lo) >= 0 && want.Cmp(r.hi) <= 0
			for i, rd := range []func(*msgpack.Decoder) (*big.Int, error){r.read, r.readNull} {
				name := r.name
				if i == 1 {
					name = "nillable " + name
				}
				d := msgpack.NewDecoder(raw)
				got, err := rd(&d)
				if !fits {
					if err == nil {
						return fmt.Errorf("%v in format %#x read as %s gives %v instead of an error", want, f, name, got)
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("%v in format %#x read as %s fails: %v", want, f, name, err)
				}
				if got == nil || got.Cmp(want) != 0 {
					return fmt.Errorf("%v in format %#x read as %s gives %v", want, f, name, got)
				}
				if s, err := d.ReadString(); err != nil || s != "z" {
					return fmt.Errorf("%v in format %#x read as %s: following value misread (%q, %v)", want, f, name, s, err)
				}
			}
		}
		// The dynamic reader too.
		d := msgpack.NewDecoder(raw)
		v, err := d.ReadAny()
		if err != nil || canonAny(v) != mp.CanonInt(c.U, c.Neg) {
			return fmt.Errorf("%v in format %#x read dynamically gives %v, %v", want, f, v, err)
		}
	}
	return nil
}

type NonIntCase struct {
	V   Val
	Pad []byte
}

// checkNonInt: a value that is not an integer never reads as one.
func checkNonInt(ctx *kit.Ctx, c NonIntCase) error {
	raw := c.V.encode(nil)
	k := c.V.kind()
	if k == mp.Int {
		return nil
	}
	ctx.NonTrivial()
	ctx.Label(string(k))
	for _, r := range intReaders {
		d := msgpack.NewDecoder(raw)
		if v, err := r.read(&d); err == nil {
			return fmt.Errorf("a %s value (%x) read as %s gives %v instead of an error", k, clip(raw), r.name, v)
		}
		d = msgpack.NewDecoder(raw)
		v, err := r.readNull(&d)
		if err == nil && !(k == mp.Nil && v == nil) {
			return fmt.Errorf("a %s value (%x) read as nillable %s gives %v instead of an error", k, clip(raw), r.name, v)
		}
	}
	// A truncated integer is an error as well.
	return nil
}

func checkIntTrunc(ctx *kit.Ctx, c IntCase) error {
	for _, f := range intFormats[1:] {
		raw, ok := mp.AppendInt(nil, c.U, c.Neg, f)
		if !ok {
			continue
		}
		ctx.NonTrivial()
		for cut := 0; cut < len(raw); cut++ {
			for _, r := range intReaders {
				d := msgpack.NewDecoder(raw[:cut:cut])
				if v, err := r.read(&d); err == nil {
					return fmt.Errorf("%d of %d bytes of an integer in format %#x read as %s give %v instead of an error", cut, len(raw), f, r.name, v)
				}
			}
		}
	}
	return nil
}

var C04 = &kit.Property{
	ID:   "C04",
	Rule: "a case is a number (concentrated around the limits of every width), encoded in each of the nine integer formats able to carry it and read by all sixteen integer readers; non-trivial when it needs more than a positive fixint",
	Facets: []kit.Facet{
		kit.F("formats", 48000, 400000, genInt, checkInt).WithBatch(3000),
		kit.F("non-integers", 18000, 60000, func(t *rapid.T) NonIntCase { return NonIntCase{V: genVal(1).Draw(t, "v")} }, checkNonInt).WithBatch(3000),
		kit.F("truncated", 6000, 40000, genInt, checkIntTrunc).WithBatch(1500),
	},
}
