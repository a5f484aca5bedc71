package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	vm "github.com/vmihailenco/msgpack/v5"
)

func opsNonTrivial(ctx *kit.Ctx, ops []Op) {
	for _, o := range ops {
		ctx.Label(o.K)
	}
	ctx.NonTrivialIf(len(ops) >= 2)
}

// checkTyped: write, decode with two independent decoders, read back.
func checkTyped(ctx *kit.Ctx, ops []Op) error {
	opsNonTrivial(ctx, ops)
	enc, err := encodeRef(ops)
	if err != nil {
		return err
	}
	if err := crossDecode(ops, enc); err != nil {
		return err
	}
	// Read back from a buffer whose bytes end with a marker string.
	mark := append(append([]byte{}, enc...), 0xa4, 'm', 'a', 'r', 'k')
	dec := msgpack.NewDecoder(mark)
	for i, o := range ops {
		got, err := o.read(&dec)
		if err != nil {
			return fmt.Errorf("op %d %s: typed reader fails: %v", i, brief(o), err)
		}
		if want := o.expect(); got != want && !(o.K == "bin" && o.Null && !o.RN && got == "b") {
			return fmt.Errorf("op %d %s: typed reader returns %s instead of %s", i, brief(o), short(got), short(want))
		}
	}
	if s, err := dec.ReadString(); err != nil || s != "mark" {
		return fmt.Errorf("after reading %d values back, the next value is not at the end of their bytes (got %q, %v)", len(ops), s, err)
	}
	if dec.Err() != nil {
		return fmt.Errorf("decoder reports %v after successful reads", dec.Err())
	}
	if _, err := dec.ReadBool(); err == nil {
		return fmt.Errorf("reading past the end succeeds")
	}
	return nil
}

// crossDecode reads the encoding with the vmihailenco decoder.
func crossDecode(ops []Op, enc []byte) error {
	d := vm.NewDecoder(bytes.NewReader(enc))
	for i, o := range ops {
		var got string
		var err error
		switch {
		case o.Null || o.K == "nil":
			err = d.DecodeNil()
			got = "nil"
		case o.K == "bool":
			var v bool
			v, err = d.DecodeBool()
			got = fmt.Sprint(v)
		case o.K[0] == 'i':
			var v int64
			v, err = d.DecodeInt64()
			got = canonInt(v)
		case o.K[0] == 'u':
			var v uint64
			v, err = d.DecodeUint64()
			got = canonUint(v)
		case o.K == "f32":
			var v float32
			v, err = d.DecodeFloat32()
			got = mp.CanonF32(math.Float32bits(v))
		case o.K == "f64":
			var v float64
			v, err = d.DecodeFloat64()
			got = mp.CanonF64(math.Float64bits(v))
		case o.K == "str":
			var v string
			v, err = d.DecodeString()
			got = mp.CanonStr([]byte(v))
		case o.K == "bin":
			var v []byte
			v, err = d.DecodeBytes()
			got = mp.CanonBin(v)
		case o.K == "time":
			var v time.Time
			v, err = d.DecodeTime()
			got = canonTime(v)
		case o.K == "arr":
			var n int
			n, err = d.DecodeArrayLen()
			got = "arr" + mp.CanonInt(uint64(uint32(n)), false)
		case o.K == "map":
			var n int
			n, err = d.DecodeMapLen()
			got = "map" + mp.CanonInt(uint64(uint32(n)), false)
		}
		if err != nil || got != o.expect() {
			return fmt.Errorf("op %d %s: vmihailenco decoder reads %s, %v instead of %s", i, brief(o), short(got), err, short(o.expect()))
		}
	}
	return nil
}

var C01 = &kit.Property{
	ID:   "C01",
	Rule: "a case is a generated sequence of typed writes; non-trivial when it holds at least two values (boundary-biased integers, lengths around every header-size switch, nillable and absent values)",
	Assumptions: []string{
		"lengths up to 2^16+1 bytes are generated; array and map headers cover all 32-bit counts",
		"timestamps are generated with seconds in +-2^40 and full nanosecond range",
	},
	Facets: []kit.Facet{
		kit.F("typed", 72000, 400000, genOps(10, false), checkTyped).WithBatch(6000),
		kit.F("typed-large", 7200, 20000, genOps(6, true), checkTyped).WithBatch(600),
	},
}
