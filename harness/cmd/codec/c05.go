package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// BytesCase is untrusted input plus the reads applied to it.
type BytesCase struct {
	Data  []byte
	Reads []string
}

var readNames = []string{"IsNextNil", "Bool", "Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "Float32", "Float64", "String", "Time", "ByteArray", "ArraySize", "MapSize", "Any", "Skip",
	"NBool", "NInt8", "NInt16", "NInt32", "NInt64", "NUint8", "NUint16", "NUint32", "NUint64", "NFloat32", "NFloat64", "NString", "NTime", "NByteArray"}

func doRead(d *msgpack.Decoder, name string) (any, error) {
	switch name {
	case "IsNextNil":
		return d.IsNextNil()
	case "Bool":
		return d.ReadBool()
	case "Int8":
		return d.ReadInt8()
	case "Int16":
		return d.ReadInt16()
	case "Int32":
		return d.ReadInt32()
	case "Int64":
		return d.ReadInt64()
	case "Uint8":
		return d.ReadUint8()
	case "Uint16":
		return d.ReadUint16()
	case "Uint32":
		return d.ReadUint32()
	case "Uint64":
		return d.ReadUint64()
	case "Float32":
		return d.ReadFloat32()
	case "Float64":
		return d.ReadFloat64()
	case "String":
		return d.ReadString()
	case "Time":
		return d.ReadTime()
	case "ByteArray":
		return d.ReadByteArray()
	case "ArraySize":
		return d.ReadArraySize()
	case "MapSize":
		return d.ReadMapSize()
	case "Any":
		return d.ReadAny()
	case "Skip":
		return nil, d.Skip()
	case "NBool":
		return d.ReadNillableBool()
	case "NInt8":
		return d.ReadNillableInt8()
	case "NInt16":
		return d.ReadNillableInt16()
	case "NInt32":
		return d.ReadNillableInt32()
	case "NInt64":
		return d.ReadNillableInt64()
	case "NUint8":
		return d.ReadNillableUint8()
	case "NUint16":
		return d.ReadNillableUint16()
	case "NUint32":
		return d.ReadNillableUint32()
	case "NUint64":
		return d.ReadNillableUint64()
	case "NFloat32":
		return d.ReadNillableFloat32()
	case "NFloat64":
		return d.ReadNillableFloat64()
	case "NString":
		return d.ReadNillableString()
	case "NTime":
		return d.ReadNillableTime()
	case "NByteArray":
		return d.ReadNillableByteArray()
	}
	kit.Bug("unknown read %q", name)
	return nil, nil
}

// mutate applies a few structural edits to a byte string.
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(0, 4).Draw(t, "edits")
	for i := 0; i < n && len(b) > 0; i++ {
		p := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 1:
			b = b[:p]
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append([]byte{rapid.SampledFrom(hotBytes).Draw(t, "hot")}, b[p:]...)...)
		case 4:
			b[p] = rapid.SampledFrom(hotBytes).Draw(t, "hot")
		case 5:
			for q := p; q < len(b) && q < p+4; q++ {
				b[q] = 0xff
			}
		}
	}
	return b
}

var hotBytes = []byte{0xc0, 0xc1, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x81, 0x91, 0x8f, 0x9f, 0xbf, 0xa1, 0xff, 0xe0, 0x00, 0x7f}

func genData(t *rapid.T) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "datamode") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "random")
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom(hotBytes), 0, 24).Draw(t, "hot")
	case 2:
		return mutate(t, genVal(2).Draw(t, "v").encode(nil))
	}
	var b []byte
	for _, v := range rapid.SliceOfN(genVal(1), 1, 4).Draw(t, "vs") {
		b = v.encode(b)
	}
	return mutate(t, b)
}

func genBytesCase(t *rapid.T) BytesCase {
	c := BytesCase{Data: genData(t)}
	if len(c.Data) > 3000 {
		c.Data = c.Data[:3000]
	}
	if rapid.Bool().Draw(t, "any-only") {
		c.Reads = rapid.SliceOfN(rapid.SampledFrom([]string{"Any", "Skip", "Any", "Skip", "Time", "NTime"}), 1, 5).Draw(t, "reads")
	} else {
		c.Reads = rapid.SliceOfN(rapid.SampledFrom(readNames), 1, 8).Draw(t, "reads")
	}
	return c
}

type readOut struct {
	vals []string
	errs []string
}

func runReads(data []byte, reads []string) readOut {
	var o readOut
	d := msgpack.NewDecoder(data)
	for _, r := range reads {
		v, err := doRead(&d, r)
		if err != nil {
			o.vals = append(o.vals, "-")
			o.errs = append(o.errs, err.Error())
			continue
		}
		o.vals = append(o.vals, render(v))
		o.errs = append(o.errs, "")
	}
	return o
}

func render(v any) string {
	switch p := v.(type) {
	case *string:
		if p != nil {
			return *p
		}
	case *int64:
		if p != nil {
			return fmt.Sprint(*p)
		}
	case *uint64:
		if p != nil {
			return fmt.Sprint(*p)
		}
	}
	s := canonAny(v)
	if len(s) > 0 && s[0] == '<' {
		return fmt.Sprintf("%T", v)
	}
	return s
}

const (
	allocBase   = 64 << 10
	allocFactor = 1024
)

func checkBytes(ctx *kit.Ctx, c BytesCase) error {
	data := append([]byte{}, c.Data...)
	data = data[:len(data):len(data)]
	var d msgpack.Decoder
	ok, failed := 0, 0
	perRead := kit.Alloc(func() {
		d = msgpack.NewDecoder(data)
		for _, r := range c.Reads {
			if _, err := doRead(&d, r); err == nil {
				ok++
			} else {
				failed++
			}
		}
	})
	if limit := uint64(allocBase*(1+len(c.Reads)) + allocFactor*len(data)); perRead > limit {
		return fmt.Errorf("reading %d bytes with %v allocated %d bytes", len(data), c.Reads, perRead)
	}
	ctx.NonTrivialIf(len(data) > 0 && failed > 0)
	if failed > 0 {
		ctx.Label("some read failed")
	}
	if ok > 0 {
		ctx.Label("some read succeeded")
	}
	if !bytes.Equal(data, c.Data) {
		return fmt.Errorf("reading modified the input")
	}
	// The result may depend on the given bytes only: the same bytes inside a
	// larger allocation give the same results.
	a := runReads(data, c.Reads)
	big := append(append([]byte{}, c.Data...), bytes.Repeat([]byte{0x05}, 256)...)
	b := runReads(big[:len(c.Data)], c.Reads)
	for i := range c.Reads {
		if a.vals[i] != b.vals[i] || (a.errs[i] == "") != (b.errs[i] == "") {
			return fmt.Errorf("read %d (%s) depends on bytes outside the buffer: %s/%s versus %s/%s", i, c.Reads[i], short(a.vals[i]), a.errs[i], short(b.vals[i]), b.errs[i])
		}
	}
	return nil
}

// NestCase: very deep nesting, which must not exhaust the stack.
type NestCase struct {
	Lead  byte
	Depth int
	Skip  bool
}

func checkNest(ctx *kit.Ctx, c NestCase) error {
	ctx.NonTrivial()
	data := bytes.Repeat([]byte{c.Lead}, c.Depth)
	if c.Lead == 0x81 { // map with a key and a nested map as value
		data = bytes.Repeat([]byte{0x81, 0x01}, c.Depth)
	}
	if c.Lead == 0xdc {
		data = bytes.Repeat([]byte{0xdc, 0x00, 0x01}, c.Depth)
	}
	data = append(data, 0xc0)
	d := msgpack.NewDecoder(data)
	if c.Skip {
		_ = d.Skip()
		return nil
	}
	_, _ = d.ReadAny()
	return nil
}

// CodecBytes: decoding a structured value from arbitrary bytes.
var C05 = &kit.Property{
	ID:   "C05",
	Rule: "a case is a byte string (random, hot-byte, or a mutated valid encoding) and a sequence of reader calls; non-trivial when the input is non-empty and at least one read fails",
	Assumptions: []string{
		fmt.Sprintf("allocation bound checked: %d KiB per read plus %d bytes per input byte", allocBase>>10, allocFactor),
		"stack depth bound checked with a 256 MiB goroutine stack limit (Go's default is 1 GiB) on inputs of up to 4 MiB",
	},
	Facets: []kit.Facet{
		kit.F("bytes", 180000, 1500000, genBytesCase, checkBytes).WithBatch(9000),
		kit.F("nesting", 24, 200, func(t *rapid.T) NestCase {
			return NestCase{
				Lead:  rapid.SampledFrom([]byte{0x91, 0x81, 0xdc}).Draw(t, "lead"),
				Depth: rapid.SampledFrom([]int{100, 9000, 70000, 1 << 20, 4 << 20}).Draw(t, "depth"),
				Skip:  rapid.Bool().Draw(t, "skip"),
			}
		}, checkNest).WithBatch(8),
	},
}
