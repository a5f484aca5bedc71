package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

type SkipCase struct {
	V   Val
	Pre int // integers before the value
}

// tail is a run of distinct fixints that locates the reader's position.
func tail(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i % 100)
	}
	return b
}

func checkSkip(ctx *kit.Ctx, c SkipCase) error {
	v := c.V.encode(nil)
	c.V.labels(ctx.Label)
	ctx.NonTrivialIf(len(v) > 1)
	var data []byte
	for i := 0; i < c.Pre; i++ {
		data = append(data, byte(i))
	}
	data = append(data, v...)
	data = append(data, tail(100)...)
	d := msgpack.NewDecoder(data)
	for i := 0; i < c.Pre; i++ {
		if got, err := d.ReadUint8(); err != nil || int(got) != i {
			return fmt.Errorf("value before the skipped one misread: %d, %v", got, err)
		}
	}
	if err := d.Skip(); err != nil {
		return fmt.Errorf("skipping a well-formed value (lead byte %#x, %d bytes) fails: %v", v[0], len(v), err)
	}
	for i := 0; i < 100; i++ {
		got, err := d.ReadUint8()
		if err != nil || int(got) != i {
			return fmt.Errorf("skipping a value of %d bytes (%x): the value read next is %d, %v instead of %d", len(v), clip(v), got, err, i)
		}
	}
	// Skip two values in a row, and exactly at the end of the buffer.
	two := append(append([]byte{}, v...), v...)
	d = msgpack.NewDecoder(two)
	for i := 0; i < 2; i++ {
		if err := d.Skip(); err != nil {
			return fmt.Errorf("skip %d of two identical values of %d bytes fails: %v", i+1, len(v), err)
		}
	}
	if err := d.Skip(); err == nil {
		return fmt.Errorf("skipping past the end reports no error")
	}
	// Truncations.
	step := 1 + len(v)/200
	for cut := 0; cut < len(v); cut += step {
		d := msgpack.NewDecoder(v[:cut:cut])
		if err := d.Skip(); err == nil {
			return fmt.Errorf("skipping %d of the %d bytes of a value (%x) reports no error", cut, len(v), clip(v))
		}
	}
	d = msgpack.NewDecoder(v[: len(v)-1 : len(v)-1])
	if err := d.Skip(); err == nil {
		return fmt.Errorf("skipping a value of %d bytes lacking its last byte reports no error (%x)", len(v), clip(v))
	}
	return nil
}

// checkSkipBytes compares Skip on arbitrary bytes with the reference parser.
func checkSkipBytes(ctx *kit.Ctx, data []byte) error {
	_, used, perr := mp.Parse(data)
	ctx.NonTrivialIf(len(data) > 1)
	if perr != nil {
		ctx.Label("malformed")
		d := msgpack.NewDecoder(data)
		if err := d.Skip(); err == nil {
			return fmt.Errorf("skipping a malformed value (%x: %v) reports no error", clip(data), perr)
		}
		return nil
	}
	ctx.Label("well-formed")
	full := append(append([]byte{}, data[:used]...), tail(50)...)
	d := msgpack.NewDecoder(full)
	if err := d.Skip(); err != nil {
		return fmt.Errorf("skipping a well-formed value of %d bytes (%x) fails: %v", used, clip(data), err)
	}
	for i := 0; i < 50; i++ {
		if got, err := d.ReadUint8(); err != nil || int(got) != i {
			return fmt.Errorf("after skipping a value of %d bytes (%x) the next value reads %d, %v instead of %d", used, clip(data), got, err, i)
		}
	}
	return nil
}

type DeepSkip struct {
	Depth int
	Kind  int
}

func checkDeepSkip(ctx *kit.Ctx, c DeepSkip) error {
	ctx.NonTrivialIf(c.Depth > 8)
	var b bytes.Buffer
	for i := 0; i < c.Depth; i++ {
		switch (c.Kind >> (i % 4)) & 1 {
		case 0:
			b.Write([]byte{0x92, 0x07})
		default:
			b.Write([]byte{0xde, 0, 1, 0xa1, 'k'})
		}
	}
	b.WriteByte(0xc3)
	b.Write(tail(50))
	d := msgpack.NewDecoder(b.Bytes())
	if err := d.Skip(); err != nil {
		return fmt.Errorf("skipping a value nested %d deep fails: %v", c.Depth, err)
	}
	for i := 0; i < 50; i++ {
		if got, err := d.ReadUint8(); err != nil || int(got) != i {
			return fmt.Errorf("after skipping a value nested %d deep the next value reads %d, %v instead of %d", c.Depth, got, err, i)
		}
	}
	return nil
}

var C06 = &kit.Property{
	ID:   "C06",
	Rule: "a case is a well-formed value of any kind in any wire format (including every ext form, nested) or an arbitrary byte string judged by a reference parser; non-trivial when it takes more than one byte",
	Facets: []kit.Facet{
		kit.F("well-formed", 36000, 300000, func(t *rapid.T) SkipCase {
			return SkipCase{genVal(2).Draw(t, "v"), rapid.IntRange(0, 3).Draw(t, "pre")}
		}, checkSkip).WithBatch(1500),
		kit.F("arbitrary", 120000, 800000, genData, checkSkipBytes).WithBatch(7500),
		kit.F("deep", 1800, 5000, func(t *rapid.T) DeepSkip {
			return DeepSkip{rapid.IntRange(0, 1000).Draw(t, "depth"), rapid.IntRange(0, 15).Draw(t, "kind")}
		}, checkDeepSkip).WithBatch(900),
	},
}
