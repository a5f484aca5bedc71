package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

type DynCase struct{ Vals []DV }

func genDynCase(max, depth int, big bool) func(t *rapid.T) DynCase {
	g := rapid.SliceOfN(genDyn(depth, big), 1, max)
	return func(t *rapid.T) DynCase { return DynCase{g.Draw(t, "vals")} }
}

func checkDyn(ctx *kit.Ctx, c DynCase) error {
	n := 0
	bound := 64
	for _, v := range c.Vals {
		labelTypes(v, ctx.Label)
		n += v.size()
		bound += v.bound()
	}
	ctx.NonTrivialIf(n > len(c.Vals) || len(c.Vals) > 1)
	buf := bytes.Repeat([]byte{0xC1}, bound)
	enc := msgpack.NewEncoder(buf)
	for _, v := range c.Vals {
		enc.WriteAny(v.value())
	}
	enc.WriteString("mark")
	if enc.Err() != nil {
		return fmt.Errorf("writing supported values fails: %v", enc.Err())
	}
	dec := msgpack.NewDecoder(buf)
	for i, v := range c.Vals {
		got, err := dec.ReadAny()
		if err != nil {
			return fmt.Errorf("value %d (%s): dynamic reader fails: %v", i, v.T, err)
		}
		if g, w := canonAny(got), v.canon(); g != w {
			return fmt.Errorf("value %d (%s): dynamic reader returns %s instead of %s", i, v.T, short(g), short(w))
		}
	}
	if s, err := dec.ReadString(); err != nil || s != "mark" {
		return fmt.Errorf("after reading %d values back the reader is not at the end of their bytes (%q, %v)", len(c.Vals), s, err)
	}
	return nil
}

func (v DV) bound() int {
	n := 32 + v.S.Len()
	for _, e := range v.L {
		n += e.bound()
	}
	for _, e := range v.KS {
		n += e.bound()
	}
	return n
}

type DeepCase struct {
	Depth int
	Kind  int // alternation pattern of lists and maps
}

// checkDeep nests containers deeply; the value must survive.
func checkDeep(ctx *kit.Ctx, c DeepCase) error {
	ctx.NonTrivialIf(c.Depth > 8)
	var v any = int64(-7)
	for i := 0; i < c.Depth; i++ {
		switch (c.Kind >> (i % 3)) & 1 {
		case 0:
			v = []any{v}
		default:
			v = map[string]any{"k": v}
		}
	}
	b, err := msgpack.AnyToBytes(v)
	if err != nil {
		return fmt.Errorf("depth %d: %v", c.Depth, err)
	}
	dec := msgpack.NewDecoder(b)
	got, err := dec.ReadAny()
	if err != nil {
		return fmt.Errorf("depth %d: reading back fails: %v", c.Depth, err)
	}
	for i := c.Depth - 1; i >= 0; i-- {
		switch g := got.(type) {
		case []any:
			if (c.Kind>>(i%3))&1 != 0 || len(g) != 1 {
				return fmt.Errorf("depth %d: wrong container at level %d", c.Depth, i)
			}
			got = g[0]
		case map[any]any:
			if (c.Kind>>(i%3))&1 == 0 || len(g) != 1 {
				return fmt.Errorf("depth %d: wrong container at level %d", c.Depth, i)
			}
			got = g["k"]
		case map[string]any:
			if (c.Kind>>(i%3))&1 == 0 || len(g) != 1 {
				return fmt.Errorf("depth %d: wrong container at level %d", c.Depth, i)
			}
			got = g["k"]
		default:
			return fmt.Errorf("depth %d: %T at level %d", c.Depth, got, i)
		}
	}
	if canonAny(got) != "i-7" {
		return fmt.Errorf("depth %d: innermost value is %v", c.Depth, got)
	}
	return nil
}

var C03 = &kit.Property{
	ID:   "C03",
	Rule: "a case is one or more dynamically typed values (every scalar, typed list and map type the writer supports, nested); non-trivial when it holds a container with elements or several values back to back",
	Assumptions: []string{
		"values are compared up to integer width and container type; float32 and float64 bit patterns must be preserved",
		"map keys are generated distinct by value; nesting up to 1000 levels",
	},
	Facets: []kit.Facet{
		kit.F("dynamic", 48000, 400000, genDynCase(3, 3, false), checkDyn).WithBatch(3000),
		kit.F("dynamic-large", 3000, 10000, genDynCase(2, 2, true), checkDyn).WithBatch(300),
		kit.F("long", 1200, 4000, func(t *rapid.T) DynCase { return DynCase{[]DV{genLong(t), genLong(t)}} }, checkDyn).WithBatch(75),
		kit.F("deep", 1200, 4000, func(t *rapid.T) DeepCase {
			return DeepCase{rapid.IntRange(0, 1000).Draw(t, "depth"), rapid.IntRange(0, 7).Draw(t, "kind")}
		}, checkDeep).WithBatch(600),
	},
}
