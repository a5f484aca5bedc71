package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// OpCase is one operation; names may be long.
type OpCase struct {
	Kind, Dir byte
	Index     uint32
	NS, Name  gen.Blob
	Reserved  int
}

func genOp(long bool) *rapid.Generator[OpCase] {
	return rapid.Custom(func(t *rapid.T) OpCase {
		name := func(n string) gen.Blob {
			switch rapid.IntRange(0, 9).Draw(t, n+"-mode") {
			case 0:
				if long {
					return gen.Blob{Rep: rapid.SampledFrom([]int{255, 256, 257, 32767, 32768, 65534, 65535}).Draw(t, n), Fill: 'a'}
				}
			case 1:
				return gen.Blob{}
			case 2:
				return gen.Blob{Head: rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, n)}
			}
			return gen.Blob{Head: []byte(rapid.StringMatching(`[a-z][a-zA-Z0-9.:_]{0,15}`).Draw(t, n))}
		}
		return OpCase{byte(rapid.IntRange(1, 4).Draw(t, "kind")), byte(rapid.IntRange(1, 2).Draw(t, "dir")), gen.U32().Draw(t, "index"), name("ns"), name("name"),
			rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 200}).Draw(t, "reserved")}
	})
}

func toRef(ops []OpCase, reserved bool) []rs.Op {
	out := make([]rs.Op, len(ops))
	for i, o := range ops {
		out[i] = rs.Op{Kind: o.Kind, Dir: o.Dir, Index: o.Index, NS: string(o.NS.Bytes()), Name: string(o.Name.Bytes())}
		if reserved {
			out[i].Reserved = bytes.Repeat([]byte{0xee}, o.Reserved)
		}
	}
	return out
}

func sameOps(want []rs.Op, got operations.Table) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d operations instead of %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if byte(g.Type) != w.Kind || byte(g.Direction) != w.Dir || g.Index != w.Index || g.Namespace != w.NS || g.Operation != w.Name {
			return fmt.Errorf("operation %d is kind %d, direction %d, index %d, %d+%d name bytes (%.20q.%.20q) instead of kind %d, direction %d, index %d, %d+%d name bytes (%.20q.%.20q)", i,
				g.Type, g.Direction, g.Index, len(g.Namespace), len(g.Operation), g.Namespace, g.Operation, w.Kind, w.Dir, w.Index, len(w.NS), len(w.Name), w.NS, w.Name)
		}
	}
	return nil
}

func checkTable(ctx *kit.Ctx, ops []OpCase) error {
	ctx.NonTrivialIf(len(ops) > 1)
	ref := toRef(ops, false)
	t := make(operations.Table, len(ref))
	for i, o := range ref {
		t[i] = operations.Operation{Index: o.Index, Type: operations.RequestType(o.Kind), Direction: operations.Direction(o.Dir), Namespace: o.NS, Operation: o.Name}
	}
	raw := t.ToBytes()
	if exp := rs.EncodeOps(ref); !bytes.Equal(raw, exp) {
		return fmt.Errorf("a table of %d operations serialises to %d bytes %x..., the layout prescribes %d bytes %x...", len(ops), len(raw), clip(raw), len(exp), clip(exp))
	}
	got, err := operations.FromBytes(raw)
	if err != nil {
		return fmt.Errorf("a serialised table of %d operations does not parse: %v", len(ops), err)
	}
	if err := sameOps(ref, got); err != nil {
		return fmt.Errorf("round trip: %v", err)
	}
	// The other side may fill the reserved field.
	withRes := toRef(ops, true)
	with := rs.EncodeOps(withRes)
	got, err = operations.FromBytes(with)
	if err != nil {
		return fmt.Errorf("a table with reserved bytes does not parse: %v", err)
	}
	for i := range with {
		with[i] = 0xa5 // The table stays as it is when its bytes are used for something else.
	}
	if err := sameOps(withRes, got); err != nil {
		return fmt.Errorf("a table with reserved bytes: %v", err)
	}
	// Truncations are errors.
	step := 1 + len(raw)/300
	for cut := 0; cut < len(raw); cut += step {
		part := append(make([]byte, 0, len(raw)+32), raw[:cut]...)
		if _, err := operations.FromBytes(part); err == nil {
			return fmt.Errorf("%d of the %d bytes of a table are accepted", cut, len(raw))
		}
	}
	return nil
}

func checkTableBytes(ctx *kit.Ctx, raw []byte) error {
	want, perr := rs.DecodeOps(raw)
	ctx.NonTrivialIf(len(raw) >= 10)
	var got operations.Table
	var err error
	a := kit.Alloc(func() { got, err = operations.FromBytes(raw) })
	if limit := uint64(len(raw))*100 + 1<<16; a > limit {
		return fmt.Errorf("parsing %d bytes (%x...) as a table allocates %d bytes", len(raw), clip(raw), a)
	}
	if perr != nil {
		ctx.Label("malformed")
		if err == nil {
			return fmt.Errorf("malformed table %x (%v) is accepted", clip(raw), perr)
		}
		return nil
	}
	ctx.Label("well-formed")
	if err != nil {
		for _, o := range want {
			if o.Kind < 1 || o.Kind > 4 || o.Dir < 1 || o.Dir > 2 {
				return nil // an unknown kind or direction may be refused
			}
		}
		if len(rs.EncodeOps(want)) < len(raw) {
			return nil // reserved or trailing bytes may be refused
		}
		return fmt.Errorf("well-formed table %x of %d operations is rejected: %v", clip(raw), len(want), err)
	}
	return sameOps(want, got)
}

func genTableBytes(t *rapid.T) []byte {
	if rapid.IntRange(0, 4).Draw(t, "random") == 0 {
		b := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
		if rapid.Bool().Draw(t, "magic") {
			b = append([]byte("\x00wrs\x00\x01"), b...)
		}
		return b
	}
	raw := rs.EncodeOps(toRef(rapid.SliceOfN(genOp(false), 0, 4).Draw(t, "ops"), rapid.Bool().Draw(t, "res")))
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "edits"); i < n && len(raw) > 0; i++ {
		p := rapid.IntRange(0, len(raw)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			raw[p] = rapid.SampledFrom([]byte{0, 1, 2, 3, 8, 0x7f, 0x80, 0xff}).Draw(t, "hot")
		case 1:
			raw = raw[:p]
		case 2:
			raw = append(raw[:p], raw[p+1:]...)
		case 3:
			if len(raw) > 9 {
				raw[rapid.IntRange(6, 9).Draw(t, "count")] = rapid.Byte().Draw(t, "b")
			}
		case 4:
			raw = append(raw, rapid.Byte().Draw(t, "extra"))
		}
	}
	return raw
}

// LongCase is an operation name too long for the layout's 16-bit length.
type LongCase struct {
	NSLen, NameLen int
	Before, After  int
}

// checkLong: a name that cannot be represented must not make the rest of the
// table unreadable or change other operations.
func checkLong(ctx *kit.Ctx, c LongCase) error {
	ctx.NonTrivial()
	var t operations.Table
	op := func(i int, ns, name string) operations.Operation {
		return operations.Operation{Index: uint32(i), Type: 1, Direction: operations.Export, Namespace: ns, Operation: name}
	}
	for i := 0; i < c.Before; i++ {
		t = append(t, op(i, "ns", fmt.Sprintf("before%d", i)))
	}
	long := op(c.Before, string(bytes.Repeat([]byte{'n'}, c.NSLen)), string(bytes.Repeat([]byte{'o'}, c.NameLen)))
	t = append(t, long)
	for i := 0; i < c.After; i++ {
		t = append(t, op(c.Before+1+i, "ns", fmt.Sprintf("after%d", i)))
	}
	got, err := operations.FromBytes(t.ToBytes())
	if err != nil {
		return fmt.Errorf("a table with a name of %d+%d bytes does not parse back: %v", c.NSLen, c.NameLen, err)
	}
	find := map[uint32]operations.Operation{}
	for _, g := range got {
		find[g.Index] = g
	}
	for i, w := range t {
		if i == c.Before {
			continue
		}
		if g, ok := find[w.Index]; !ok || g != w {
			return fmt.Errorf("a name of %d+%d bytes corrupts the operation at index %d: %.40v", c.NSLen, c.NameLen, w.Index, g)
		}
	}
	return nil
}

var W07 = &kit.Property{
	ID:          "W07",
	Rule:        "a case is a table of operations (names of every length up to 65535 bytes, any bytes) checked against an independent layout and all truncations, or an arbitrary or mutated byte string; non-trivial with at least two operations or ten bytes",
	Assumptions: []string{"a name longer than the layout's 65535-byte limit is outside the round trip; only the rest of such a table is checked"},
	Facets: []kit.Facet{
		kit.F("table", 8000, 80000, func(t *rapid.T) []OpCase { return rapid.SliceOfN(genOp(true), 0, 6).Draw(t, "ops") }, checkTable).WithBatch(1000),
		kit.F("bytes", 40000, 400000, genTableBytes, checkTableBytes).WithBatch(5000),
		kit.F("too-long", 60, 200, func(t *rapid.T) LongCase {
			l := func(n string) int { return rapid.SampledFrom([]int{3, 65535, 65536, 65537, 70000, 131072}).Draw(t, n) }
			return LongCase{l("ns"), l("name"), rapid.IntRange(0, 2).Draw(t, "before"), rapid.IntRange(0, 2).Draw(t, "after")}
		}, checkLong).WithBatch(15),
	},
}
