package main

import (
	"bytes"
	"fmt"
	"sort"
	"unicode/utf8"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// OpCase is one operation.
type OpCase struct {
	Kind, Dir byte
	Index     uint32
	NS, Name  gen.Blob
}

func (o OpCase) names() (string, string) {
	f := func(b gen.Blob) string { return string(bytes.ToValidUTF8(b.Bytes(), []byte("ü"))) }
	return f(o.NS), f(o.Name)
}

func genOp(long bool) *rapid.Generator[OpCase] {
	return rapid.Custom(func(t *rapid.T) OpCase {
		name := func(n string) gen.Blob {
			switch rapid.IntRange(0, 9).Draw(t, n+"-mode") {
			case 0:
				if long {
					return gen.Blob{Rep: rapid.SampledFrom([]int{255, 256, 257, 32767, 32768, 65534, 65535}).Draw(t, n), Fill: 'a'}
				}
			case 1:
				return gen.Blob{}
			case 2:
				return gen.Blob{Head: []byte(rapid.StringN(0, 8, 30).Draw(t, n))}
			case 3:
				return gen.Blob{Head: []byte(rapid.StringMatching(`[a-z][a-zA-Z0-9.:_]{0,15}`).Draw(t, n))}
			}
			return gen.Blob{Head: []byte(rapid.SampledFrom([]string{"a", "b", "ab", "A", "a.b", "a:b"}).Draw(t, n))}
		}
		return OpCase{byte(rapid.IntRange(1, 4).Draw(t, "kind")), byte(rapid.IntRange(1, 2).Draw(t, "dir")), gen.U32().Draw(t, "index"), name("ns"), name("name")}
	})
}

// TableCase is a sequence of registrations, and lookups of operations which
// need not be registered.
type TableCase struct {
	Ops     []OpCase
	Lookups []OpCase
	Also    []int // operations looked up, too
}

func genTable(long bool) func(*rapid.T) TableCase {
	return func(t *rapid.T) TableCase {
		return TableCase{
			Ops:     rapid.SliceOfN(genOp(long), 0, 12).Draw(t, "ops"),
			Lookups: rapid.SliceOfN(genOp(false), 0, 8).Draw(t, "lookups"),
			Also:    rapid.SliceOfN(rapid.IntRange(0, 11), 0, 8).Draw(t, "also"),
		}
	}
}

type rustOp struct {
	Kind  byte   `json:"kind"`
	Dir   byte   `json:"dir"`
	Index uint32 `json:"index"`
	NS    string `json:"ns"`
	Name  string `json:"name"`
}

// sorted is a table in an order of its own: what counts is which operations
// are in it.
func sorted(ops []rs.Op) []string {
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("kind %d, direction %d, index %d, %q.%q", o.Kind, o.Dir, o.Index, o.NS, o.Name))
	}
	sort.Strings(out)
	return out
}

func sameTables(want, got []rs.Op) error {
	w, g := sorted(want), sorted(got)
	for i := 0; i < len(w) || i < len(g); i++ {
		switch {
		case i >= len(g):
			return fmt.Errorf("operation %.200s is missing", w[i])
		case i >= len(w):
			return fmt.Errorf("operation %.200s is made up", g[i])
		case w[i] != g[i]:
			return fmt.Errorf("there is operation %.200s instead of %.200s", g[i], w[i])
		}
	}
	return nil
}

func checkTable(ctx *kit.Ctx, c TableCase) error {
	ctx.NonTrivialIf(len(c.Ops) > 1)
	var ref []rs.Op
	arg := struct {
		Ops     []rustOp `json:"ops"`
		Lookups [][]any  `json:"lookups"`
	}{[]rustOp{}, [][]any{}}
	for _, o := range c.Ops {
		ns, name := o.names()
		ref = append(ref, rs.Op{Kind: o.Kind, Dir: o.Dir, Index: o.Index, NS: ns, Name: name})
		arg.Ops = append(arg.Ops, rustOp{o.Kind, o.Dir, o.Index, ns, name})
	}
	lookups := c.Lookups
	for _, i := range c.Also {
		if i < len(c.Ops) {
			o := c.Ops[i]
			lookups = append(lookups, o)
			o.Dir = 3 - o.Dir
			lookups = append(lookups, o)
		}
	}
	for _, o := range lookups {
		ns, name := o.names()
		arg.Lookups = append(arg.Lookups, []any{o.Dir, ns, name})
	}
	var a struct {
		Bytes, Decoded hexed
		Found          []*uint32
		FoundDecoded   []*uint32 `json:"found_decoded"`
		Error          string
	}
	if _, err := ask("ops", arg, &a); err != nil {
		return fmt.Errorf("a table of %d operations: %v", len(ref), err)
	}
	got, err := rs.DecodeOps(a.Bytes)
	if err == nil {
		err = sameTables(ref, got)
	}
	if err == nil && !bytes.Equal(rs.EncodeOps(got), a.Bytes) {
		err = fmt.Errorf("the layout prescribes %x...", clip(rs.EncodeOps(got)))
	}
	if err != nil {
		return fmt.Errorf("a table of %d operations is encoded to %d bytes %x...: %v", len(ref), len(a.Bytes), clip(a.Bytes), err)
	}
	if a.Error != "" {
		return fmt.Errorf("the encoding of a table of %d operations is not decoded: %s", len(ref), a.Error)
	}
	got, err = rs.DecodeOps(a.Decoded)
	if err == nil {
		err = sameTables(ref, got)
	}
	if err != nil {
		return fmt.Errorf("a table of %d operations is decoded to another: %v", len(ref), err)
	}
	for i, o := range lookups {
		ns, name := o.names()
		may := map[uint32]bool{}
		for _, r := range ref {
			if r.Dir == o.Dir && r.NS == ns && r.Name == name {
				may[r.Index] = true
			}
		}
		ctx.Label("lookup-of-%d", min(len(may), 2))
		for _, f := range []*uint32{a.Found[i], a.FoundDecoded[i]} {
			switch {
			case f == nil && len(may) > 0:
				return fmt.Errorf("operation %.50q.%.50q of direction %d is not found, though it is registered", ns, name, o.Dir)
			case f != nil && !may[*f]:
				return fmt.Errorf("looking up operation %.50q.%.50q of direction %d yields index %d; registered are %v", ns, name, o.Dir, *f, may)
			}
		}
	}
	return nil
}

var X03 = &kit.Property{
	ID:   "X03",
	Rule: "a case is a sequence of registrations of imported and exported operations and of lookups; non-trivial when more than one operation is registered",
	Assumptions: []string{
		"namespaces and names take at most 65535 bytes, as the layout requires",
		"where several operations of a direction share namespace and name, the index of any of them is right: the lookup is not told the kind",
	},
	Facets: []kit.Facet{
		kit.F("table", 60000, 900000, genTable(false), checkTable).WithBatch(5000),
		kit.F("long", 1500, 15000, genTable(true), checkTable).WithBatch(200),
	},
}

func genTableBytes(t *rapid.T) RawCase {
	if rapid.IntRange(0, 4).Draw(t, "random") == 0 {
		b := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
		if rapid.Bool().Draw(t, "magic") {
			b = append([]byte("\x00wrs\x00\x01"), b...)
		}
		return RawCase{b}
	}
	var ops []rs.Op
	for _, o := range rapid.SliceOfN(genOp(false), 0, 4).Draw(t, "ops") {
		ns, name := o.names()
		ops = append(ops, rs.Op{Kind: o.Kind, Dir: o.Dir, Index: o.Index, NS: ns, Name: name, Reserved: make([]byte, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 200}).Draw(t, "reserved"))})
	}
	raw := rs.EncodeOps(ops)
	return RawCase{mutate(t, raw, len(raw))}
}

func checkTableBytes(ctx *kit.Ctx, c RawCase) error {
	want, perr := rs.DecodeOps(c.Data)
	ctx.NonTrivialIf(len(c.Data) >= 10)
	var a struct {
		Encoded *hexed
		Error   string
	}
	peak, err := ask("decode_ops", c.Data, &a)
	if err != nil {
		return fmt.Errorf("decoding %d bytes %x as a table: %v", len(c.Data), clip(c.Data), err)
	}
	if limit := 100*len(c.Data) + 1<<15; peak > limit {
		return fmt.Errorf("decoding %d bytes %x as a table takes %d bytes of memory", len(c.Data), clip(c.Data), peak)
	}
	if perr != nil {
		ctx.Label("malformed")
		if a.Encoded != nil {
			return fmt.Errorf("the malformed table %x (%v) is accepted", clip(c.Data), perr)
		}
		return nil
	}
	ctx.Label("well-formed")
	odd := false // what a table may be refused for
	for _, o := range want {
		odd = odd || o.Kind < 1 || o.Kind > 4 || o.Dir < 1 || o.Dir > 2 || !utf8.ValidString(o.NS) || !utf8.ValidString(o.Name)
	}
	if a.Encoded == nil {
		if odd || trailing(want, c.Data) {
			return nil
		}
		return fmt.Errorf("the well-formed table %x of %d operations is rejected: %s", clip(c.Data), len(want), a.Error)
	}
	if odd {
		return nil
	}
	got, err := rs.DecodeOps(*a.Encoded)
	if err == nil {
		err = sameTables(want, got)
	}
	if err != nil {
		return fmt.Errorf("decoding the table %x: %v", clip(c.Data), err)
	}
	return nil
}

// trailing says that raw goes on behind the table.
func trailing(ops []rs.Op, raw []byte) bool {
	_, err := rs.DecodeOps(raw[:len(raw)-1])
	return err == nil
}
