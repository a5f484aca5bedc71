package main

import (
	"bytes"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

var W08 = &kit.Property{
	ID:   "W08",
	Rule: "a case is non-trivial if a requested section is present among other sections, or if the module is malformed",
	Assumptions: []string{
		"of several sections with one requested name, either may be returned",
		"section ids beyond those of WebAssembly and the unused bits of a five-byte length may be accepted or rejected",
	},
	Facets: []kit.Facet{
		kit.F("modules", 30000, 1500000, genModule, checkModule).WithBatch(5000),
		kit.F("malformed", 40000, 3000000, genBadModule, checkBadModule).WithBatch(5000),
		kit.F("tables", 5000, 200000, genTableModule, checkTableModule).WithBatch(5000),
	},
}

// Sec is one section of a module.
type Sec struct {
	ID      byte
	Name    string // of a custom section
	Data    []byte
	Pad     int // extra bytes of the encoded section length
	NamePad int // extra bytes of the encoded name length
}

type Module struct {
	Secs   []Sec
	Wanted []string
}

func leb(n uint32, pad int) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			b = append(b, c)
			break
		}
		b = append(b, c|0x80)
	}
	for ; pad > 0 && len(b) < 5; pad-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (m Module) encode() []byte {
	b := []byte("\x00asm\x01\x00\x00\x00")
	for _, s := range m.Secs {
		body := s.Data
		if s.ID == 0 {
			body = append(append(leb(uint32(len(s.Name)), s.NamePad), s.Name...), s.Data...)
		}
		b = append(b, s.ID)
		b = append(b, leb(uint32(len(body)), s.Pad)...)
		b = append(b, body...)
	}
	return b
}

var secNames = []string{"", "a", "wasmrs_ops", "name", "wasmrs_op", "wasmrs_opss", "é", "日本語", "wasmrs_ops\x00"}

func genModule(t *rapid.T) Module {
	var m Module
	n := rapid.IntRange(0, 6).Draw(t, "nsecs")
	for i := 0; i < n; i++ {
		s := Sec{ID: byte(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 12)).Draw(t, "id")),
			Pad: rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "pad"), NamePad: rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "namepad")}
		if s.ID == 0 {
			s.Name = rapid.SampledFrom(secNames).Draw(t, "name")
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				s.Name = string(bytes.Repeat([]byte("n"), rapid.SampledFrom([]int{126, 127, 128, 129, 300}).Draw(t, "namelen")))
			}
		}
		s.Data = gen.BlobOf(false).Draw(t, "data").Bytes()
		m.Secs = append(m.Secs, s)
	}
	m.Wanted = rapid.SliceOfN(rapid.SampledFrom(secNames), 0, 3).Draw(t, "wanted")
	return m
}

// clean says whether no section was read wrongly given got.
func compareSections(m Module, got map[string][]byte) error {
	want := map[string][][]byte{}
	for _, w := range m.Wanted {
		for _, s := range m.Secs {
			if s.ID == 0 && s.Name == w {
				want[w] = append(want[w], s.Data)
			}
		}
	}
	for name, data := range got {
		ok := false
		for _, d := range want[name] {
			ok = ok || bytes.Equal(d, data)
		}
		if !ok {
			return fmt.Errorf("section %q is read as %x, want one of %x", name, clipb(data), want[name])
		}
	}
	for name := range want {
		if _, ok := got[name]; !ok {
			return fmt.Errorf("section %q is not found", name)
		}
	}
	return nil
}

func clipb(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// read runs the reader on raw within a memory bound.
func read(raw []byte, wanted []string) (map[string][]byte, error, error) {
	var got map[string][]byte
	var rerr error
	in := append([]byte{}, raw...)
	n := kit.Alloc(func() {
		secs, err := customsections.Read(in, wanted...)
		rerr = err
		if err == nil {
			got = map[string][]byte{}
			for k, s := range secs {
				if s == nil || s.Name != k {
					rerr = fmt.Errorf("section %q is returned under the name %q", s.Name, k)
					continue
				}
				got[k] = s.Data
			}
		}
	})
	if limit := uint64(64*len(raw) + 1<<16); n > limit {
		return nil, nil, fmt.Errorf("reading a module of %d bytes allocates %d bytes", len(raw), n)
	}
	if !bytes.Equal(in, raw) {
		return nil, nil, fmt.Errorf("reading a module changes its bytes")
	}
	return got, rerr, nil
}

func checkModule(ctx *kit.Ctx, m Module) error {
	raw := m.encode()
	got, rerr, err := read(raw, m.Wanted)
	if err != nil {
		return err
	}
	ctx.NonTrivialIf(len(got) > 0 && len(m.Secs) > 1)
	ctx.Label("%d found", len(got))
	if rerr != nil {
		return fmt.Errorf("the module %x is rejected: %v", clipb(raw), rerr)
	}
	return compareSections(m, got)
}

// --- malformed ---

type BadModule struct {
	Raw    []byte
	Wanted []string
}

func genBadModule(t *rapid.T) BadModule {
	m := genModule(t)
	raw := m.encode()
	for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0 && len(raw) > 0; n-- {
		hi := len(raw) - 1
		if rapid.Bool().Draw(t, "front") {
			hi = min(hi, 24)
		}
		p := rapid.IntRange(0, hi).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			raw[p] = rapid.Byte().Draw(t, "byte")
		case 1:
			raw = raw[:p]
		case 2:
			raw = append(raw[:p], raw[p+1:]...)
		case 3:
			raw[p] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(t, "edge")
		case 4:
			big := leb(gen.U32().Draw(t, "size"), 0)
			raw = append(raw[:p:p], append(big, raw[p:]...)...)
		case 5:
			raw = append(raw, 0)
			raw = append(raw, leb(gen.U32().Draw(t, "size"), 0)...)
			raw = append(raw, leb(gen.U32().Draw(t, "nsize"), 0)...)
			raw = append(raw, rapid.SampledFrom(secNames).Draw(t, "name")...)
		}
	}
	return BadModule{raw, m.Wanted}
}

var errBad = errors.New("malformed")

// refLeb decodes a 32-bit length; odd means that readers may differ.
func refLeb(b []byte) (v uint32, n int, odd bool, err error) {
	var x uint64
	for i := 0; i < 5; i++ {
		if i >= len(b) {
			return 0, 0, false, errBad
		}
		x |= uint64(b[i]&0x7f) << (7 * i)
		if b[i]&0x80 == 0 {
			if x > 0xffffffff {
				return 0, 0, true, errBad
			}
			return uint32(x), i + 1, false, nil
		}
	}
	return 0, 0, false, errBad
}

// refWalk is the reference reader.
func refWalk(raw []byte) (m Module, odd bool, err error) {
	if len(raw) < 8 || string(raw[:8]) != "\x00asm\x01\x00\x00\x00" {
		return m, false, errBad
	}
	b := raw[8:]
	for len(b) > 0 {
		s := Sec{ID: b[0]}
		odd = odd || s.ID > 13
		size, n, o, err := refLeb(b[1:])
		odd = odd || o
		if err != nil {
			return m, odd, err
		}
		b = b[1+n:]
		if uint64(len(b)) < uint64(size) {
			return m, odd, errBad
		}
		body := b[:size]
		b = b[size:]
		if s.ID == 0 {
			ns, k, o, err := refLeb(body)
			odd = odd || o
			if err != nil || uint64(len(body)-k) < uint64(ns) {
				return m, odd, errBad
			}
			name := body[k : k+int(ns)]
			if !utf8.Valid(name) {
				return m, odd, errBad
			}
			s.Name, body = string(name), body[k+int(ns):]
		}
		s.Data = body
		m.Secs = append(m.Secs, s)
	}
	return m, odd, nil
}

func checkBadModule(ctx *kit.Ctx, c BadModule) error {
	m, odd, werr := refWalk(c.Raw)
	m.Wanted = c.Wanted
	got, rerr, err := read(c.Raw, c.Wanted)
	if err != nil {
		return err
	}
	if werr != nil {
		ctx.NonTrivial()
		ctx.Label("malformed")
		if rerr == nil && !odd {
			return fmt.Errorf("the malformed module %x is accepted as %x", clipb(c.Raw), got)
		}
		return nil
	}
	ctx.Label("well-formed")
	if rerr != nil {
		if odd {
			return nil
		}
		return fmt.Errorf("the module %x is rejected: %v", clipb(c.Raw), rerr)
	}
	return compareSections(m, got)
}

// --- operation tables in their section ---

type TableModule struct {
	M   Module
	Ops []TableOp
	At  int
}

type TableOp struct {
	Index     uint32
	Type, Dir int
	Ns, Op    string
}

func genTableModule(t *rapid.T) TableModule {
	c := TableModule{M: genModule(t), At: rapid.IntRange(0, 6).Draw(t, "at")}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nops"); i < n; i++ {
		c.Ops = append(c.Ops, TableOp{gen.U32().Draw(t, "index"), rapid.IntRange(1, 4).Draw(t, "type"), rapid.IntRange(1, 2).Draw(t, "dir"),
			rapid.SampledFrom(secNames).Draw(t, "ns"), rapid.SampledFrom(secNames).Draw(t, "op")})
	}
	return c
}

func checkTableModule(ctx *kit.Ctx, c TableModule) error {
	var table operations.Table
	for _, o := range c.Ops {
		table = append(table, operations.Operation{Index: o.Index, Type: operations.RequestType(o.Type), Direction: operations.Direction(o.Dir), Namespace: o.Ns, Operation: o.Op})
	}
	at := min(c.At, len(c.M.Secs))
	var m Module
	for _, s := range c.M.Secs {
		if s.ID == 0 && s.Name == "wasmrs_ops" {
			s.Name = "other"
		}
		m.Secs = append(m.Secs, s)
	}
	m.Secs = append(m.Secs[:at:at], append([]Sec{{Name: "wasmrs_ops", Data: table.ToBytes()}}, m.Secs[at:]...)...)
	ctx.NonTrivialIf(len(m.Secs) > 1 && len(c.Ops) > 0)
	got, rerr, err := read(m.encode(), []string{"wasmrs_ops"})
	if err != nil {
		return err
	}
	if rerr != nil || len(got) != 1 {
		return fmt.Errorf("the operations section is not read: %v, %v", got, rerr)
	}
	back, err := operations.FromBytes(got["wasmrs_ops"])
	if err != nil {
		return fmt.Errorf("the table of the section is rejected: %v", err)
	}
	if len(back) != len(table) {
		return fmt.Errorf("the section holds %d operations of %d", len(back), len(table))
	}
	for i := range table {
		if back[i] != table[i] {
			return fmt.Errorf("operation %d is read as %v, want %v", i, back[i], table[i])
		}
	}
	return nil
}
