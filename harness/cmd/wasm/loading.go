package main

import (
	"context"
	"encoding/binary"
	"fmt"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// ModAct is what a function of a generated module does.
type ModAct struct {
	Do   string // buffers, table, send, grow, trap, wipe (what it announced as its table)
	A, B uint32
}

// ModFn is an exported function of a generated module.
type ModFn struct {
	Absent bool
	Sig    string // "": as it should be; none, i64, more, result: another one
	Acts   []ModAct
}

// ModCase is a module and what is done with its instance.
type ModCase struct {
	Pages     int // of memory (-1: the module has none)
	Hidden    bool
	Start     bool // it has a start function
	StartDoes []ModAct
	Init      ModFn
	Ret       uint32 // what it returns
	List      ModFn
	Send      ModFn
	Ops       []rs.Op
	Cut       int // bytes cut off the table
	Edit      int // a byte of the table that is changed (-1: none)
	To        byte
	Reply     []byte // where the receive buffer is
	Calls     []int  // kinds of calls that are made
	Close     bool
}

const (
	modTableAt = 1 << 10
	modSendAt  = 8 << 10
	modRecvAt  = 32 << 10
)

func genModCase(t *rapid.T) ModCase {
	c := ModCase{Pages: rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 0, -1}).Draw(t, "pages"), Edit: -1, Ret: 1}
	c.Hidden = rapid.IntRange(0, 5).Draw(t, "memory not exported") == 0
	good := rapid.Bool().Draw(t, "orderly")
	rare := func(n int, what string) bool { return !good && rapid.IntRange(0, n).Draw(t, what) == 0 }
	if rapid.IntRange(0, 5).Draw(t, "start") == 0 {
		c.Start = true
		if rare(1, "start does") {
			c.StartDoes = []ModAct{{Do: rapid.SampledFrom([]string{"trap", "buffers", "table", "send", "grow"}).Draw(t, "start act"), A: 1, B: 2}}
		}
	}
	if good && c.Pages < 1 {
		c.Pages = 1
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "ops"); i < n; i++ {
		c.Ops = append(c.Ops, rs.Op{Kind: uint8(rapid.IntRange(1, 4).Draw(t, "kind")), Dir: uint8(rapid.IntRange(1, 2).Draw(t, "direction")),
			Index: rapid.SampledFrom([]uint32{0, 1, 2, 7, 100}).Draw(t, "index"),
			NS:    rapid.SampledFrom([]string{"", "ns", "a.b"}).Draw(t, "namespace"), Name: rapid.SampledFrom([]string{"", "op", "x"}).Draw(t, "name")})
	}
	size := uint32(len(rs.EncodeOps(c.Ops)))
	switch {
	case rare(3, "cut"):
		c.Cut = rapid.IntRange(1, int(size)).Draw(t, "cut by")
	case rare(3, "edit"):
		c.Edit, c.To = rapid.IntRange(0, int(size)-1).Draw(t, "edit at"), rapid.SampledFrom([]byte{0, 1, 2, 0x7f, 0x80, 0xff}).Draw(t, "edit to")
	}
	size -= uint32(c.Cut)
	places := []uint32{0, 1, 65536 - 16384, 65536 - 16383, 65535, 65536, 131072, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 16384}
	bufs := ModAct{Do: "buffers", A: modSendAt, B: modRecvAt}
	if rare(3, "odd send buffer") {
		bufs.A = rapid.SampledFrom(places).Draw(t, "send buffer")
	}
	if rare(3, "odd receive buffer") {
		bufs.B = rapid.SampledFrom(places).Draw(t, "receive buffer")
	}
	table := ModAct{Do: "table", A: modTableAt, B: size}
	if rare(4, "odd table") {
		table.A = rapid.SampledFrom(places).Draw(t, "table at")
	}
	if rare(6, "odd table size") {
		table.B = rapid.SampledFrom([]uint32{0, 1, 9, 1 << 16, 1<<31 - 1, 1<<32 - 1}).Draw(t, "table size")
	}
	if !rare(4, "no buffers") {
		c.Init.Acts = append(c.Init.Acts, bufs)
	}
	extra := func(f *ModFn, what string) {
		if rare(4, what) {
			a := ModAct{Do: rapid.SampledFrom([]string{"trap", "send", "grow"}).Draw(t, "act"), A: rapid.SampledFrom([]uint32{0, 1, 3, 9, 16384, 65536, 1<<32 - 1}).Draw(t, "a")}
			if a.Do == "grow" {
				a.A = 1
			}
			if rapid.Bool().Draw(t, "first") {
				f.Acts = append([]ModAct{a}, f.Acts...)
			} else {
				f.Acts = append(f.Acts, a)
			}
		}
	}
	if !rare(4, "no table") {
		if rapid.IntRange(0, 4).Draw(t, "early table") == 0 {
			c.Init.Acts = append(c.Init.Acts, table)
		} else {
			c.List.Acts = append(c.List.Acts, table)
		}
	}
	// The memory of the table may be used for something else at once.
	wipe := ModAct{Do: "wipe", A: modTableAt, B: size}
	for _, f := range []*ModFn{&c.Init, &c.List} {
		if n := len(f.Acts); n > 0 && f.Acts[n-1].Do == "table" && rapid.IntRange(0, 2).Draw(t, "wipes") == 0 {
			f.Acts = append(f.Acts, wipe)
		}
	}
	extra(&c.Init, "init also")
	extra(&c.List, "list also")
	if rare(6, "refuses") {
		c.Ret = 0
	}
	for _, f := range []*ModFn{&c.Init, &c.List, &c.Send} {
		f.Absent = rare(9, "absent")
		if rare(9, "signature") {
			f.Sig = rapid.SampledFrom([]string{"none", "i64", "more", "result"}).Draw(t, "as")
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "send wipes") == 0 {
		c.Send.Acts = append(c.Send.Acts, wipe)
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "send does"); i < n; i++ {
		a := ModAct{Do: rapid.SampledFrom([]string{"send", "send", "send", "grow", "trap", "buffers"}).Draw(t, "act")}
		switch a.Do {
		case "send":
			a.A = rapid.SampledFrom([]uint32{0, 1, 3, 9, 20, 40, 16384, 16385, 65536, 1<<32 - 1}).Draw(t, "n")
		case "grow":
			a.A = uint32(rapid.IntRange(0, 3).Draw(t, "by"))
		case "buffers":
			a.A, a.B = rapid.SampledFrom(places).Draw(t, "send buffer"), rapid.SampledFrom(places).Draw(t, "receive buffer")
		}
		c.Send.Acts = append(c.Send.Acts, a)
	}
	if rapid.Bool().Draw(t, "reply") {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "frames"); i < n; i++ {
			f := rs.Frame{ID: uint32(rapid.IntRange(0, 9).Draw(t, "id")), Type: rapid.IntRange(rs.TRequestResponse, rs.TError).Draw(t, "type"), Next: true,
				Complete: rapid.Bool().Draw(t, "complete"), N: 1, Data: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "data")}
			b := f.Encode()
			c.Reply = append(append(c.Reply, 0, 0, byte(len(b))), b...)
		}
		if rapid.Bool().Draw(t, "damaged") {
			c.Reply[rapid.IntRange(0, len(c.Reply)-1).Draw(t, "damage at")] = rapid.Byte().Draw(t, "damage")
		}
	}
	c.Calls = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "calls")
	c.Close = rapid.Bool().Draw(t, "close")
	return c
}

func (c *ModCase) table() []byte {
	b := rs.EncodeOps(c.Ops)
	b = b[:len(b)-c.Cut]
	if c.Edit >= 0 && c.Edit < len(b) {
		b[c.Edit] = c.To
	}
	return b
}

// Types of functions, in the order of the type section.
var modTypes = [][2]string{
	{"ii", ""}, {"i", ""}, {"", ""}, {"iii", "i"}, {"iii", ""}, {"l", ""}, {"iiii", ""}, {"", "i"}, {"i", "i"}, {"iii", "l"},
}

func modType(params, results string) int {
	for i, t := range modTypes {
		if t[0] == params && t[1] == results {
			return i
		}
	}
	kit.Bug("no such type")
	return 0
}

// typeOf is the type of an exported function: "init", "list" or "send".
func (f *ModFn) typeOf(which string) int {
	switch f.Sig {
	case "none":
		if which == "init" {
			return modType("", "i")
		}
		if which == "list" {
			return modType("i", "")
		}
		return modType("", "")
	case "i64":
		return modType("l", "")
	case "more":
		return modType("iiii", "")
	case "result":
		switch which {
		case "init":
			return modType("iii", "") // one less
		case "list":
			return modType("", "i")
		}
		return modType("i", "i")
	}
	return map[string]int{"init": modType("iii", "i"), "list": modType("", ""), "send": modType("i", "")}[which]
}

func sleb(b []byte, v int32) []byte {
	for {
		x := byte(v & 0x7f)
		v >>= 7
		if v == 0 && x&0x40 == 0 || v == -1 && x&0x40 != 0 {
			return append(b, x)
		}
		b = append(b, x|0x80)
	}
}

func modBody(acts []ModAct, result string, ret uint32) []byte {
	b := []byte{0} // no locals
	num := func(v uint32) { b = sleb(append(b, 0x41), int32(v)) }
	for _, a := range acts {
		switch a.Do {
		case "buffers":
			num(a.A)
			num(a.B)
			b = append(b, 0x10, 0)
		case "table":
			num(a.A)
			num(a.B)
			b = append(b, 0x10, 1)
		case "send":
			// A limited number of times: the host may answer what it gets, and
			// is not to be kept busy for ever.
			b = append(b, 0x23, 0, 0x04, 0x40, 0x23, 0, 0x41, 1, 0x6b, 0x24, 0)
			num(a.A)
			b = append(b, 0x10, 2, 0x0b)
		case "grow":
			num(a.A)
			b = append(b, 0x40, 0, 0x1a)
		case "wipe":
			num(a.A)
			num(0xa5)
			num(a.B)
			b = append(b, 0xfc, 0x0b, 0)
		case "trap":
			b = append(b, 0)
		}
	}
	switch result {
	case "i":
		num(ret)
	case "l":
		b = append(b, 0x42, 1)
	}
	return append(b, 0x0b)
}

// module assembles the module.
func (c *ModCase) module() []byte {
	str := func(b []byte, s string) []byte { return append(binary.AppendUvarint(b, uint64(len(s))), s...) }
	m := []byte("\x00asm\x01\x00\x00\x00")
	section := func(id byte, n int, body []byte) {
		body = append(binary.AppendUvarint(nil, uint64(n)), body...)
		m = append(m, id)
		m = append(binary.AppendUvarint(m, uint64(len(body))), body...)
	}
	var b []byte
	val := map[rune]byte{'i': 0x7f, 'l': 0x7e}
	for _, t := range modTypes {
		b = append(b, 0x60)
		for _, s := range t {
			b = append(b, byte(len(s)))
			for _, r := range s {
				b = append(b, val[r])
			}
		}
	}
	section(1, len(modTypes), b)
	b = nil
	for _, i := range []struct {
		name string
		t    int
	}{{"__init_buffers", 0}, {"__op_list", 0}, {"__send", 1}} {
		b = append(str(str(b, "wasmrs"), i.name), 0, byte(i.t))
	}
	section(2, 3, b)
	type fn struct {
		export string
		f      *ModFn
		t      int
	}
	fns := []fn{{"__wasmrs_init", &c.Init, c.Init.typeOf("init")}, {"__wasmrs_op_list_request", &c.List, c.List.typeOf("list")}, {"__wasmrs_send", &c.Send, c.Send.typeOf("send")}}
	if c.Start {
		fns = append(fns, fn{"_start", &ModFn{Acts: c.StartDoes}, modType("", "")})
	}
	b = nil
	for _, f := range fns {
		b = append(b, byte(f.t))
	}
	section(3, len(fns), b)
	if c.Pages >= 0 {
		section(5, 1, []byte{0, byte(c.Pages)})
	}
	section(6, 1, []byte{0x7f, 1, 0x41, 20, 0x0b})
	b = nil
	n := 0
	for i, f := range fns {
		if !f.f.Absent {
			b = append(str(b, f.export), 0, byte(3+i))
			n++
		}
	}
	if c.Pages >= 0 && !c.Hidden {
		b = append(str(b, "memory"), 2, 0)
		n++
	}
	section(7, n, b)
	b = nil
	for _, f := range fns {
		body := modBody(c.acts(f.f), modTypes[f.t][1], c.Ret)
		b = append(binary.AppendUvarint(b, uint64(len(body))), body...)
	}
	section(10, len(fns), b)
	if c.Pages > 0 {
		b = nil
		n = 0
		for _, d := range []struct {
			at   int32
			data []byte
		}{{modTableAt, c.table()}, {modRecvAt, c.Reply}} {
			if len(d.data) > 0 {
				b = append(sleb(append(b, 0, 0x41), d.at), 0x0b)
				b = str(b, string(d.data))
				n++
			}
		}
		if n > 0 {
			section(11, n, b)
		}
	}
	return m
}

// acts leaves out what a module without a memory cannot do.
func (c *ModCase) acts(f *ModFn) []ModAct {
	var out []ModAct
	for _, a := range f.Acts {
		if a.Do != "grow" && a.Do != "wipe" || c.Pages >= 0 {
			out = append(out, a)
		}
	}
	return out
}

// verdict says whether the module can be loaded, and its table. Some oddities
// may or may not be accepted.
func (c *ModCase) verdict() (ok, maybe bool, why string, ops []rs.Op) {
	no := func(w string) (bool, bool, string, []rs.Op) { return false, false, w, nil }
	for _, f := range []struct {
		what string
		f    *ModFn
	}{{"init", &c.Init}, {"list", &c.List}, {"send", &c.Send}} {
		if f.f.Absent {
			return no("it does not export " + f.what)
		}
		switch f.f.Sig {
		case "":
		case "result":
			maybe = true
		default:
			if f.what == "send" && f.f.Sig != "" || f.what != "send" {
				return no("the parameters of " + f.what + " are others")
			}
		}
	}
	if c.Pages < 0 {
		return no("it has no memory")
	}
	if c.Hidden {
		maybe = true // its memory is not exported
	}
	for _, a := range c.StartDoes {
		switch a.Do {
		case "trap":
			return no("its start function traps")
		case "buffers", "table", "send":
			maybe = true // before there is an instance
		}
	}
	pages := uint64(c.Pages)
	if c.Start {
		for _, a := range c.StartDoes {
			if a.Do == "grow" {
				pages += uint64(a.A)
			}
		}
	}
	inside := func(p, n uint32) bool { return uint64(p)+uint64(n) <= pages<<16 }
	announced := false
	for _, f := range []*ModFn{&c.Init, &c.List} {
		for _, a := range f.Acts {
			switch a.Do {
			case "trap":
				return no("it traps")
			case "grow":
				pages += uint64(a.A)
			case "buffers":
				announced = true
				if !inside(a.A, bufSize) || !inside(a.B, bufSize) {
					if uint64(a.A)+bufSize <= (pages+2)<<16 && uint64(a.B)+bufSize <= (pages+2)<<16 {
						maybe = true // the memory may grow before they are looked at
						continue
					}
					return no("its buffers lie outside its memory")
				}
			case "wipe":
				if c.Pages >= 0 && !inside(a.A, a.B) {
					return no("it traps")
				}
			case "table":
				if !inside(a.A, a.B) {
					return no("its table lies outside its memory")
				}
				mem := make([]byte, pages<<16)
				if c.Pages > 0 {
					copy(mem[modTableAt:], c.table())
					copy(mem[modRecvAt:], c.Reply)
				}
				var err error
				if ops, err = rs.DecodeOps(mem[a.A : a.A+a.B]); err != nil {
					return no("its table is malformed")
				}
				for _, o := range ops {
					if o.Kind < 1 || o.Kind > 4 || o.Dir < 1 || o.Dir > 2 {
						maybe = true
					}
				}
				if len(rs.EncodeOps(ops)) < int(a.B) {
					maybe = true
				}
			}
		}
		if f == &c.Init && c.Ret == 0 && c.Init.Sig == "" {
			return no("its initialisation fails")
		}
	}
	if !announced {
		return no("it announces no buffers")
	}
	return true, maybe, "", ops
}

func checkLoading(ctx *kit.Ctx, c ModCase) error {
	bg := context.Background()
	h, err := host.New(bg)
	if err != nil {
		return ctx.Inconclusive("creating a host: %v", err)
	}
	ok, maybe, why, ops := c.verdict()
	var inst *host.Instance
	m, err := h.Compile(bg, c.module())
	if err != nil {
		return ctx.Inconclusive("the generated module is not valid: %v", err)
	}
	inst, err = m.Instantiate(bg)
	if err == nil && inst == nil {
		return fmt.Errorf("loading the module gives neither an instance nor an error")
	}
	if err != nil {
		ctx.Label("rejected")
		ctx.NonTrivialIf(!ok)
		if ok && !maybe {
			return fmt.Errorf("a module that keeps to the protocol is rejected: %v", err)
		}
		return loadsAfterwards(bg, h)
	}
	defer func() {
		inst.Close()
		kit.Quiesce(quiesceLimit)
	}()
	if !ok && !maybe {
		return fmt.Errorf("a module is loaded although %s", why)
	}
	ctx.Label("loaded")
	ctx.NonTrivialIf(len(ops) > 0)
	if ok {
		if err := sameTable(inst.Operations(), ops); err != nil {
			return err
		}
	}
	for i, kind := range c.Calls {
		p := payload.New([]byte{byte(i)}, make([]byte, 8))
		in := flux.FromSlice([]payload.Payload{payload.New(nil), payload.New([]byte("x"))})
		done := flux.Subscribe[payload.Payload]{OnRequest: func(s rx.Subscription) { s.Request(2) }}
		switch kind {
		case 0:
			inst.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{})
		case 1:
			inst.FireAndForget(bg, p)
		case 2:
			inst.RequestStream(bg, p).Subscribe(done)
		case 3:
			inst.RequestChannel(bg, p, in).Subscribe(done)
		}
		if i == 0 && c.Close {
			if err := kit.Quiesce(quiesceLimit); err != nil {
				return ctx.Inconclusive("%v", err)
			}
		}
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	if ok && len(c.Calls) > 0 {
		ctx.Label("called")
		if err := sameTable(inst.Operations(), ops); err != nil {
			return fmt.Errorf("after calls: %w", err)
		}
	}
	return nil
}

// loadsAfterwards loads a module that keeps to the protocol into a host that
// rejected another one.
func loadsAfterwards(ctx context.Context, h *host.Host) error {
	c := ModCase{Pages: 1, Edit: -1, Ret: 1, Ops: []rs.Op{{Kind: 1, Dir: 1, NS: "n", Name: "o"}}}
	c.Init.Acts = []ModAct{{Do: "buffers", A: modSendAt, B: modRecvAt}}
	c.List.Acts = []ModAct{{Do: "table", A: modTableAt, B: uint32(len(c.table()))}}
	m, err := h.Compile(ctx, c.module())
	if err != nil {
		return fmt.Errorf("after another module was rejected, one that keeps to the protocol cannot be compiled: %v", err)
	}
	inst, err := m.Instantiate(ctx)
	if err != nil {
		return fmt.Errorf("after another module was rejected, one that keeps to the protocol cannot be loaded: %v", err)
	}
	defer func() {
		inst.Close()
		kit.Quiesce(quiesceLimit)
	}()
	return sameTable(inst.Operations(), c.Ops)
}

func sameTable(got operations.Table, want []rs.Op) error {
	if len(got) != len(want) {
		return fmt.Errorf("the instance lists %d operations, the module announces %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if g.Index != w.Index || uint8(g.Type) != w.Kind || uint8(g.Direction) != w.Dir || g.Namespace != w.NS || g.Operation != w.Name {
			return fmt.Errorf("operation %d of the instance is %+v, the module announces %+v", i, g, w)
		}
	}
	return nil
}

var H04 = &kit.Property{
	ID:          "H04",
	Rule:        "the module is rejected for a reason, or loaded with at least one operation",
	Assumptions: []string{"modules are assembled from a fixed set of actions; they end (no endless loops)"},
	Facets: []kit.Facet{
		kit.F("loading", 20000, 600000, genModCase, checkLoading).WithBatch(150),
	},
}
