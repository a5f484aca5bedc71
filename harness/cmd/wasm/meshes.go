package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// MeshStep is one step of a case.
type MeshStep struct {
	Do     string // load, reload, call (by an import of a module), ask (by name), wait
	Module int
	Op     int
	Shared bool // an asked call reuses the payload of the others
	NoWait bool
	Shift  uint32 // of the indices of the exports of a module that is loaded again
}

// Meshes is a case.
type Meshes struct {
	Modules [][]rs.Op
	Order   []int // of the modules that are loaded at first
	Steps   []MeshStep
}

var (
	meshNS    = []string{"a", "b", "a.b", ""}
	meshNames = []string{"x", "y", "b.x"}
)

func genMeshOps(t *rapid.T) []rs.Op {
	var ops []rs.Op
	seen := map[string]bool{}
	used := map[uint32]bool{}
	for i, n := 0, rapid.IntRange(1, 7).Draw(t, "operations"); i < n; i++ {
		o := rs.Op{
			Kind: byte(rapid.IntRange(1, 4).Draw(t, "kind")),
			Dir:  byte(rapid.IntRange(1, 2).Draw(t, "direction")),
			NS:   rapid.SampledFrom(meshNS).Draw(t, "namespace"),
			Name: rapid.SampledFrom(meshNames).Draw(t, "name"),
		}
		o.Index = rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 300, 0xffff, 0x10001}).Draw(t, "index")
		if o.Dir == 1 {
			o.Index += 1 << 16 * uint32(rapid.IntRange(0, 3).Draw(t, "high index"))
		}
		k := fmt.Sprint(o.Kind, o.Dir, o.NS, "/", o.Name)
		u := uint32(o.Kind)<<28 | uint32(o.Dir)<<26 | o.Index
		if seen[k] || used[u] || o.Index == rawCmd || o.Index == rawSilent {
			continue
		}
		seen[k], used[u] = true, true
		ops = append(ops, o)
	}
	return ops
}

func genMeshes(waits bool) func(t *rapid.T) Meshes {
	return func(t *rapid.T) Meshes {
		var c Meshes
		n := rapid.IntRange(1, 4).Draw(t, "modules")
		for i := 0; i < n; i++ {
			c.Modules = append(c.Modules, genMeshOps(t))
		}
		// Importers of what there is.
		for i, k := 0, rapid.IntRange(1, 8).Draw(t, "matching imports"); i < k; i++ {
			from, to := rapid.IntRange(0, n-1).Draw(t, "exporter"), rapid.IntRange(0, n-1).Draw(t, "importer")
			if len(c.Modules[from]) == 0 {
				continue
			}
			o := c.Modules[from][rapid.IntRange(0, len(c.Modules[from])-1).Draw(t, "which")]
			o.Dir, o.Index = 2, uint32(10+i)
			if rapid.IntRange(0, 7).Draw(t, "far") == 0 {
				o.Index = ^uint32(0) - uint32(i)
			}
			dup := false
			for _, p := range c.Modules[to] {
				dup = dup || p.Dir == 2 && p.Kind == o.Kind && p.NS == o.NS && p.Name == o.Name
			}
			if !dup {
				c.Modules[to] = append(c.Modules[to], o)
			}
		}
		perm := rapid.Permutation(upto(n)).Draw(t, "order")
		c.Order = perm[:n-rapid.SampledFrom([]int{0, 0, 1, 2, n}).Draw(t, "loaded later")%(n+1)]
		ops := []string{"load", "call", "call", "call", "call", "ask", "ask", "ask"}
		if waits {
			ops = append(ops, "reload", "reload")
		} else {
			ops = append(ops, "reload")
		}
		for i, k := 0, rapid.IntRange(1, 14).Draw(t, "steps"); i < k; i++ {
			s := MeshStep{Do: rapid.SampledFrom(ops).Draw(t, "do"), Module: rapid.IntRange(0, n-1).Draw(t, "module"),
				Op: rapid.IntRange(0, 9).Draw(t, "op"), Shared: rapid.Bool().Draw(t, "shared"), NoWait: rapid.Bool().Draw(t, "hurry"),
				Shift: rapid.SampledFrom([]uint32{0, 0, 1, 5, 1 << 12, 1 << 24}).Draw(t, "shift")}
			c.Steps = append(c.Steps, s)
		}
		if waits {
			at := rapid.IntRange(0, len(c.Steps)).Draw(t, "waits at")
			c.Steps = append(c.Steps[:at:at], append([]MeshStep{{Do: "wait"}}, c.Steps[at:]...)...)
		}
		return c
	}
}

func upto(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// meshModule is the state of a module in the model.
type meshModule struct {
	file string
	ops  []rs.Op
	inst *host.Instance // nil: not loaded
	id   uint32         // of the loaded version
	sid  uint32
}

// shift has the module export its operations at other indices.
func (m *meshModule) shift(by uint32) {
	ops := append([]rs.Op(nil), m.ops...)
	for i := range ops {
		if ops[i].Dir == 1 {
			ops[i].Index ^= by
			if ops[i].Index == rawCmd || ops[i].Index == rawSilent {
				return
			}
		}
	}
	m.ops = ops
}

// target is where a call may arrive.
type target struct {
	id    uint32
	index uint32
	inst  *host.Instance
}

type meshCall struct {
	what    string
	kind    int // of package play
	tag     string
	targets []target
	by      *host.Instance // the importer, nil: by name
	sid     uint32
	got     *asked
	data    []byte
	loose   bool // the exporter or importer was replaced meanwhile
	items   int
}

// asked is what the subscriber of a call by name has seen.
type asked struct {
	ch    chan play.Event
	items [][]byte
}

func checkMeshes(ctx *kit.Ctx, c Meshes) error {
	dir, err := os.MkdirTemp("", "verif-mesh")
	if err != nil {
		kit.Bug("%v", err)
	}
	defer os.RemoveAll(dir)
	m := mesh.New()
	defer m.Close()
	err = runMeshes(ctx, c, m, dir)
	if err != nil && errors.Is(err, errNotQuiet) {
		return ctx.Inconclusive("%v", err)
	}
	return err
}

var meshIDs uint32 = 100

type meshRun struct {
	ctx    *kit.Ctx
	m      *mesh.Mesh
	mods   []*meshModule
	calls  []*meshCall
	judged int // of the calls
	served int
	share  payload.Payload
	tags   int
}

func quiet() error {
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return fmt.Errorf("%w: %v", errNotQuiet, err)
	}
	return nil
}

func (r *meshRun) write(mod *meshModule) uint32 {
	meshIDs++
	if err := os.WriteFile(mod.file, rawModule(meshIDs, mod.ops), 0o600); err != nil {
		kit.Bug("%v", err)
	}
	return meshIDs
}

func (r *meshRun) load(mod *meshModule) error {
	id := r.write(mod)
	inst, err := r.m.LoadModule(context.Background(), mod.file)
	if err != nil {
		return fmt.Errorf("loading a module: %v", err)
	}
	// Those under way may still find what there was or already what
	// there is now.
	for _, c := range r.calls[r.judged:] {
		c.loose = true
	}
	mod.inst, mod.id, mod.sid = inst, id, 1
	return rawReset(inst)
}

// exporters lists where a call of an operation may go.
func (r *meshRun) exporters(kind byte, ns, name string) (out []target) {
	for _, mod := range r.mods {
		if mod.inst == nil {
			continue
		}
		for _, o := range mod.ops {
			if o.Dir == 1 && o.Kind == kind && o.NS == ns && o.Name == name {
				out = append(out, target{mod.id, o.Index, mod.inst})
			}
		}
	}
	return
}

func runMeshes(ctx *kit.Ctx, c Meshes, m *mesh.Mesh, dir string) error {
	r := &meshRun{ctx: ctx, m: m, share: nil}
	for i, ops := range c.Modules {
		r.mods = append(r.mods, &meshModule{file: filepath.Join(dir, fmt.Sprintf("m%d.wasm", i)), ops: ops})
	}
	for _, i := range c.Order {
		if err := r.load(r.mods[i]); err != nil {
			return err
		}
	}
	for i, s := range c.Steps {
		mod := r.mods[s.Module%len(r.mods)]
		var err error
		switch s.Do {
		case "load":
			if mod.inst == nil {
				err = r.load(mod)
			}
		case "reload":
			if mod.inst != nil {
				ctx.Label("reloaded")
				if s.Shift != 0 {
					ctx.Label("reloaded with other indices")
					mod.shift(s.Shift)
				}
				err = r.load(mod)
			}
		case "wait":
			time.Sleep(5200 * time.Millisecond)
			ctx.Label("replaced modules closed")
		case "call":
			var imports []rs.Op
			for _, o := range mod.ops {
				if o.Dir == 2 {
					imports = append(imports, o)
				}
			}
			if mod.inst != nil && len(imports) > 0 {
				err = r.call(mod, imports[s.Op%len(imports)])
			}
		case "ask":
			ops := mod.ops
			if s.Op%3 > 0 { // prefer what is exported
				ops = nil
				for _, o := range mod.ops {
					if o.Dir == 1 {
						ops = append(ops, o)
					}
				}
			}
			if len(ops) > 0 {
				err = r.ask(ops[s.Op%len(ops)], s.Shared)
			}
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, s.Do, err)
		}
		if !s.NoWait {
			if err := r.settle(); err != nil {
				return err
			}
		}
	}
	if err := r.settle(); err != nil {
		return err
	}
	ctx.NonTrivialIf(r.served > 1)
	return nil
}

// settle waits for the calls under way and judges them.
func (r *meshRun) settle() error {
	if err := quiet(); err != nil {
		return err
	}
	if r.judged == len(r.calls) {
		return nil
	}
	logs := map[*host.Instance][]rs.Frame{}
	for _, mod := range r.mods {
		if mod.inst == nil {
			continue
		}
		b, err := rawLog(mod.inst)
		if err != nil {
			return err
		}
		if logs[mod.inst], err = parseAll(b); err != nil {
			return err
		}
	}
	for ; r.judged < len(r.calls); r.judged++ {
		call := r.calls[r.judged]
		if err := r.judge(call, logs); err != nil {
			return fmt.Errorf("call %d (%s): %v", r.judged, call.what, err)
		}
		if len(call.targets) > 0 {
			r.served++
			r.ctx.Label("%s served", play.KindName[call.kind])
		} else {
			r.ctx.Label("%s not exported", play.KindName[call.kind])
		}
	}
	return nil
}

func (r *meshRun) newCall(o rs.Op, what string) *meshCall {
	r.tags++
	c := &meshCall{kind: int(o.Kind) - 1, tag: fmt.Sprintf("tag %d.", r.tags), targets: r.exporters(o.Kind, o.NS, o.Name), items: r.tags % 4}
	c.what = fmt.Sprintf("%s %q %q %s", what, o.NS, o.Name, play.KindName[c.kind])
	r.calls = append(r.calls, c)
	return c
}

// call has a module call one of its imports.
func (r *meshRun) call(mod *meshModule, o rs.Op) error {
	c := r.newCall(o, "imported")
	c.by, c.sid = mod.inst, mod.sid
	mod.sid += 2
	d := []byte{'C', o.Kind + 3}
	d = binary.BigEndian.AppendUint32(d, o.Index)
	d = binary.BigEndian.AppendUint32(d, c.sid)
	d = append(d, byte(c.items))
	c.data = []byte(c.tag)
	_, err := rawCommand(mod.inst, append(d, c.data...))
	return err
}

// ask calls an operation by its name.
func (r *meshRun) ask(o rs.Op, shared bool) error {
	c := r.newCall(o, "asked for")
	c.got = &asked{ch: make(chan play.Event, 100)}
	c.data = []byte(c.tag)
	p := payload.Payload(payload.New(c.data, make([]byte, 8)))
	switch {
	case shared && r.share != nil:
		p = r.share
		c.data = p.Data()
		c.tag = "shared"
	case shared:
		c.data, c.tag = []byte("shared data"), "shared"
		p = payload.New(c.data, make([]byte, 8))
		r.share = p
	case r.tags%7 == 0:
		p = payload.New(c.data)
	case r.tags%7 == 1:
		p = payload.New(c.data, []byte{1, 2})
	}
	ctx := context.Background()
	note := func(what string, p payload.Payload) {
		e := play.Event{What: what}
		if p != nil {
			e.Text = string(p.Data())
		}
		c.got.ch <- e
	}
	switch c.kind {
	case play.FNF:
		r.m.FireAndForget(ctx, o.NS, o.Name, p)
	case play.RR:
		m := r.m.RequestResponse(ctx, o.NS, o.Name, p)
		if m == nil {
			return fmt.Errorf("a call of %s gives no mono", c.what)
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { note("item", p); note("completes", nil) },
			OnError:   func(err error) { note("fails", nil) },
		})
	default:
		var f flux.Flux[payload.Payload]
		if c.kind == play.Stream {
			f = r.m.RequestStream(ctx, o.NS, o.Name, p)
		} else {
			var in []payload.Payload
			for i := 0; i < c.items; i++ {
				in = append(in, payload.New(append([]byte{byte(i)}, c.data...)))
			}
			f = r.m.RequestChannel(ctx, o.NS, o.Name, p, flux.FromSlice(in))
		}
		if f == nil {
			return fmt.Errorf("a call of %s gives no flux", c.what)
		}
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { note("item", p) },
			OnComplete: func() { note("completes", nil) },
			OnError:    func(error) { note("fails", nil) },
		})
	}
	return nil
}

func (r *meshRun) judge(c *meshCall, logs map[*host.Instance][]rs.Frame) error {
	// What the caller has seen.
	var items [][]byte
	completes, fails := 0, 0
	if c.got != nil {
		for len(c.got.ch) > 0 {
			switch e := <-c.got.ch; e.What {
			case "item":
				items = append(items, []byte(e.Text))
			case "completes":
				completes++
			case "fails":
				fails++
			}
		}
	} else {
		log, ok := logs[c.by]
		if !ok {
			return nil // replaced
		}
		for _, f := range log {
			if f.ID != c.sid {
				continue
			}
			switch f.Type {
			case rs.TPayload:
				if f.Next {
					items = append(items, f.Data)
				}
				if f.Complete {
					completes++
				}
			case rs.TError:
				fails++
			case rs.TRequestN, rs.TCancel:
			default:
				return fmt.Errorf("its caller sees %v", f)
			}
		}
	}
	if c.loose {
		return nil
	}
	// Where it has arrived.
	arrived := 0
	for _, mod := range r.mods {
		if mod.inst == nil {
			continue
		}
		for _, f := range logs[mod.inst] {
			if f.Type < rs.TRequestResponse || f.Type > rs.TRequestChannel || c.tag == "shared" || len(f.Metadata) < 4 || string(f.Data) != string(c.data) {
				continue
			}
			index := binary.BigEndian.Uint32(f.Metadata)
			if index == rawCmd {
				continue
			}
			arrived++
			ok := false
			for _, t := range c.targets {
				ok = ok || t.inst == mod.inst && t.index == index
			}
			if !ok || f.Type != c.kind+rs.TRequestResponse {
				return fmt.Errorf("it arrives at operation %#x of kind %d of module %d", index, f.Type-rs.TRequestResponse, mod.id)
			}
		}
	}
	if len(c.targets) == 0 {
		if arrived > 0 || len(items) > 0 || completes > 0 {
			return fmt.Errorf("nobody exports it, yet it is answered with %d items and %d completions", len(items), completes)
		}
		if c.kind != play.FNF && fails != 1 {
			return fmt.Errorf("nobody exports it, yet its caller sees %d errors", fails)
		}
		return nil
	}
	if c.tag != "shared" && arrived != 1 {
		return fmt.Errorf("it arrives %d times at modules that export it", arrived)
	}
	if c.kind == play.FNF {
		if len(items)+completes+fails > 0 {
			return fmt.Errorf("a fire-and-forget is answered")
		}
		return nil
	}
	if fails > 0 || completes != 1 {
		return fmt.Errorf("it ends with %d errors and %d completions (%d items)", fails, completes, len(items))
	}
	n := []int{1, 0, 3, c.items}[c.kind]
	if len(items) != n {
		return fmt.Errorf("it is answered with %d items, want %d", len(items), n)
	}
	for i, it := range items {
		if len(it) < 9 {
			return fmt.Errorf("item %d is of %d bytes", i, len(it))
		}
		id, kind, index, rest := binary.BigEndian.Uint32(it), it[4], binary.BigEndian.Uint32(it[5:]), it[9:]
		ok := false
		for _, t := range c.targets {
			ok = ok || t.id == id && t.index == index
		}
		if !ok || int(kind) != c.kind+rs.TRequestResponse {
			return fmt.Errorf("it is answered by operation %#x of kind %d of module %d", index, int(kind)-rs.TRequestResponse, id)
		}
		want := string(c.data)
		if c.kind == play.Channel {
			want = string(rune(i)) + want
		}
		if string(rest) != want {
			return fmt.Errorf("item %d of the answer carries %q instead of %q", i, rest, want)
		}
	}
	return nil
}
