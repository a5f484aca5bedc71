package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// Piece is a part of a batch.
type Piece struct {
	Do   string
	Kind int `json:",omitempty"` // of a request
	Slot int `json:",omitempty"` // the request it belongs to
	N    int `json:",omitempty"`
	F    byte
	Meta int `json:",omitempty"`
	Want uint32
	Lie  int `json:",omitempty"` // added to the length in front of it
}

// Batch is what the peer places in the shared buffer.
type Batch struct {
	Pieces []Piece
	Fill   int // pad the last piece so that the batch is so much short of the buffer; -1: not
	Claim  int // added to the announced length
	Huge   uint32
	Grow   int `json:",omitempty"` // the guest's memory grows by so many pages before
}

// Batches is a case.
type Batches struct {
	Sizes   [2]int // of the buffers towards and from the endpoint
	Batches []Batch
}

func genPiece(t *rapid.T, nastiness int) Piece {
	good := []string{"request", "request", "request", "item", "item", "end", "reqn", "live", "dead"}
	bad := []string{"short", "badmeta", "cut", "unknown", "noop", "nometa", "noise"}
	p := Piece{Do: rapid.SampledFrom(good).Draw(t, "piece"), Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Slot: rapid.IntRange(0, 6).Draw(t, "slot")}
	if rapid.IntRange(0, 9).Draw(t, "bad") < nastiness {
		p.Do = rapid.SampledFrom(bad).Draw(t, "bad piece")
	}
	switch rapid.IntRange(0, 5).Draw(t, "size class") {
	case 0:
	case 1:
		p.N = rapid.SampledFrom([]int{255, 256, 1000, 4000}).Draw(t, "size")
	default:
		p.N = rapid.IntRange(0, 60).Draw(t, "size")
	}
	p.F = rapid.SampledFrom([]byte{0, 0xff, 7}).Draw(t, "fill")
	if rapid.IntRange(0, 2).Draw(t, "with metadata") == 0 {
		p.Meta = rapid.IntRange(1, 40).Draw(t, "metadata")
	}
	p.Want = rapid.SampledFrom([]uint32{rx.RequestMax, rx.RequestMax, 1, 2, 3}).Draw(t, "demand")
	if nastiness > 0 && rapid.IntRange(0, 9).Draw(t, "lies") == 0 {
		p.Lie = rapid.SampledFrom([]int{-1, 1, 2, 3, -3, -6, 100, 70000}).Draw(t, "lie")
	}
	return p
}

func genBatches(nastiness int, vary bool) func(t *rapid.T) Batches {
	return func(t *rapid.T) Batches {
		c := Batches{Sizes: [2]int{bufSize, bufSize}}
		if vary && rapid.Bool().Draw(t, "other buffers") {
			for i := range c.Sizes {
				c.Sizes[i] = rapid.SampledFrom([]int{64, 100, 255, 256, 1024, 4096, 65536, 100000}).Draw(t, "buffer")
			}
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "batches"); i < n; i++ {
			b := Batch{Fill: -1}
			for j, k := 0, rapid.IntRange(1, 9).Draw(t, "pieces"); j < k; j++ {
				b.Pieces = append(b.Pieces, genPiece(t, nastiness))
			}
			if rapid.IntRange(0, 2).Draw(t, "filled") == 0 {
				b.Fill = rapid.IntRange(0, 4).Draw(t, "short of")
			}
			if nastiness > 0 && rapid.IntRange(0, 7).Draw(t, "claims") == 0 {
				b.Claim = rapid.SampledFrom([]int{-1, -2, -3, -7, 1, 2, 3, 10, 100}).Draw(t, "claim")
			}
			if nastiness > 0 && rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
				b.Huge = rapid.SampledFrom([]uint32{1 << 24, 1 << 27, 1 << 31, 1<<32 - 1}).Draw(t, "huge claim")
			}
			if !vary && rapid.IntRange(0, 15).Draw(t, "grows") == 0 {
				b.Grow = rapid.IntRange(1, 3).Draw(t, "pages")
			}
			c.Batches = append(c.Batches, b)
		}
		return c
	}
}

// endpoint is one side under test, with a raw peer.
type endpoint interface {
	// open makes the endpoint request a stream; it returns its id.
	open() (uint32, error)
	ops() [4]uint32 // of the operations Bare by kind
	sizes() [2]int
	parity() uint32 // of the requests of its peer
	deliver(batch []byte, n uint32) error
	out() ([]rs.Frame, error)
	events() ([]play.Event, error)
}

const (
	idBase   = 1 << 20
	deadBase = 1 << 22
)

// request is the model of one request of the peer.
type request struct {
	kind   int
	frames []rs.Frame // that it is answered with, except for demand
	want   uint64     // streams: the demand
	data   []byte
	open   bool // more frames concern it
	fails  bool // answered with one error
	items  [][2][]byte
	ended  bool
}

type model struct {
	ops    [4]uint32
	size   int // of the buffer the answers pass through
	reqs   map[uint32]*request
	order  []uint32
	live   uint32
	lived  [][2]uint64 // digests of the items of the live stream
	liveUp bool
	bare   map[uint64]int
	skip   string // why the case says nothing
	valid  int
	broken int
}

func (m *model) fitsOut(f rs.Frame) bool { return len(f.Encode())+3 <= m.size }

// see interprets a frame of the peer.
func (m *model) see(b []byte) {
	if len(b) < 6 {
		m.broken++
		return
	}
	f, err := rs.Decode(b)
	isReq := f.Type >= rs.TRequestResponse && f.Type <= rs.TRequestChannel
	if errors.Is(err, rs.ErrUnknown) {
		m.broken++
		return
	}
	mine := f.ID >= idBase && (isReq || f.ID < deadBase)
	dead := f.ID >= deadBase
	switch {
	case f.ID == m.live && m.live != 0:
		if err != nil || f.Type != rs.TPayload || f.Complete || f.Follows {
			m.skip = "the live stream is meddled with"
			return
		}
		m.valid++
		if f.Next {
			m.lived = append(m.lived, [2]uint64{play.Digest(f.Data), play.Digest(f.Metadata)})
		}
		return
	case dead && !isReq:
		return
	case !mine:
		m.skip = "a frame of somebody else"
		return
	}
	r := m.reqs[f.ID]
	if isReq {
		if r != nil || f.Follows {
			m.skip = "one id twice, or fragments"
			return
		}
		r = &request{kind: f.Type - rs.TRequestResponse, data: f.Data, want: uint64(f.N)}
		m.reqs[f.ID] = r
		m.order = append(m.order, f.ID)
		op := uint32(0)
		if err == nil && len(f.Metadata) >= 4 {
			op = binary.BigEndian.Uint32(f.Metadata)
		}
		if err != nil || len(f.Metadata) < 8 || op != m.ops[r.kind] {
			m.broken++
			r.fails = true
			if err == nil && len(f.Metadata) >= 8 && op < 64 {
				m.skip = "a request to another operation"
			}
			return
		}
		m.valid++
		switch r.kind {
		case play.FNF:
			m.bare[play.Digest(f.Data)]++
		case play.Stream, play.Channel:
			if f.N == 0 || f.N > rx.RequestMax {
				m.skip = "an invalid demand"
			}
			r.open = true
		}
		return
	}
	if r == nil || !r.open {
		return
	}
	switch {
	case err != nil:
		m.skip = "a malformed frame of a running stream"
	case f.Type == rs.TRequestN && r.kind == play.Stream:
		m.valid++
		if f.N == 0 || f.N > rx.RequestMax {
			m.skip = "an invalid demand"
		}
		r.want += uint64(f.N)
	case f.Type == rs.TPayload && r.kind == play.Channel:
		if f.Follows {
			m.skip = "fragments"
		}
		if r.ended {
			return
		}
		m.valid++
		if f.Next {
			r.items = append(r.items, [2][]byte{f.Data, f.Metadata})
		}
		r.ended = f.Complete
	case f.Type == rs.TPayload && r.kind == play.Stream:
	case f.Type == rs.TRequestN && r.kind == play.Channel:
	default:
		m.skip = "a running stream is meddled with"
	}
}

// judge compares the answers to a request with the model.
func (r *request) judge(m *model, id uint32, got []rs.Frame) error {
	var items [][2][]byte
	ended, failed, others := 0, 0, 0
	for _, f := range got {
		if ended+failed > 0 && f.Type != rs.TRequestN && f.Type != rs.TCancel {
			return fmt.Errorf("%v follows its end: %v", f, got)
		}
		switch f.Type {
		case rs.TPayload:
			if f.Next {
				items = append(items, [2][]byte{f.Data, f.Metadata})
			}
			if f.Complete {
				ended++
			}
		case rs.TError:
			failed++
		case rs.TRequestN, rs.TCancel:
			if r.kind != play.Channel {
				return fmt.Errorf("it is answered with %v", f)
			}
		default:
			others++
		}
	}
	if others > 0 {
		return fmt.Errorf("it is answered with a request")
	}
	var want [][2][]byte
	end := true
	fails := r.fails
	add := func(d, md []byte) {
		if fails || !end {
			return
		}
		f := rs.Frame{ID: 1, Type: rs.TPayload, Data: d, HasMetadata: len(md) > 0, Metadata: md}
		if !m.fitsOut(f) {
			fails = true
			return
		}
		want = append(want, [2][]byte{d, md})
	}
	switch {
	case r.fails:
		if r.kind == play.FNF {
			if failed+len(items)+ended > 1 {
				return fmt.Errorf("a refused fire-and-forget is answered with %d frames", len(got))
			}
			return nil
		}
	case r.kind == play.FNF:
		if len(got) > 0 {
			return fmt.Errorf("a fire-and-forget is answered with %v", got[0])
		}
		return nil
	case r.kind == play.RR:
		add(bare(r.data))
	case r.kind == play.Stream:
		for i := 0; i < 3; i++ {
			if uint64(i) >= r.want {
				end = false
				break
			}
			d, md := bare(r.data)
			if i == 1 {
				d, md = nil, nil
			}
			add(d, md)
		}
	case r.kind == play.Channel:
		for _, it := range r.items {
			add(it[0], it[1])
		}
		end = r.ended
	}
	if fails {
		if failed != 1 || ended != 0 {
			return fmt.Errorf("it ends with %d errors and %d completions, want an error", failed, ended)
		}
	} else if failed != 0 {
		return fmt.Errorf("it fails with %q", got[len(got)-1].Data)
	} else if end && ended != 1 || !end && ended != 0 {
		return fmt.Errorf("it completes %d times", ended)
	}
	if len(items) != len(want) {
		return fmt.Errorf("it is answered with %d items, want %d", len(items), len(want))
	}
	for i := range want {
		if string(items[i][0]) != string(want[i][0]) || string(items[i][1]) != string(want[i][1]) {
			return fmt.Errorf("item %d of its answer is other than what was sent", i)
		}
	}
	return nil
}

type builder struct {
	m      *model
	next   uint32
	dead   uint32
	slots  []uint32
	parity uint32
}

func (b *builder) id() uint32 {
	b.next += 2
	return b.next
}

func (b *builder) slot(i int) uint32 {
	if len(b.slots) == 0 {
		b.dead += 2
		return b.dead
	}
	return b.slots[i%len(b.slots)]
}

func (b *builder) build(p Piece) []byte {
	data := play.Blob{N: p.N, F: p.F}.Bytes()
	if p.F != 7 {
		for i := range data {
			data[i] = p.F
		}
	}
	f := rs.Frame{Type: rs.TRequestResponse + p.Kind, Data: data, N: p.Want, HasMetadata: true}
	f.Metadata = binary.BigEndian.AppendUint32(nil, b.m.ops[p.Kind])
	f.Metadata = append(f.Metadata, make([]byte, 4+p.Meta)...)
	switch p.Do {
	case "request", "noop", "nometa", "badmeta", "cut":
		f.ID = b.id()
	}
	pl := rs.Frame{Type: rs.TPayload, Data: data, Next: true}
	if p.Meta > 0 {
		pl.Metadata = data[:min(len(data), p.Meta)]
		pl.HasMetadata = len(pl.Metadata) > 0
	}
	switch p.Do {
	case "request":
		b.slots = append(b.slots, f.ID)
		return f.Encode()
	case "noop":
		binary.BigEndian.PutUint32(f.Metadata, 0xE0000000)
		return f.Encode()
	case "nometa":
		f.Metadata = f.Metadata[:p.Meta%8]
		f.HasMetadata = p.Meta != 0
		return f.Encode()
	case "badmeta": // the length of the metadata lies
		e := f.Encode()
		at := 6
		if p.Kind >= play.Stream {
			at += 4
		}
		n := len(e) - at - 3 + 1 + p.Meta*p.Meta
		e[at], e[at+1], e[at+2] = byte(n>>16), byte(n>>8), byte(n)
		return e
	case "cut": // ends within what it begins with
		e := f.Encode()
		at := 6
		if p.Kind >= play.Stream {
			at += 4
		}
		return e[:6+p.N%(at+3+8-6)]
	case "item":
		pl.ID = b.slot(p.Slot)
		return pl.Encode()
	case "end":
		pl.ID = b.slot(p.Slot)
		pl.Complete = true
		pl.Next = p.Meta > 0
		if !pl.Next {
			pl.Data, pl.HasMetadata, pl.Metadata = nil, false, nil
		}
		return pl.Encode()
	case "reqn":
		return rs.Frame{Type: rs.TRequestN, ID: b.slot(p.Slot), N: p.Want}.Encode()
	case "live":
		pl.ID = b.m.live
		return pl.Encode()
	case "dead":
		b.dead += 1 + uint32(p.Slot&1)
		switch pl.ID = b.dead; p.Kind {
		case 1:
			return rs.Frame{Type: rs.TRequestN, ID: b.dead, N: p.Want}.Encode()
		case 2:
			return rs.Frame{Type: rs.TCancel, ID: b.dead}.Encode()
		case 3:
			return rs.Frame{Type: rs.TError, ID: b.dead, Code: 0x201, Data: data}.Encode()
		}
		return pl.Encode()
	case "short":
		return data[:min(len(data), p.Slot%6)]
	case "unknown": // a type the library does not know
		f.ID = b.dead + 1
		f.Type = []int{0, 2, 3, 12, 13, 14, 62, 63}[p.Slot%8]
		return f.Encode()
	}
	return data // noise
}

func checkBatches(ep func(c *Batches) (endpoint, error), drop func()) func(*kit.Ctx, Batches) error {
	return func(ctx *kit.Ctx, c Batches) error {
		healthy := false
		defer func() {
			if !healthy {
				drop()
			}
		}()
		e, err := ep(&c)
		if err != nil {
			return err
		}
		err = runBatches(ctx, e, &c)
		if err != nil && errors.Is(err, errNotQuiet) {
			return ctx.Inconclusive("%v", err)
		}
		healthy = err == nil && ctx.Inconcl == ""
		return err
	}
}

// nextBase makes the ids of every case new ones, as streams of earlier cases
// may still be open.
var nextBase uint32 = idBase

func runBatches(ctx *kit.Ctx, e endpoint, c *Batches) error {
	sizes := e.sizes()
	m := &model{ops: e.ops(), size: sizes[1], reqs: map[uint32]*request{}, bare: map[uint64]int{}}
	live, err := e.open()
	if err != nil {
		return err
	}
	m.live = live
	b := &builder{m: m, next: nextBase + e.parity(), dead: deadBase + e.parity()}
	base := b.next
	defer func() { nextBase = b.next &^ 1 }()
	type delivery struct {
		raw []byte
		n   uint32
	}
	var ds []delivery
	for _, spec := range c.Batches {
		var raw []byte
		for i, p := range spec.Pieces {
			if i == len(spec.Pieces)-1 && spec.Fill >= 0 && (p.Do == "request" || p.Do == "live") {
				p.N = 0
				bb := *b
				p.N = max(0, sizes[0]-spec.Fill-len(raw)-3-len(bb.build(p)))
				ctx.Label("full batch")
			}
			bb := *b
			f := bb.build(p)
			if len(raw)+3+len(f) > sizes[0] {
				continue
			}
			*b = bb
			n := max(0, len(f)+p.Lie)
			raw = append(raw, byte(n>>16), byte(n>>8), byte(n))
			raw = append(raw, f...)
		}
		n := min(max(0, len(raw)+spec.Claim), sizes[0])
		if spec.Huge != 0 {
			raw = nil
		}
		padded := append(append([]byte{}, raw...), make([]byte, sizes[0]-len(raw))...)
		claim := uint32(n)
		if spec.Huge != 0 {
			n, claim = 0, spec.Huge
			for i := range padded {
				padded[i] = 0xff // no frame is whole
			}
			ctx.Label("huge claim")
		}
		fs, whole := split(padded[:n])
		if !whole {
			ctx.Label("cut batch")
		}
		for _, f := range fs {
			m.see(f)
		}
		ds = append(ds, delivery{padded, claim})
	}
	// At last a request that has nothing to do with the others.
	last := rs.Frame{Type: rs.TRequestResponse, ID: b.id(), HasMetadata: true, Data: []byte("last"),
		Metadata: append(binary.BigEndian.AppendUint32(nil, m.ops[play.RR]), 0, 0, 0, 0)}
	m.see(last.Encode())
	raw := join(last.Encode())
	ds = append(ds, delivery{raw, uint32(len(raw))})
	if m.skip != "" {
		ctx.Label("skipped: %s", m.skip)
		return nil
	}
	for i, d := range ds {
		if h, ok := e.(*hostEnd); ok && i < len(c.Batches) && c.Batches[i].Grow > 0 {
			ctx.Label("the memory grows")
			if _, err := rawCommand(h.inst, binary.BigEndian.AppendUint32([]byte{'G'}, uint32(c.Batches[i].Grow))); err != nil {
				return fmt.Errorf("batch %d: %w", i, err)
			}
		}
		if err := e.deliver(d.raw, d.n); err != nil {
			return fmt.Errorf("batch %d: %w", i, err)
		}
	}
	out, err := e.out()
	if err != nil {
		return err
	}
	by := map[uint32][]rs.Frame{}
	for _, f := range out {
		by[f.ID] = append(by[f.ID], f)
	}
	for id, r := range m.reqs {
		if err := r.judge(m, id, by[id]); err != nil {
			return fmt.Errorf("request %d (%s, %d bytes): %v", (id-base)/2-1, play.KindName[r.kind], len(r.data), err)
		}
		delete(by, id)
	}
	for id, fs := range by {
		if id != m.live && fs[0].Type != rs.TCancel {
			return fmt.Errorf("%v is sent for no request", fs[0])
		}
	}
	ev, err := e.events()
	if err != nil {
		return err
	}
	n := 0
	got := map[uint64]int{}
	for _, v := range ev {
		switch v.What {
		case "bare":
			got[v.D]++
		case "output item":
			if n >= len(m.lived) || m.lived[n] != [2]uint64{v.D, v.M} {
				return fmt.Errorf("item %d of the endpoint's own stream is other than what was sent", n)
			}
			n++
		case "output fails", "output completes":
			return fmt.Errorf("the endpoint's own stream ends (%s %s)", v.What, v.Text)
		}
	}
	if n != len(m.lived) {
		return fmt.Errorf("the endpoint's own stream has %d items of %d", n, len(m.lived))
	}
	for d, k := range m.bare {
		if got[d] != k {
			return fmt.Errorf("a fire-and-forget request arrives %d times, sent %d times", got[d], k)
		}
		delete(got, d)
	}
	if len(got) > 0 {
		return fmt.Errorf("%d fire-and-forget requests arrive that were not sent", len(got))
	}
	raw = join(rs.Frame{Type: rs.TPayload, ID: m.live, Complete: true}.Encode())
	if err := e.deliver(raw, uint32(len(raw))); err != nil {
		return err
	}
	ctx.Label("%d valid frames", min(m.valid, 20)/5*5)
	if m.broken > 0 {
		ctx.Label("malformed")
	}
	ctx.NonTrivialIf(m.valid > 2 && (m.broken > 0 || m.valid > 4))
	return nil
}

// --- the guest with a raw host ---

type guestEnd struct {
	*rawHost
	c       *Batches
	pending []rs.Frame
}

func (g *guestEnd) ops() [4]uint32  { return g.index }
func (g *guestEnd) sizes() [2]int   { return g.c.Sizes }
func (g *guestEnd) parity() uint32  { return 0 }
func (g *guestEnd) resize() error   { return g.init(g.c.Sizes[0], g.c.Sizes[1]) }
func (g *guestEnd) unresize() error { return g.init(bufSize, bufSize) }

func theGuest(c *Batches) (endpoint, error) {
	if theRawHost == nil {
		h, err := newRawHost()
		if err != nil {
			return nil, err
		}
		theRawHost = h
	}
	return &guestEnd{rawHost: theRawHost, c: c}, nil
}

func (g *guestEnd) open() (uint32, error) {
	if err := g.unresize(); err != nil {
		return 0, err
	}
	if _, _, err := g.command(play.Cmd{Do: "reset"}); err != nil {
		return 0, err
	}
	runBase += slots
	call := play.Call{Key: runBase, Kind: play.Stream, Op: 0, Want: play.Want{Policy: "max"}}
	_, fs, err := g.command(play.Cmd{Do: "start", Calls: []play.Call{call}})
	if err != nil {
		return 0, err
	}
	if len(fs) != 1 || fs[0].Type != rs.TRequestStream || fs[0].ID&1 == 0 || string(fs[0].Data) != string(call.Data()) {
		return 0, fmt.Errorf("the guest requests a stream with %v", fs)
	}
	return fs[0].ID, g.resize()
}

func (g *guestEnd) out() ([]rs.Frame, error) { return g.take() }

func (g *guestEnd) events() ([]play.Event, error) {
	if err := g.unresize(); err != nil {
		return nil, err
	}
	var all []play.Event
	for {
		r, _, err := g.command(play.Cmd{Do: "log", N: 60})
		if err != nil {
			return nil, err
		}
		all = append(all, r.Events...)
		if !r.More {
			return all, nil
		}
	}
}

// --- the host with a raw guest ---

type hostEnd struct {
	*rawGuest
}

var theRawGuest *rawGuest

const bareImport = 3

func theHost(c *Batches) (endpoint, error) {
	c.Sizes = [2]int{bufSize, bufSize}
	if theRawGuest == nil {
		inst, err := startRaw(context.Background(), rawModule(1, nil))
		if err != nil {
			return nil, err
		}
		g := &rawGuest{inst: inst, player: &play.Player{Peer: inst}}
		g.player.Reset()
		inst.SetRequestResponseHandler(bareImport, g.player.HandleRR(play.Bare))
		inst.SetFireAndForgetHandler(bareImport+1, g.player.HandleFNF(play.Bare))
		inst.SetRequestStreamHandler(bareImport+2, g.player.HandleStream(play.Bare))
		inst.SetRequestChannelHandler(bareImport+3, g.player.HandleChannel(play.Bare))
		g.player.Index[play.Stream][0] = rawSilent
		theRawGuest = g
	}
	return &hostEnd{theRawGuest}, nil
}

func (h *hostEnd) ops() [4]uint32 {
	return [4]uint32{bareImport, bareImport + 1, bareImport + 2, bareImport + 3}
}
func (h *hostEnd) sizes() [2]int  { return [2]int{bufSize, bufSize} }
func (h *hostEnd) parity() uint32 { return 1 }

func (h *hostEnd) frames() ([]rs.Frame, error) {
	batches, err := rawLog(h.inst)
	if err != nil {
		return nil, err
	}
	return parseAll(batches)
}

func (h *hostEnd) open() (uint32, error) {
	if err := rawReset(h.inst); err != nil {
		return 0, err
	}
	h.player.Reset()
	runBase += slots
	call := play.Call{Key: runBase, Kind: play.Stream, Op: 0, Want: play.Want{Policy: "max"}}
	h.player.Do(play.Cmd{Do: "start", Calls: []play.Call{call}})
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return 0, fmt.Errorf("%w: %v", errNotQuiet, err)
	}
	fs, err := h.frames()
	if err != nil {
		return 0, err
	}
	for _, f := range fs {
		if f.Type == rs.TRequestStream && string(f.Data) == string(call.Data()) {
			return f.ID, rawReset(h.inst)
		}
	}
	return 0, fmt.Errorf("the host's request of a stream does not arrive")
}

func (h *hostEnd) deliver(batch []byte, n uint32) error { return rawSend(h.inst, batch, n) }

func (h *hostEnd) out() ([]rs.Frame, error) {
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return nil, fmt.Errorf("%w: %v", errNotQuiet, err)
	}
	fs, err := h.frames()
	if err != nil {
		return nil, err
	}
	var out []rs.Frame
	for _, f := range fs {
		if f.ID >= idBase {
			out = append(out, f)
		}
	}
	return out, nil
}

func (h *hostEnd) events() ([]play.Event, error) {
	return h.player.Do(play.Cmd{Do: "log"}).Events, nil
}
