package play

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Peer is the other side.
type Peer interface {
	RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FireAndForget(ctx context.Context, p payload.Payload)
	RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

// Player is an endpoint.
type Player struct {
	Peer  Peer
	Index [4][5]uint32                     // ids of the operations of the other side
	Outer func(ctx context.Context) uint32 // the stream a call is made for
	Inner func(ctx context.Context) int64  // what a context carries
	Root  func(key uint32) context.Context // the context of a new call

	mu     sync.Mutex
	events []Event
	made   map[uint32]*run
	served map[uint32]*run
	kept   []kept
}

// kept is received data and what it was when it arrived.
type kept struct {
	key  uint32
	what string
	b    []byte
	d    uint64
}

// run is one end of a call.
type run struct {
	p    *Player
	c    *Call
	role string
	out  *source
	in   *source
	sub  *sub // of the output
	isub *sub // of the input

	sink    mono.Processor[payload.Payload]
	settled bool
}

func (p *Player) note(e Event) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.events = append(p.events, e)
}

func (p *Player) log(key uint32, role, what string, n int64, text string) {
	p.note(Event{Key: key, Role: role, What: what, N: n, Text: Brief(text)})
}

func (p *Player) logData(key uint32, role, what string, n int64, pl payload.Payload) {
	p.note(Event{Key: key, Role: role, What: what, N: n, D: Digest(pl.Data()), M: Digest(pl.Metadata())})
}

// keep remembers received bytes, to see later that they have not changed.
func (p *Player) keep(key uint32, what string, bs ...[]byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, b := range bs {
		if len(b) > 0 {
			p.kept = append(p.kept, kept{key, what, b, Digest(b)})
		}
	}
}

// --- sources ---

type source struct {
	p    *Player
	key  uint32
	role string
	what string
	spec Prod

	mu      sync.Mutex
	sink    flux.Sink[payload.Payload]
	demand  int64
	next    int
	done    bool
	busy    bool
	started bool
}

func (s *source) item(i int) payload.Payload {
	d, m := s.spec.Item(s.key, i)
	if m == nil {
		return payload.New(d)
	}
	return payload.New(d, m)
}

func (s *source) log(what string, n int64) { s.p.log(s.key, s.role, s.what+" "+what, n, "") }

func (s *source) note(n int) {
	s.mu.Lock()
	s.demand += int64(n)
	s.mu.Unlock()
	s.log("asked", int64(n))
}

func (s *source) onCancel() {
	s.mu.Lock()
	s.done = true
	s.mu.Unlock()
	s.log("stopped", 0)
}

func (s *source) flux() flux.Flux[payload.Payload] {
	n := s.spec.Len()
	all := func() []payload.Payload {
		var ps []payload.Payload
		for i := 0; i < n; i++ {
			ps = append(ps, s.item(i))
		}
		return ps
	}
	start := func(sink flux.Sink[payload.Payload]) {
		s.mu.Lock()
		s.sink = sink
		s.started = true
		s.mu.Unlock()
		s.log("starts", 0)
	}
	switch s.spec.Kind {
	case "error":
		return flux.Error[payload.Payload](errors.New(s.spec.EndErr(s.key)))
	case "slice":
		return flux.FromSlice(all())
	case "resp", "map":
		f := flux.Create(func(sink flux.Sink[payload.Payload]) {
			start(sink)
			serve := flux.SliceResponse(sink, all())
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { s.note(n); serve(n) },
				Cancel:  s.onCancel,
			})
		})
		if s.spec.Kind == "resp" {
			return f
		}
		i := -1
		return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
			if i++; i == s.spec.FailAt {
				return nil, errors.New(s.spec.EndErr(s.key))
			}
			return p, nil
		})
	case "ondemand":
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			start(sink)
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { s.note(n); s.work(sink) },
				Cancel:  s.onCancel,
			})
		})
	}
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		start(sink)
		sink.OnSubscribe(flux.OnSubscribe{Request: s.note, Cancel: s.onCancel})
	})
}

func (s *source) end(sink flux.Sink[payload.Payload]) {
	s.log("ends", 0)
	if e := s.spec.EndErr(s.key); e != "" {
		sink.Error(errors.New(e))
	} else {
		sink.Complete()
	}
}

// work emits what is asked for, one goroutine at a time.
func (s *source) work(sink flux.Sink[payload.Payload]) {
	s.mu.Lock()
	if s.busy {
		s.mu.Unlock()
		return
	}
	s.busy = true
	n := s.spec.Len()
	for !s.done && int64(s.next) < s.demand && s.next < n {
		i := s.next
		s.next++
		s.mu.Unlock()
		sink.Next(s.item(i))
		s.mu.Lock()
	}
	end := !s.done && s.next == n
	s.done = s.done || end
	s.busy = false
	s.mu.Unlock()
	if end {
		s.end(sink)
	}
}

// push makes a push source emit its next item or its end.
func (s *source) push() bool {
	s.mu.Lock()
	sink := s.sink
	if s.spec.Kind != "push" || sink == nil || s.done {
		s.mu.Unlock()
		return false
	}
	if i := s.next; i < s.spec.Len() {
		s.next++
		s.mu.Unlock()
		sink.Next(s.item(i))
		return true
	}
	s.done = true
	s.mu.Unlock()
	s.end(sink)
	return true
}

// --- subscribers ---

type sub struct {
	p    *Player
	key  uint32
	role string
	what string
	want Want

	mu    sync.Mutex
	f     flux.Flux[payload.Payload]
	n     int
	stop  bool
	final bool
}

func (s *sub) log(what string, n int64, text string) {
	s.p.log(s.key, s.role, s.what+" "+what, n, text)
}

func (s *sub) subscription() rx.Subscription {
	s.mu.Lock()
	f := s.f
	s.mu.Unlock()
	if f == nil {
		return nil
	}
	return f.Subscription()
}

func (s *sub) request(sub rx.Subscription, n int) {
	s.log("asks", int64(n), "")
	sub.Request(n)
}

func (s *sub) callbacks(f flux.Flux[payload.Payload]) flux.Subscribe[payload.Payload] {
	s.mu.Lock()
	s.f = f
	s.mu.Unlock()
	cb := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			s.mu.Lock()
			i := s.n
			s.n++
			stop := s.want.Stop > 0 && s.n == s.want.Stop
			s.mu.Unlock()
			s.p.logData(s.key, s.role, s.what+" item", int64(i), p)
			s.p.keep(s.key, s.what+" item", p.Data(), p.Metadata())
			if stop {
				s.cancel()
			}
		},
		OnComplete: func() { s.log("completes", 0, "") },
		OnError:    func(err error) { s.log("fails", 0, errText(err)) },
		Finally: func(sig rx.SignalType) {
			s.mu.Lock()
			s.final = true
			s.mu.Unlock()
			s.log("final", int64(sig), "")
		},
	}
	switch s.want.Policy {
	case "refill":
		cb.OnRequest = func(sub rx.Subscription) { s.request(sub, s.want.N) }
	case "manual":
		first := true
		cb.OnRequest = func(sub rx.Subscription) {
			if first && s.want.N > 0 {
				first = false
				s.request(sub, s.want.N)
			}
		}
	default:
		s.log("asks", rx.RequestMax, "")
	}
	return cb
}

func (s *sub) cancel() bool {
	sub := s.subscription()
	if sub == nil {
		return false
	}
	s.mu.Lock()
	again := s.stop || s.final
	s.stop = true
	s.mu.Unlock()
	if again {
		return false
	}
	s.log("cancels", 0, "")
	sub.Cancel()
	return true
}

// --- making calls ---

func (p *Player) payload(ctx context.Context, c *Call) payload.Payload {
	id := max(c.Far, 1<<12)
	if c.Op >= 0 {
		id = p.Index[c.Kind][c.Op]
	}
	md := binary.BigEndian.AppendUint32(nil, id)
	var outer uint32
	if p.Outer != nil {
		outer = p.Outer(ctx)
	}
	md = binary.BigEndian.AppendUint32(md, outer)
	return payload.New(c.Data(), append(md, c.Meta.Bytes()...))
}

func (p *Player) start(ctx context.Context, c *Call) {
	r := &run{p: p, c: c, role: "made"}
	r.in = &source{p: p, key: c.Key, role: "made", what: "input", spec: c.In}
	r.sub = &sub{p: p, key: c.Key, role: "made", what: "output", want: c.Want}
	p.mu.Lock()
	p.made[c.Key] = r
	p.mu.Unlock()
	p.log(c.Key, "made", "starts", 0, "")
	pl := p.payload(ctx, c)
	switch c.Kind {
	case FNF:
		p.Peer.FireAndForget(ctx, pl)
	case RR:
		m := p.Peer.RequestResponse(ctx, pl)
		if c.How == "block" && blockMono(r, m) {
			return
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: r.answered,
			OnError:   r.failed,
			Finally:   func(sig rx.SignalType) { p.log(c.Key, "made", "final", int64(sig), "") },
		})
	case Stream, Channel:
		var f flux.Flux[payload.Payload]
		if c.Kind == Stream {
			f = p.Peer.RequestStream(ctx, pl)
		} else {
			f = p.Peer.RequestChannel(ctx, pl, r.in.flux())
		}
		cb := r.sub.callbacks(f)
		if c.How == "block" && blockFlux(r, f, cb) {
			return
		}
		f.Subscribe(cb)
	}
}

func (r *run) answered(v payload.Payload) {
	r.p.logData(r.c.Key, "made", "answer", 0, v)
	r.p.keep(r.c.Key, "answer", v.Data(), v.Metadata())
}

func (r *run) failed(err error) { r.p.log(r.c.Key, "made", "error", 0, errText(err)) }

// --- serving calls ---

func (p *Player) serve(ctx context.Context, kind, op int, pl payload.Payload) *run {
	c := Parse(pl.Data())
	if c == nil {
		p.logData(0, "served", "garbage", int64(len(pl.Data())), pl)
		return nil
	}
	problem := ""
	md := c.Meta.Bytes()
	switch got := pl.Metadata(); {
	case kind != c.Kind || op != c.Op:
		problem = fmt.Sprintf("a request to operation %d of kind %s is handled by operation %d of kind %s", c.Op, KindName[c.Kind], op, KindName[kind])
	case string(pl.Data()) != string(c.Data()):
		problem = fmt.Sprintf("the %d bytes of data arrive as other %d bytes", len(c.Data()), len(pl.Data()))
	case len(got) != len(md) && len(got) != len(md)+8 || string(got[len(got)-len(md):]) != string(md):
		problem = fmt.Sprintf("the %d bytes of metadata arrive as %d other bytes", len(md), len(got))
	}
	p.keep(c.Key, "request", pl.Data(), pl.Metadata())
	r := &run{p: p, c: c, role: "served"}
	r.out = &source{p: p, key: c.Key, role: "served", what: "output", spec: c.Out}
	r.isub = &sub{p: p, key: c.Key, role: "served", what: "input", want: c.InWant}
	p.mu.Lock()
	p.served[c.Key] = r
	p.mu.Unlock()
	p.log(c.Key, "served", "invoked", 0, problem)
	if p.Inner != nil {
		p.log(c.Key, "served", "context", p.Inner(ctx), "")
	}
	return r
}

// ErrWant is the error a failing call is answered with.
func (c *Call) ErrWant() string { return fmt.Sprintf("call %d fails", c.Key) + ErrText(c.ErrPad) }

func (c *Call) answer() (v payload.Payload, err error) {
	if c.Answer == "error" || c.Answer == "mapfail" || c.Answer == "laterfail" {
		return nil, errors.New(c.ErrWant())
	}
	if c.RespMeta.N == 0 {
		return payload.New(c.Resp.Bytes()), nil
	}
	return payload.New(c.Resp.Bytes(), c.RespMeta.Bytes()), nil
}

// HandleRR and its siblings are the handlers of operation op.
func (p *Player) HandleRR(op int) func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
	return func(ctx context.Context, pl payload.Payload) mono.Mono[payload.Payload] {
		if op == Bare {
			return mono.Just(p.bare(pl))
		}
		r := p.serve(ctx, RR, op, pl)
		if r == nil {
			return mono.Error[payload.Payload](errors.New("garbage"))
		}
		c := r.c
		if c.Relay != nil {
			p.log(c.Relay.Key, "made", "relays", 0, "")
			return p.Peer.RequestResponse(ctx, p.payload(ctx, c.Relay))
		}
		v, err := c.answer()
		switch c.Answer {
		case "error":
			return mono.Error[payload.Payload](err)
		case "mapfail":
			return mono.Map(mono.Just(payload.Payload(payload.New(nil))), func(payload.Payload) (payload.Payload, error) { return nil, err })
		case "later", "laterfail":
			s := mono.NewProcessor[payload.Payload]()
			p.mu.Lock()
			r.sink = s
			p.mu.Unlock()
			return s
		}
		return mono.Just(v)
	}
}

// bare answers an unscripted request: with its data and the metadata that
// follows the id of the operation.
func (p *Player) bare(pl payload.Payload) payload.Payload {
	d := append([]byte{}, pl.Data()...)
	if len(d) == 0 {
		return payload.New(nil)
	}
	return payload.New(d, append([]byte{}, byte(len(d)), byte(len(d)>>8)))
}

func (p *Player) HandleFNF(op int) func(context.Context, payload.Payload) {
	return func(ctx context.Context, pl payload.Payload) {
		if op == Bare {
			p.logData(1, "served", "bare", 0, pl)
			return
		}
		if r := p.serve(ctx, FNF, op, pl); r != nil && r.c.Relay != nil {
			p.log(r.c.Relay.Key, "made", "relays", 0, "")
			p.Peer.FireAndForget(ctx, p.payload(ctx, r.c.Relay))
		}
	}
}

func (p *Player) HandleStream(op int) func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
	return func(ctx context.Context, pl payload.Payload) flux.Flux[payload.Payload] {
		if op == Bare {
			return flux.FromSlice([]payload.Payload{p.bare(pl), payload.New(nil), p.bare(pl)})
		}
		r := p.serve(ctx, Stream, op, pl)
		if r == nil {
			return flux.Error[payload.Payload](errors.New("garbage"))
		}
		if y := r.c.Relay; y != nil {
			p.log(y.Key, "made", "relays", 0, "")
			return p.Peer.RequestStream(ctx, p.payload(ctx, y))
		}
		return r.out.flux()
	}
}

func (p *Player) HandleChannel(op int) func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	return func(ctx context.Context, pl payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if op == Bare {
			return echo(in)
		}
		r := p.serve(ctx, Channel, op, pl)
		if r == nil {
			return flux.Error[payload.Payload](errors.New("garbage"))
		}
		if y := r.c.Relay; y != nil {
			p.log(y.Key, "made", "relays", 0, "")
			return p.Peer.RequestChannel(ctx, p.payload(ctx, y), in)
		}
		if r.c.Echo {
			return flux.Create(func(s flux.Sink[payload.Payload]) {
				s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
				cb := r.isub.callbacks(in)
				next, complete, fail := cb.OnNext, cb.OnComplete, cb.OnError
				cb.OnNext = func(p payload.Payload) { next(p); s.Next(p) }
				cb.OnComplete = func() { complete(); s.Complete() }
				cb.OnError = func(err error) { fail(err); s.Error(err) }
				in.Subscribe(cb)
			})
		}
		if r.c.InWant.Policy != "never" {
			in.Subscribe(r.isub.callbacks(in))
		}
		return r.out.flux()
	}
}

// echo sends back what comes in.
func echo(in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
		in.Subscribe(flux.Subscribe[payload.Payload]{OnNext: s.Next, OnComplete: s.Complete, OnError: s.Error})
	})
}

// --- commands ---

func (p *Player) run(role string, key uint32) *run {
	p.mu.Lock()
	defer p.mu.Unlock()
	if role == "made" {
		return p.made[key]
	}
	return p.served[key]
}

// runs lists one side's ends in order.
func (p *Player) runs(m map[uint32]*run) []*run {
	p.mu.Lock()
	defer p.mu.Unlock()
	var rs []*run
	for _, r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].c.Key < rs[j].c.Key })
	return rs
}

func (r *run) settle() bool {
	r.p.mu.Lock()
	s := r.sink
	if s == nil || r.settled {
		r.p.mu.Unlock()
		return false
	}
	r.settled = true
	r.p.mu.Unlock()
	if v, err := r.c.answer(); err != nil {
		s.Error(err)
	} else {
		s.Success(v)
	}
	return true
}

// more asks for n more items.
func (s *sub) more(n int) bool {
	sub := s.subscription()
	if sub == nil || s.over() {
		return false
	}
	s.request(sub, n)
	return true
}

// Reset forgets everything.
func (p *Player) Reset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.made, p.served = map[uint32]*run{}, map[uint32]*run{}
	p.events, p.kept = nil, nil
}

// Do carries out a command.
func (p *Player) Do(c Cmd) Reply {
	switch c.Do {
	case "reset":
		p.Reset()
		return Reply{OK: true}
	case "start":
		for i := 0; i < max(1, c.Times); i++ {
			for _, call := range c.Calls {
				ctx := context.Background()
				if p.Root != nil {
					ctx = p.Root(call.Key + uint32(i)*8)
				}
				p.start(ctx, call.Times(i))
			}
		}
		return Reply{OK: true}
	case "settle":
		if r := p.run("served", c.Key); r != nil {
			return Reply{OK: r.settle()}
		}
	case "finish":
		for _, r := range p.runs(p.served) {
			r.settle()
			for r.out.push() {
			}
			if r.c.Kind == Channel && r.c.InWant.Policy == "manual" {
				r.isub.more(1000)
			}
		}
		for _, r := range p.runs(p.made) {
			for r.in.push() {
			}
			if r.c.Kind >= Stream && r.c.Want.Policy == "manual" {
				r.sub.more(1000)
			}
		}
		return Reply{OK: true}
	case "push":
		if r := p.run("served", c.Key); r != nil {
			return Reply{OK: r.out.push()}
		}
	case "pushin":
		if r := p.run("made", c.Key); r != nil {
			return Reply{OK: r.in.push()}
		}
	case "req":
		if r := p.run("made", c.Key); r != nil && r.c.Want.Policy == "manual" && r.c.Kind >= Stream {
			return Reply{OK: r.sub.more(c.N)}
		}
	case "reqin":
		if r := p.run("served", c.Key); r != nil && r.c.InWant.Policy == "manual" && r.c.Kind == Channel {
			return Reply{OK: r.isub.more(c.N)}
		}
	case "cancel":
		if r := p.run("made", c.Key); r != nil && r.c.Kind >= Stream {
			return Reply{OK: r.sub.cancel()}
		}
	case "cancelin":
		if r := p.run("served", c.Key); r != nil && r.c.Kind == Channel {
			return Reply{OK: r.isub.cancel()}
		}
	case "log":
		p.mu.Lock()
		defer p.mu.Unlock()
		n := len(p.events)
		if c.N > 0 && n > c.N {
			n = c.N
		}
		ev := p.events[:n]
		p.events = p.events[n:]
		return Reply{OK: true, Events: ev, More: len(p.events) > 0}
	case "kept":
		p.mu.Lock()
		defer p.mu.Unlock()
		var bad []Event
		for _, k := range p.kept {
			if Digest(k.b) != k.d && len(bad) < 20 {
				bad = append(bad, Event{Key: k.key, What: k.what, N: int64(len(k.b))})
			}
		}
		return Reply{OK: true, Events: bad}
	}
	return Reply{}
}

func (s *sub) over() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stop || s.final
}

// errText is the text of an error; the code may pass on one that is missing.
func errText(err error) string {
	if err == nil {
		return "<no error>"
	}
	return err.Error()
}
