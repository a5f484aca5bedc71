package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// MixCase is calls between a Go endpoint and a Rust one.
type MixCase struct {
	GoSide int // the host is side 0
	SockCase
}

// mix is a case under way.
type mix struct {
	run   uint32
	goes  int // the side of the Go endpoint
	calls []*callState
	h     *handler.Handler
	rust  []int // the calls the Rust endpoint makes, in the order it does
	index map[int]int

	mu       sync.Mutex
	activity int
	seen     [][]sockEvent
	handled  []*invocation
	toRust   [][]byte
	toGo     [][]byte
	trace    []traced
	emitters []*emitter
	inputs   map[int]*goInput
	outputs  map[int]flux.Flux[payload.Payload]
	problem  string
	granted  map[uint32]int // input items the Rust endpoint may send
	sent     map[uint32]int

	fromRust sockAnswer
}

type traced struct {
	side  int
	frame rs.Frame
}

var (
	mixOnce  sync.Once
	mixOps   [8]uint32 // by type of request
	mixRuns  atomic.Uint32
	theMix   atomic.Pointer[mix]
	mixSpace = "mix"
)

// of finds the case a request is for, nil if that is over.
func (x *mix) of(md []byte) *mix {
	m := theMix.Load()
	if m == nil || len(md) < 4 || binary.BigEndian.Uint32(md) != m.run {
		return nil
	}
	return m
}

func mixExports() {
	mixOnce.Do(func() {
		var none *mix
		over := errors.New("the case is over")
		mixOps[rs.TRequestResponse] = 0
		invoke.ExportRequestResponse(mixSpace, "op", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			m := none.of(p.Metadata())
			if m == nil {
				return mono.Error[payload.Payload](over)
			}
			_, k, i := m.handling(rs.TRequestResponse, p)
			switch {
			case k.Mode == 0 && k.End == 0:
				return mono.Just[payload.Payload](payload.New(p.Data()))
			case k.Mode == 0:
				return mono.Error[payload.Payload](k.failure(i))
			}
			return mono.Create(func(s mono.Sink[payload.Payload]) {
				answer := func() {
					if k.End == 1 {
						s.Error(k.failure(i))
					} else {
						s.Success(payload.New(p.Data()))
					}
				}
				if k.Mode == 1 {
					answer()
				} else {
					go answer()
				}
			})
		})
		invoke.ExportFireAndForget(mixSpace, "op", func(_ context.Context, p payload.Payload) {
			if m := none.of(p.Metadata()); m != nil {
				m.handling(rs.TRequestFNF, p)
			}
		})
		invoke.ExportRequestStream(mixSpace, "op", func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			if len(p.Metadata()) < 8 {
				return flux.Error[payload.Payload](over)
			}
			m := none.of(p.Metadata()[8:])
			if m == nil {
				return flux.Error[payload.Payload](over)
			}
			inv, k, i := m.handling(rs.TRequestStream, p)
			return m.emit(inv, k, i).flux()
		})
		invoke.ExportRequestChannel(mixSpace, "op", func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			if len(p.Metadata()) < 8 {
				return flux.Error[payload.Payload](over)
			}
			m := none.of(p.Metadata()[8:])
			if m == nil {
				return flux.Error[payload.Payload](over)
			}
			inv, k, i := m.handling(rs.TRequestChannel, p)
			return m.respond(inv, k, i, p, in)
		})
		ops := invoke.GetOperations().Exported
		for kind, infos := range map[int][]invoke.HandlerInfo{rs.TRequestResponse: ops.RequestResponse, rs.TRequestFNF: ops.FireAndForget, rs.TRequestStream: ops.RequestStream, rs.TRequestChannel: ops.RequestChannel} {
			for id, info := range infos {
				if info.Namespace == mixSpace {
					mixOps[kind] = uint32(id)
				}
			}
		}
	})
}

func (k *callState) failure(i int) error { return fmt.Errorf("error %d", i) }

// handling notes an invocation of a Go handler.
func (m *mix) handling(kind int, p payload.Payload) (*invocation, *callState, int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.activity++
	inv := &invocation{Side: m.goes, Kind: kind, MD: bytes.Clone(p.Metadata()), Data: bytes.Clone(p.Data())}
	m.handled = append(m.handled, inv)
	i := -1
	if len(p.Data()) >= 4 {
		i = int(binary.BigEndian.Uint32(p.Data()))
	}
	if i < 0 || i >= len(m.calls) {
		return inv, &callState{}, 0
	}
	return inv, m.calls[i], i
}

func (m *mix) note(inv *invocation, what string, data []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.activity++
	inv.Events = append(inv.Events, sockEvent{what, bytes.Clone(data)})
}

func (m *mix) saw(i int, what string, data []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.activity++
	m.seen[i] = append(m.seen[i], sockEvent{what, bytes.Clone(data)})
}

// emitter sends what a handler is asked to send, an item each time the case
// ticks, or all at once.
type emitter struct {
	m     *mix
	inv   *invocation
	k     *callState
	i     int
	sink  flux.Sink[payload.Payload]
	n     int
	wait  int
	ready bool // it may begin
	over  bool
	busy  bool
}

func (m *mix) emit(inv *invocation, k *callState, i int) *emitter {
	return &emitter{m: m, inv: inv, k: k, i: i, ready: true}
}

func (e *emitter) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{
			Request: func(int) {
				e.m.mu.Lock()
				first := e.sink == nil
				e.sink = s
				if first {
					e.m.emitters = append(e.m.emitters, e)
				}
				e.m.mu.Unlock()
				if first && e.k.Mode == 0 && e.k.Pause == 0 && e.k.End != 2 {
					for e.tick() {
					}
				}
			},
			Cancel: func() {
				e.m.mu.Lock()
				e.over = true
				e.m.mu.Unlock()
				e.m.note(e.inv, "cancelled", nil)
			},
		})
	})
}

// tick sends an item or the end. False once there is nothing left to send.
func (e *emitter) tick() bool {
	e.m.mu.Lock()
	if e.sink == nil || !e.ready || e.over || e.busy {
		e.m.mu.Unlock()
		return false
	}
	if e.wait < e.k.Pause && e.k.Mode != 0 {
		e.wait++
		e.m.mu.Unlock()
		return true
	}
	e.wait = 0
	e.busy = true
	n := e.n
	e.n++
	end := n >= e.k.Items && e.k.End != 2
	e.over = end
	e.m.activity++
	e.m.mu.Unlock()
	switch {
	case !end:
		e.sink.Next(payload.New(e.k.item(e.i, n)))
	case e.k.End == 1:
		e.sink.Error(e.k.failure(e.i))
	default:
		e.sink.Complete()
	}
	e.m.mu.Lock()
	e.busy = false
	e.m.mu.Unlock()
	return !end
}

// respond is the handler of channels.
func (m *mix) respond(inv *invocation, k *callState, i int, first payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	e := m.emit(inv, k, i)
	var echo flux.Sink[payload.Payload]
	heard := 0
	enough := func() {
		m.note(inv, "enough", nil)
		m.mu.Lock()
		e.ready = true
		m.mu.Unlock()
	}
	s := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			m.note(inv, "item", p.Data())
			heard++
			if k.Mode == 0 {
				echo.Next(payload.New(p.Data()))
			}
			if k.Mode == 2 && heard == k.K {
				enough()
				in.Subscription().Cancel()
			}
		},
		OnComplete: func() { m.note(inv, "completes", nil) },
		OnError:    func(err error) { m.note(inv, "fails", []byte(err.Error())) },
		Finally: func(rx.SignalType) {
			if k.Mode == 0 {
				if k.End == 1 {
					echo.Error(k.failure(i))
				} else {
					echo.Complete()
				}
			}
			m.mu.Lock()
			e.ready = true
			m.mu.Unlock()
		},
	}
	if (k.K+k.Items)%3 > 0 {
		n := k.K + 1
		s.OnRequest = func(sub rx.Subscription) { sub.Request(n) }
	}
	if k.Mode == 0 {
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			echo = sink
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(int) {},
				Cancel:  func() { m.note(inv, "cancelled", nil) },
			})
			sink.Next(payload.New(first.Data()))
			in.Subscribe(s)
		})
	}
	e.ready = k.Mode == 1
	if k.Mode == 2 && k.K == 0 {
		enough()
	} else {
		in.Subscribe(s)
	}
	return e.flux()
}

// goInput is the input of a channel that the Go endpoint makes.
type goInput struct {
	mu     sync.Mutex
	queue  [][]byte
	md     []byte
	finish int // 1: fails, 2: completes
	sink   flux.Sink[payload.Payload]
	demand int
	busy   bool
	over   bool
}

func (g *goInput) work() {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.busy {
		return
	}
	g.busy = true
	for g.sink != nil && !g.over {
		if len(g.queue) > 0 && g.demand > 0 {
			d := g.queue[0]
			g.queue = g.queue[1:]
			g.demand--
			g.mu.Unlock()
			g.sink.Next(payload.New(d, g.md))
			g.mu.Lock()
			continue
		}
		if len(g.queue) > 0 || g.finish == 0 {
			break
		}
		g.over = true
		g.mu.Unlock()
		if g.finish == 1 {
			g.sink.Error(errors.New("the input fails"))
		} else {
			g.sink.Complete()
		}
		g.mu.Lock()
	}
	g.busy = false
}

func (g *goInput) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				g.mu.Lock()
				g.sink = s
				g.demand = min(g.demand+n, 1<<40)
				g.mu.Unlock()
				g.work()
			},
			Cancel: func() {
				g.mu.Lock()
				g.over = true
				g.mu.Unlock()
			},
		})
	})
}

// md is the metadata of a request: the operation, the case, then padding.
func (m *mix) md(i int) []byte {
	k := m.calls[i]
	b := binary.BigEndian.AppendUint32(nil, mixOps[k.Kind])
	b = binary.BigEndian.AppendUint32(b, 0)
	b = binary.BigEndian.AppendUint32(b, m.run)
	return append(b, k.SockCall.md(i)...)
}

// call makes a call of the Go endpoint.
func (m *mix) call(i int) {
	k := m.calls[i]
	p := payload.New(k.ask(i), m.md(i))
	ctx := context.Background()
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { m.saw(i, "item", p.Data()) },
		OnComplete: func() { m.saw(i, "completes", nil) },
		OnError:    func(err error) { m.saw(i, "fails", []byte(err.Error())) },
	}
	if k.K%2 == 1 {
		sub.OnRequest = func(s rx.Subscription) { s.Request(k.K) }
	}
	switch k.Kind {
	case rs.TRequestResponse:
		m.h.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { m.saw(i, "item", p.Data()) },
			OnError:   func(err error) { m.saw(i, "fails", []byte(err.Error())) },
		})
	case rs.TRequestFNF:
		m.h.FireAndForget(ctx, p)
		m.saw(i, "completes", nil)
	case rs.TRequestStream:
		f := m.h.RequestStream(ctx, p)
		m.outputs[i] = f
		f.Subscribe(sub)
	case rs.TRequestChannel:
		g := &goInput{md: m.md(i)}
		m.inputs[i] = g
		f := m.h.RequestChannel(ctx, p, g.flux())
		m.outputs[i] = f
		f.Subscribe(sub)
	}
}

// peer has the Rust endpoint take in frames and take steps.
func (m *mix) peer(arg map[string]any) error {
	var a struct {
		sockAnswer
		Frames    []hexed
		Undecoded []string
	}
	if _, err := ask("peer", arg, &a); err != nil {
		return err
	}
	if len(a.Undecoded) > 0 {
		return fmt.Errorf("the Rust endpoint does not decode a frame of the Go endpoint: %s", a.Undecoded[0])
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if arg["report"] != nil {
		m.fromRust = a.sockAnswer
	}
	for _, b := range a.Frames {
		f, err := rs.Decode(b)
		if err != nil {
			return fmt.Errorf("the Rust endpoint sends %x, which is no frame: %v", clip(b), err)
		}
		m.trace = append(m.trace, traced{1 - m.goes, f})
		m.toGo = append(m.toGo, b)
		m.activity++
		if f.Type == rs.TRequestChannel {
			m.granted[f.ID] = 1
		}
		if n, ok := m.granted[f.ID]; ok && (f.Type == rs.TRequestChannel || f.Type == rs.TPayload && f.Next) {
			m.sent[f.ID]++
			if m.sent[f.ID] > n {
				return fmt.Errorf("the Rust endpoint sends item %d of the input of stream %d, when %d have been asked for", m.sent[f.ID], f.ID, n)
			}
		}
	}
	return nil
}

// deliver takes a frame from a side to the other.
func (m *mix) deliver(side int) (bool, error) {
	if side == m.goes {
		m.mu.Lock()
		if len(m.toRust) == 0 {
			m.mu.Unlock()
			return false, nil
		}
		b := m.toRust[0]
		m.toRust = m.toRust[1:]
		m.mu.Unlock()
		if f, err := rs.Decode(b); err == nil && f.Type == rs.TRequestN {
			if n, ok := m.granted[f.ID]; ok {
				m.granted[f.ID] = min(n+int(f.N), 1<<40)
			}
		}
		return true, m.peer(map[string]any{"frames": []hexed{b}})
	}
	if len(m.toGo) == 0 {
		return false, nil
	}
	b := m.toGo[0]
	m.toGo = m.toGo[1:]
	f, err := decodeFrame(b)
	if err != nil {
		return true, fmt.Errorf("the Go endpoint does not decode the frame %x of the Rust endpoint: %v", clip(b), err)
	}
	if err := m.h.HandleFrame(f); err != nil {
		return true, fmt.Errorf("the Go endpoint fails to handle the frame %x of the Rust endpoint: %v", clip(b), err)
	}
	return true, nil
}

func decodeFrame(raw []byte) (frames.Frame, error) {
	if len(raw) < frames.FrameHeaderLen {
		return nil, rs.ErrTruncated
	}
	h := frames.ParseFrameHeader(raw)
	var f frames.Frame
	switch h.Type() {
	case frames.FrameTypeRequestN:
		f = &frames.RequestN{}
	case frames.FrameTypeCancel:
		f = &frames.Cancel{}
	case frames.FrameTypeError:
		f = &frames.Error{}
	case frames.FrameTypePayload:
		f = &frames.Payload{}
	default:
		f = &frames.RequestPayload{}
	}
	return f, f.Decode(&h, raw[frames.FrameHeaderLen:])
}

// round lets everything go on for a while.
func (m *mix) round() error {
	for side := range 2 {
		for {
			if ok, err := m.deliver(side); err != nil {
				return err
			} else if !ok {
				break
			}
		}
	}
	m.mu.Lock()
	es := append([]*emitter(nil), m.emitters...)
	m.mu.Unlock()
	for _, e := range es {
		e.tick()
	}
	return m.peer(map[string]any{})
}

func (m *mix) active() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.activity
}

func checkMix(ctx *kit.Ctx, c MixCase) error {
	mixExports()
	steps, calls, _, _ := c.script()
	for _, k := range calls {
		if k.Kind == rs.TRequestChannel && k.Side == c.GoSide {
			k.pushes = 0 // counted anew: the request is the first
		}
	}
	mode := handler.ClientMode
	if c.GoSide == 1 {
		mode = handler.ServerMode
	}
	m := &mix{
		run: mixRuns.Add(1), goes: c.GoSide, calls: calls, h: handler.New(context.Background(), mode),
		index: map[int]int{}, seen: make([][]sockEvent, len(calls)), inputs: map[int]*goInput{},
		outputs: map[int]flux.Flux[payload.Payload]{}, granted: map[uint32]int{}, sent: map[uint32]int{},
	}
	m.h.SetFrameSender(func(f frames.Frame) error {
		b := make([]byte, f.Size())
		f.Encode(b)
		r, err := rs.Decode(b)
		m.mu.Lock()
		defer m.mu.Unlock()
		m.activity++
		if err != nil {
			m.problem = fmt.Sprintf("the Go endpoint sends %x, which is no frame: %v", clip(b), err)
			return nil
		}
		m.trace = append(m.trace, traced{m.goes, r})
		m.toRust = append(m.toRust, b)
		return nil
	})
	theMix.Store(m)
	defer theMix.Store(nil)
	if err := m.peer(map[string]any{"open": true, "side": 1 - c.GoSide}); err != nil {
		return err
	}
	started := 0
	for _, s := range steps {
		var err error
		mine := s.Op != "call" && s.Call < len(calls) && calls[s.Call].Side == c.GoSide
		switch s.Op {
		case "call":
			i := started
			started++
			if s.Side == c.GoSide {
				if calls[i].Kind == rs.TRequestChannel {
					calls[i].pushes = 1
				}
				m.call(i)
				break
			}
			m.index[i] = len(m.rust)
			m.rust = append(m.rust, i)
			s.MD = m.md(i)
			err = m.peer(map[string]any{"steps": []driverStep{s}})
		case "push", "finish", "drop":
			if !mine {
				i := s.Call
				s.Call = m.index[i]
				err = m.peer(map[string]any{"steps": []driverStep{s}})
				break
			}
			k := calls[s.Call]
			if s.Op == "drop" {
				if f := m.outputs[s.Call]; f != nil {
					f.Subscription().Cancel()
				}
				break
			}
			g := m.inputs[s.Call]
			g.mu.Lock()
			if s.Op == "push" {
				g.queue = append(g.queue, k.input(s.Call, k.pushes))
				k.pushes++
			} else {
				g.finish = s.N
			}
			g.mu.Unlock()
			g.work()
		case "deliver":
			for ok := true; ok && err == nil && s.N > 0; s.N-- {
				ok, err = m.deliver(s.Side)
			}
		case "yield":
			time.Sleep(time.Duration(s.N) * 10 * time.Microsecond)
			err = m.peer(map[string]any{})
		case "settle":
			for n := 0; n < 6 && err == nil; n++ {
				err = m.round()
				time.Sleep(20 * time.Microsecond)
			}
		}
		if err != nil {
			return err
		}
	}
	ctx.NonTrivialIf(len(calls) > 1)
	// The inputs that have not ended end now.
	for i, k := range calls {
		switch {
		case k.Kind != rs.TRequestChannel || k.finished:
		case k.Side == c.GoSide:
			g := m.inputs[i]
			g.mu.Lock()
			g.finish = 2
			g.mu.Unlock()
			g.work()
		default:
			if err := m.peer(map[string]any{"steps": []driverStep{{Op: "finish", Call: m.index[i], N: 2}}}); err != nil {
				return err
			}
		}
	}
	// Everything there is to come comes in time; how long that takes the
	// threads of the Go side is not known.
	last, since := -1, time.Now()
	begin := since
	for {
		if err := m.round(); err != nil {
			return err
		}
		if a := m.active(); a != last {
			last, since = a, time.Now()
		}
		err := m.judge(ctx, false)
		if err == nil {
			break
		}
		if quiet := time.Since(since); quiet > 1500*time.Millisecond || time.Since(begin) > 30*time.Second {
			return err
		} else if quiet > time.Millisecond {
			time.Sleep(min(quiet/4, 10*time.Millisecond))
		}
	}
	// And nothing else.
	for range 5 {
		time.Sleep(50 * time.Microsecond)
		if err := m.round(); err != nil {
			return err
		}
	}
	return m.judge(ctx, true)
}

func (m *mix) judge(ctx *kit.Ctx, last bool) error {
	if err := m.peer(map[string]any{"report": true}); err != nil {
		return err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.problem != "" {
		return errors.New(m.problem)
	}
	ids := map[uint32]int{}
	type end struct {
		side int
		id   uint32
	}
	ended := map[end]string{}
	for _, t := range m.trace {
		f := t.frame
		if f.Type <= rs.TRequestChannel && f.Type >= rs.TRequestResponse {
			if len(f.Data) < 4 || binary.BigEndian.Uint32(f.Data) >= uint32(len(m.calls)) {
				return fmt.Errorf("a request with data %x, which no call sends", clip(f.Data))
			}
			i := int(binary.BigEndian.Uint32(f.Data))
			if _, ok := ids[f.ID]; ok {
				return fmt.Errorf("stream %d is requested twice", f.ID)
			}
			if int(f.ID&1) == t.side {
				return fmt.Errorf("side %d makes stream %d, an id of the other side", t.side, f.ID)
			}
			ids[f.ID] = i
			continue
		}
		e := end{t.side, f.ID}
		if t.side == m.goes {
			continue // S02, S04 and S06 are about these
		}
		i, ok := ids[f.ID]
		if !ok {
			return fmt.Errorf("a frame of type %d for stream %d, which has not been requested", f.Type, f.ID)
		}
		if by := ended[e]; by != "" && (f.Type == rs.TPayload || f.Type == rs.TError || f.Type == rs.TCancel && by == "its cancellation") {
			return fmt.Errorf("call %d: a frame of type %d of the Rust endpoint follows %s", i, f.Type, by)
		}
		switch {
		case f.Type == rs.TCancel && t.side == m.calls[i].Side:
			ended[e] = "its cancellation"
		case f.Type == rs.TError:
			ended[e] = "an error"
		case f.Type == rs.TPayload && f.Complete:
			ended[e] = "completion"
		}
	}
	invoked := map[int][]*invocation{}
	all := append([]*invocation(nil), m.handled...)
	for i := range m.fromRust.Handled {
		all = append(all, &m.fromRust.Handled[i])
	}
	for _, h := range all {
		i := len(m.calls)
		if len(h.Data) >= 4 {
			i = int(binary.BigEndian.Uint32(h.Data))
		}
		if i >= len(m.calls) {
			return fmt.Errorf("a handler of type %d is invoked with %x, which no call sent", h.Kind, clip(h.Data))
		}
		invoked[i] = append(invoked[i], h)
	}
	for i, k := range m.calls {
		got := m.seen[i]
		who := "Rust"
		if k.Side == m.goes {
			who = "Go"
		} else {
			got = m.fromRust.Calls[m.index[i]]
		}
		name := fmt.Sprintf("call %d of the %s endpoint (%+v, %d items pushed)", i, who, k.SockCall, k.pushes)
		if last {
			ctx.Label("%s-type-%d", who, k.Kind)
			if k.dropped {
				ctx.Label("%s-dropped-%d", who, k.Kind)
			}
		}
		if k.dropped && k.Kind == rs.TRequestResponse && k.Side == m.goes {
			got = nil // it cannot lose interest
		}
		if err := k.judge(i, got); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		n := len(invoked[i])
		switch {
		case n > 1:
			return fmt.Errorf("%s invokes its handler %d times", name, n)
		case n == 0 && k.Kind == rs.TRequestChannel && (k.pushes == 0 || k.dropped):
			continue
		case n == 0 && k.dropped && k.Side == m.goes && k.Kind >= rs.TRequestStream:
			continue // cancelled before it was sent
		case n == 0:
			return fmt.Errorf("%s does not invoke its handler", name)
		}
		h := invoked[i][0]
		md := m.md(i)
		if k.Side != m.goes && k.Kind < rs.TRequestStream {
			md = md[8:] // the operation is taken off
		}
		if h.Side == k.Side || h.Kind != k.Kind || !bytes.Equal(h.Data, k.ask(i)) || !bytes.Equal(h.MD, md) {
			return fmt.Errorf("%s: the handler of side %d for type %d is invoked with metadata %x, data %x", name, h.Side, h.Kind, clip(h.MD), clip(h.Data))
		}
		if err := k.judgeHandler(i, *h, false); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
	}
	return nil
}

func genMix(t *rapid.T) MixCase {
	return MixCase{GoSide: rapid.IntRange(0, 1).Draw(t, "go"), SockCase: genSock(sockOps, "")(t)}
}

var X06 = &kit.Property{
	ID:   "X06",
	Rule: "a case is calls of all kinds in both directions between a Go endpoint and a Rust one, with a script of what happens when; non-trivial when there is more than one call",
	Assumptions: []string{
		"the frames the two exchange arrive complete and in order",
		"the Rust responder does not mind demand; what a caller of it is sent beyond its demand is not judged",
		"a caller that loses interest in a request/response is not told about to its handler",
	},
	Facets: []kit.Facet{kit.F("mix", 3000, 60000, genMix, checkMix).WithBatch(250)},
}
