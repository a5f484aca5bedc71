package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"weak"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// Instances are closed and guests fail while calls are under way. Their
// callers are told, and what feeds them is stopped.

const rawTrap = rawSilent + 1

// DoomedCall is a call that would never end by itself.
type DoomedCall struct {
	Kind  int // play.RR, play.Stream, play.Channel
	From  int // 0: the host, 1: the guest
	Items int // what arrives of it at the host (of a channel's input, if the guest calls)
	Late  int // what arrives with the last batch before the end
	Over  bool
	Asked int // items that the guest asks for
	Src   string
	Block bool
}

// DoomedRound makes calls, and then the guest fails or the instance is closed.
type DoomedRound struct {
	Calls []DoomedCall
	How   string // trap: a call makes the guest fail; sends: it fails after sending a batch; close
	Hurry int    // calls made together with the failure
	Busy  bool   // the host is busy with the first of the last items until after that
}

// DoomCase is a history of an instance.
type DoomCase struct {
	Rounds []DoomedRound
	Twice  bool // it is closed twice
}

func genDoom(t *rapid.T) DoomCase {
	c := DoomCase{Twice: rapid.Bool().Draw(t, "twice")}
	n := rapid.IntRange(1, 3).Draw(t, "rounds")
	for i := 0; i < n; i++ {
		r := DoomedRound{How: "close", Hurry: rapid.IntRange(0, 3).Draw(t, "hurried"), Busy: rapid.IntRange(0, 2).Draw(t, "busy") == 0}
		if i < n-1 {
			r.How = rapid.SampledFrom([]string{"trap", "sends"}).Draw(t, "how")
		}
		r.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DoomedCall {
			d := DoomedCall{Kind: rapid.SampledFrom([]int{play.RR, play.Stream, play.Stream, play.Channel, play.Channel}).Draw(t, "kind"), From: rapid.IntRange(0, 1).Draw(t, "from")}
			if d.Kind != play.RR && (d.From == 0 || d.Kind == play.Channel) {
				d.Items, d.Late = rapid.IntRange(0, 4).Draw(t, "items"), rapid.IntRange(0, 3).Draw(t, "late items")
			}
			d.Over = rapid.IntRange(0, 3).Draw(t, "over") == 0
			d.Asked = rapid.IntRange(0, 3).Draw(t, "asked")
			d.Src = rapid.SampledFrom([]string{"ondemand", "hot"}).Draw(t, "source")
			d.Block = d.From == 0 && rapid.IntRange(0, 3).Draw(t, "blocks") == 0
			return d
		}), 1, 8).Draw(t, "calls")
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

// seenLog is what somebody sees.
type seenLog struct {
	mu     sync.Mutex
	events []string
	busy   chan struct{} // items take until it is closed
}

func (l *seenLog) add(format string, a ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.events = append(l.events, fmt.Sprintf(format, a...))
}

func (l *seenLog) get() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.events...)
}

func (l *seenLog) sub(keep *byteBox) flux.Subscribe[payload.Payload] {
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			runtime.KeepAlive(keep)
			l.add("next %s", p.Data())
			if l.busy != nil {
				<-l.busy
			}
		},
		OnComplete: func() { l.add("complete") },
		OnError:    func(err error) { l.add("error %s", errText(err)) },
		Finally:    func(rx.SignalType) { l.add("finally") },
	}
}

func errText(err error) string {
	if err == nil {
		return "<no error>"
	}
	return err.Error()
}

type byteBox struct{ b [64]byte }

// endless is a source that has no end.
type endless struct {
	kind             string
	mu               sync.Mutex
	started, stopped bool
	sent             int
}

func (s *endless) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.mu.Lock()
		s.started = true
		s.mu.Unlock()
		sub := flux.OnSubscribe{Cancel: func() {
			s.mu.Lock()
			s.stopped = true
			s.mu.Unlock()
		}}
		next := func() {
			s.mu.Lock()
			s.sent++
			k := s.sent
			s.mu.Unlock()
			sink.Next(payload.New([]byte(fmt.Sprint("s", k))))
		}
		if s.kind == "ondemand" {
			sub.Request = func(n int) {
				for i := 0; i < min(n, 3); i++ {
					next()
				}
			}
		}
		sink.OnSubscribe(sub)
		if s.kind == "hot" {
			next()
		}
	})
}

func (s *endless) running() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.started && !s.stopped
}

// doomed is a running call.
type doomed struct {
	spec    *DoomedCall
	key     string
	sid     uint32
	log     seenLog // of the caller if it is the host, else of the handler's input
	src     *endless
	invoked bool
	over    bool // its end has arrived
	n       int  // items that have arrived
	mu      sync.Mutex
}

func (d *doomed) what() string {
	return fmt.Sprintf("%s %s from the %s", play.KindName[d.spec.Kind], d.key, sideName[d.spec.From])
}

func frameBytes(f rs.Frame) []byte {
	b := f.Encode()
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

func rawPayload(d []byte, op uint32) payload.Payload {
	return payload.New(d, binary.BigEndian.AppendUint64(nil, uint64(op)<<32))
}

// rawStage has a raw guest put a batch aside.
func rawStage(inst *host.Instance, batch []byte) error {
	for off := 0; off < len(batch); off += 8192 {
		d := binary.BigEndian.AppendUint32([]byte{'A'}, uint32(off))
		if _, err := rawCommand(inst, append(d, batch[off:min(len(batch), off+8192)]...)); err != nil {
			return err
		}
	}
	return nil
}

func sizes(cmd byte, n int) []byte {
	return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32([]byte{cmd}, uint32(n)), uint32(n))
}

var rawPlain = sync.OnceValue(func() []byte { return rawModule(1, nil) })

func checkDoom(ctx *kit.Ctx, c DoomCase) error {
	inst, err := startRaw(context.Background(), rawPlain())
	if err != nil {
		return err
	}
	defer inst.Close()
	err = runDoom(ctx, c, inst)
	if errors.Is(err, errNotQuiet) {
		return ctx.Inconclusive("%v", err)
	}
	return err
}

func runDoom(ctx *kit.Ctx, c DoomCase, inst *host.Instance) error {
	var mu sync.Mutex
	byKey := map[string]*doomed{}
	find := func(p payload.Payload) *doomed {
		mu.Lock()
		defer mu.Unlock()
		d := byKey[string(p.Data())]
		if d != nil {
			d.mu.Lock()
			d.invoked = true
			d.mu.Unlock()
		}
		return d
	}
	inst.SetRequestResponseHandler(0, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		find(p)
		return mono.Create(func(mono.Sink[payload.Payload]) {})
	})
	inst.SetRequestStreamHandler(0, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return find(p).src.flux()
	})
	inst.SetRequestChannelHandler(0, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		d := find(p)
		in.Subscribe(d.log.sub(nil))
		return d.src.flux()
	})
	quiet := func() error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return fmt.Errorf("%w: %v", errNotQuiet, err)
		}
		return nil
	}
	var canaries []weak.Pointer[byteBox]
	bg := context.Background()
	call := func(d *doomed, op uint32) {
		keep := &byteBox{}
		canaries = append(canaries, weak.Make(keep))
		p := rawPayload([]byte(d.key), op)
		switch {
		case d.spec.Kind == play.RR && d.spec.Block:
			m := inst.RequestResponse(bg, p)
			go func() {
				if v, err := m.Block(); err != nil {
					d.log.add("error %s", err)
				} else {
					d.log.add("next %s", v.Data())
				}
				d.log.add("finally")
			}()
		case d.spec.Kind == play.RR:
			inst.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					runtime.KeepAlive(keep)
					d.log.add("next %s", p.Data())
				},
				OnError: func(err error) { d.log.add("error %s", errText(err)) },
				Finally: func(rx.SignalType) { d.log.add("finally") },
			})
		default:
			var f flux.Flux[payload.Payload]
			if d.spec.Kind == play.Channel {
				f = inst.RequestChannel(bg, p, d.src.flux())
			} else {
				f = inst.RequestStream(bg, p)
			}
			if d.spec.Block {
				go f.Block(d.log.sub(keep))
			} else {
				f.Subscribe(d.log.sub(keep))
			}
		}
	}
	var stragglers []*doomed
	release := func() {}
	defer func() { release() }()
	serial, guestID, pending := 0, uint32(1), 0
	for ri := range c.Rounds {
		r := &c.Rounds[ri]
		if err := rawReset(inst); err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		var calls []*doomed
		var batch []byte
		add := func(spec *DoomedCall) *doomed {
			d := &doomed{spec: spec, key: fmt.Sprint("call", serial), src: &endless{kind: spec.Src}}
			serial++
			mu.Lock()
			byKey[d.key] = d
			mu.Unlock()
			return d
		}
		specs := r.Calls
		if r.Busy {
			specs = append(specs[:len(specs):len(specs)], DoomedCall{Kind: play.Stream, Late: 1})
		}
		for i := range specs {
			d := add(&specs[i])
			if r.Busy && i == len(r.Calls) {
				d.log.busy = make(chan struct{})
				release = sync.OnceFunc(func() { close(d.log.busy) })
				calls = append([]*doomed{d}, calls...)
			} else {
				calls = append(calls, d)
			}
			if d.spec.From == 0 {
				call(d, rawSilent)
				continue
			}
			d.sid = guestID
			guestID += 2
			f := rs.Frame{ID: d.sid, Type: rs.TRequestResponse + d.spec.Kind, Data: []byte(d.key), HasMetadata: true, Metadata: make([]byte, 8), N: 1}
			if f.Type >= rs.TRequestStream {
				f.N = uint32(1 + d.spec.Asked)
			}
			batch = append(batch, frameBytes(f)...)
		}
		if err := quiet(); err != nil {
			return err
		}
		// Where the calls of the host are.
		log, err := rawLog(inst)
		if err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		ids := map[string]uint32{}
		for _, b := range log {
			fs, _ := split(b)
			for _, f := range fs {
				if q, err := rs.Decode(f); err == nil && q.Type >= rs.TRequestResponse && q.Type <= rs.TRequestChannel {
					ids[string(q.Data)] = q.ID
				}
			}
		}
		for _, d := range calls {
			if d.spec.From == 0 {
				if d.sid = ids[d.key]; d.sid == 0 {
					return fmt.Errorf("round %d: the request of %s does not arrive", ri, d.what())
				}
			}
		}
		// Something of them arrives.
		items := func(d *doomed, n int) (b []byte) {
			for i := 0; i < n; i++ {
				b = append(b, frameBytes(rs.Frame{ID: d.sid, Type: rs.TPayload, Data: []byte(fmt.Sprint("i", d.n)), Next: true})...)
				d.n++
			}
			return
		}
		send := func(b []byte) error {
			if len(b) == 0 {
				return nil
			}
			if err := rawStage(inst, b); err != nil {
				return err
			}
			_, err := rawCommand(inst, sizes('S', len(b)))
			return err
		}
		if err := send(batch); err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		batch = nil
		for _, d := range calls {
			batch = append(batch, items(d, d.spec.Items)...)
			if d.spec.From == 0 && d.spec.Kind == play.Channel && d.spec.Asked > 0 {
				batch = append(batch, frameBytes(rs.Frame{ID: d.sid, Type: rs.TRequestN, N: uint32(d.spec.Asked)})...)
			}
		}
		if err := send(batch); err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		if err := quiet(); err != nil {
			return err
		}
		judge := func(when string, ended bool) error {
			for _, d := range calls {
				if err := d.judge(ended); err != nil {
					return fmt.Errorf("round %d, %s: %s: %w", ri, when, d.what(), err)
				}
			}
			return nil
		}
		if err := judge("before it ends", false); err != nil {
			return err
		}
		var last []byte
		for _, d := range calls {
			last = append(last, items(d, d.spec.Late)...)
			if d.spec.Over && !(d.spec.From == 1 && d.spec.Kind != play.Channel) {
				d.over = true
				f := rs.Frame{ID: d.sid, Type: rs.TPayload, Complete: true}
				if d.spec.Kind == play.RR {
					f.Next, f.Data = true, []byte("answer")
				}
				last = append(last, frameBytes(f)...)
			}
		}
		if err := rawStage(inst, last); err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		if r.How != "sends" && len(last) > 0 {
			if r.Busy {
				// The answer is behind what the host is busy with.
				inst.RequestResponse(bg, rawPayload(sizes('S', len(last)), rawCmd)).Async()
				if err := quiet(); err != nil {
					return err
				}
			} else if _, err := rawCommand(inst, sizes('S', len(last))); err != nil {
				return fmt.Errorf("round %d: %w", ri, err)
			}
		}
		var hurried []*doomed
		hurry := func() {
			for i := 0; i < r.Hurry; i++ {
				d := add(&DoomedCall{Kind: []int{play.RR, play.Stream, play.Channel}[i%3], Src: "ondemand"})
				hurried = append(hurried, d)
				call(d, rawSilent)
			}
		}
		hurry()
		switch r.How {
		case "trap":
			d := add(&DoomedCall{Kind: play.RR})
			calls = append(calls, d)
			call(d, rawTrap)
		case "sends":
			d := add(&DoomedCall{Kind: play.RR})
			calls = append(calls, d)
			d.key = string(sizes('T', len(last)))
			call(d, rawCmd)
			d.key = "the failing one"
		case "close":
			inst.Close()
			if c.Twice {
				inst.Close()
			}
		}
		for _, d := range calls {
			if !d.over {
				pending++
			}
			ctx.Label("%s %s", play.KindName[d.spec.Kind], r.How)
		}
		if err := quiet(); err != nil {
			return err
		}
		release()
		if err := quiet(); err != nil {
			return err
		}
		when := "after its guest failed"
		if r.How == "close" {
			when = "after it was closed"
		}
		if err := judge(when, true); err != nil {
			return err
		}
		if r.How != "close" {
			// They may have been sent only after that, and not be answered.
			stragglers = append(stragglers, hurried...)
			continue
		}
		for _, d := range append(hurried, stragglers...) {
			if err := d.judge(true); err != nil {
				return fmt.Errorf("round %d, %s, made while something else ended: %s: %w", ri, when, d.what(), err)
			}
		}
		hurried, stragglers = nil, nil
		hurry()
		if err := quiet(); err != nil {
			return err
		}
		for _, d := range hurried {
			if err := d.judge(true); err != nil {
				return fmt.Errorf("round %d, %s, made later: %s: %w", ri, when, d.what(), err)
			}
		}
	}
	ctx.NonTrivialIf(pending > 0)
	// Nothing of them is kept.
	mu.Lock()
	clear(byKey)
	mu.Unlock()
	left := 0
	for try := 0; try < 3; try++ {
		runtime.GC()
		runtime.GC()
		left = 0
		for _, k := range canaries {
			if k.Value() != nil {
				left++
			}
		}
		if left == 0 {
			break
		}
		if err := quiet(); err != nil {
			return err
		}
	}
	runtime.KeepAlive(inst)
	if left > 2 {
		return fmt.Errorf("all calls have ended, but the subscribers of %d of %d are still reachable from the instance", left, len(canaries))
	}
	return nil
}

// judge says whether a call has seen what it should have.
func (d *doomed) judge(ended bool) error {
	got := d.log.get()
	var want []string
	for i := 0; i < d.n; i++ {
		want = append(want, fmt.Sprint("next i", i))
	}
	d.mu.Lock()
	invoked := d.invoked
	d.mu.Unlock()
	who := "its caller sees"
	if d.spec.From == 1 {
		if !invoked {
			return fmt.Errorf("its handler has not run")
		}
		who = "the input of its handler is"
	}
	switch {
	case d.spec.From == 1 && d.spec.Kind != play.Channel:
	case d.over && d.spec.Kind == play.RR:
		want = append(want, "next answer", "finally")
	case d.over:
		want = append(want, "complete", "finally")
	case ended:
		want = append(want, "error *", "finally")
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s %q, want %q", who, got, want)
	}
	for i := range want {
		if want[i] != got[i] && !(want[i] == "error *" && strings.HasPrefix(got[i], "error ") && len(got[i]) > 6) {
			return fmt.Errorf("%s %q, want %q", who, got, want)
		}
	}
	if ended && d.src.running() && !(d.over && d.spec.From == 0) {
		return fmt.Errorf("what it sends is not stopped")
	}
	if ended && d.src.running() {
		return fmt.Errorf("it had completed, but what its caller sends is not stopped")
	}
	return nil
}
