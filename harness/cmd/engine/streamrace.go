package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// StreamRace repeats one race about a stream or channel on fresh ones of an
// endpoint. The harness is the peer; its frames, the application's source,
// and what the application asks for meet in many ways.
type StreamRace struct {
	Serve   bool // the peer makes the call
	Channel bool
	Start   bool // the call is made in the race
	Actors  []StreamActor
	Rounds  int
	Span    int
}

// StreamActor is one goroutine of a race.
type StreamActor struct {
	Do     string // peer, source, request, cancel
	Frames []RaceFrame
	Items  int
	End    string // of the source: "", complete, error
	N      []int
	Off    int
	Stride int
}

// RaceFrame is a frame of the peer.
type RaceFrame struct {
	Do string // next, last, complete, error, request, cancel
	N  uint32
}

const (
	raceDemand = 1 << iota
	raceItems
	raceEnds
)

func genStreamRace(channels bool) func(t *rapid.T) StreamRace {
	return func(t *rapid.T) StreamRace {
		c := StreamRace{Serve: rapid.Bool().Draw(t, "serve"), Channel: channels || rapid.Bool().Draw(t, "channel"),
			Rounds: rapid.SampledFrom([]int{40, 100, 150}).Draw(t, "rounds"), Span: rapid.SampledFrom([]int{30, 100, 300, 1000}).Draw(t, "span")}
		c.Start = rapid.Bool().Draw(t, "start")
		add := func(a StreamActor) {
			a.Off, a.Stride = rapid.IntRange(0, c.Span-1).Draw(t, "off"), rapid.IntRange(0, 40).Draw(t, "stride")
			c.Actors = append(c.Actors, a)
		}
		// What arrives and what leaves.
		rx, tx := c.Channel || !c.Serve, c.Channel || c.Serve
		if !c.Start && rapid.IntRange(0, 4).Draw(t, "nopeer") == 0 {
			// The application alone.
		} else {
			a := StreamActor{Do: "peer"}
			rxDone, txDone := !rx, !tx
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "frames"); i < n; i++ {
				var dos []string
				if !rxDone {
					dos = append(dos, "next", "complete", "complete", "last", "error")
				}
				if !txDone {
					dos = append(dos, "request", "request", "request", "cancel")
				}
				if len(dos) == 0 {
					break
				}
				f := RaceFrame{Do: rapid.SampledFrom(dos).Draw(t, "frame")}
				switch f.Do {
				case "complete", "last":
					rxDone = true
				case "error":
					// The responder's error ends both directions.
					rxDone, txDone = true, txDone || !c.Serve
				case "request":
					f.N = uint32(rapid.IntRange(1, 4).Draw(t, "n"))
				case "cancel":
					// The requester's cancel ends both directions.
					txDone, rxDone = true, rxDone || c.Serve
				}
				a.Frames = append(a.Frames, f)
			}
			add(a)
		}
		if tx {
			add(StreamActor{Do: "source", Items: rapid.IntRange(0, 3).Draw(t, "items"), End: rapid.SampledFrom([]string{"", "complete", "complete", "error"}).Draw(t, "end")})
		}
		if rx {
			if !c.Serve && c.Start || rapid.Bool().Draw(t, "requests") {
				add(StreamActor{Do: "request", N: rapid.SliceOfN(rapid.IntRange(1, 5), 1, 3).Draw(t, "n")})
			}
			if rapid.IntRange(0, 2).Draw(t, "cancels") == 0 {
				add(StreamActor{Do: "cancel"})
			}
		}
		return c
	}
}

// streamRound is one round.
type streamRound struct {
	key   string
	id    uint32
	frame map[string]frames.Frame
	acts  []func()

	begun  atomic.Bool // the request was sent
	silent atomic.Bool // the peer did nothing
	idle   atomic.Bool // the source did nothing
	late   atomic.Bool // nothing was asked for

	mu    sync.Mutex
	saw   []string
	tx    []rs.Frame
	src   peerSrc
	sub   rx.Subscription
	in    flux.Flux[payload.Payload]
	keep  weak.Pointer[canary]
	total int // asked for by the application
}

func (r *streamRound) see(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.saw = append(r.saw, fmt.Sprintf(format, a...))
}

// subscriber records what arrives.
func (r *streamRound) subscriber() flux.Subscribe[payload.Payload] {
	k := &canary{}
	r.keep = weak.Make(k)
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			r.see("item %s", p.Data())
			runtime.KeepAlive(k)
		},
		OnComplete: func() { r.see("complete") },
		OnError:    func(err error) { r.see("error %v", err) },
		Finally:    func(s rx.SignalType) { r.see("finally %v", s) },
		NoRequest:  true,
	}
}

func (r *streamRound) subscription() rx.Subscription {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sub
}

// wait waits for what happens at another's hands in the race itself.
func wait(done func() bool) bool {
	for i := 0; !done(); i++ {
		if i > 200 {
			runtime.Gosched()
		}
		if i > 1<<13 {
			return false
		}
	}
	return true
}

var raceRounds sync.Map

var raceIDs [2]uint32

var raceOnce sync.Once

func exportRaces() {
	exportPeers()
	raceOnce.Do(func() {
		const ns, name = "race", "op"
		find := func(p payload.Payload) *streamRound {
			v, ok := raceRounds.Load(string(p.Data()))
			if !ok {
				return nil
			}
			return v.(*streamRound)
		}
		none := errors.New("no such call")
		invoke.ExportRequestStream(ns, name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			if r := find(p); r != nil {
				return r.src.flux()
			}
			return flux.Error[payload.Payload](none)
		})
		invoke.ExportRequestChannel(ns, name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			r := find(p)
			if r == nil {
				return flux.Error[payload.Payload](none)
			}
			in.Subscribe(r.subscriber())
			r.mu.Lock()
			r.sub = in.Subscription()
			r.mu.Unlock()
			return r.src.flux()
		})
		ops := invoke.GetOperations().Exported
		for kind, infos := range [][]invoke.HandlerInfo{ops.RequestStream, ops.RequestChannel} {
			for id, info := range infos {
				if info.Namespace == ns {
					raceIDs[kind] = uint32(id)
				}
			}
		}
	})
}

// raceItem is the item of a source or peer.
func raceItem(i int) string { return fmt.Sprint("i", i) }

func (c *StreamRace) typ() int {
	if c.Channel {
		return rs.TRequestChannel
	}
	return rs.TRequestStream
}

func checkStreamRace(judge int) func(ctx *kit.Ctx, c StreamRace) error {
	return func(ctx *kit.Ctx, c StreamRace) error {
		exportRaces()
		h := handler.New(context.Background(), handler.ClientMode)
		var mu sync.Mutex
		byID := map[uint32]*streamRound{}
		byKey := map[string]*streamRound{}
		failure := ""
		fail := func(format string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			failure = fmt.Sprintf(format, a...)
		}
		h.SetFrameSender(func(f frames.Frame) error {
			b := make([]byte, f.Size())
			f.Encode(b)
			fr, err := rs.Decode(b)
			if err != nil {
				fail("the endpoint sends %x, which is no frame: %v", clipb(b), err)
				return nil
			}
			mu.Lock()
			request := fr.Type >= rs.TRequestResponse && fr.Type <= rs.TRequestChannel
			r := byID[fr.ID]
			if request {
				if r = byKey[string(fr.Data)]; r != nil && r.id == 0 {
					r.id = fr.ID
					byID[fr.ID] = r
				}
			}
			mu.Unlock()
			if r == nil {
				fail("the endpoint sends a frame on a stream there is not: %v", fr)
				return nil
			}
			r.mu.Lock()
			r.tx = append(r.tx, fr)
			r.mu.Unlock()
			if request {
				r.begun.Store(true)
			}
			return nil
		})
		kind := 0
		if c.Channel {
			kind = 1
		}
		meta := append(binary.BigEndian.AppendUint32(nil, raceIDs[kind]), 0, 0, 0, 0)
		arrive := func(f rs.Frame) {
			fr, err := decodeFrame(f.Encode())
			if err == nil {
				err = h.HandleFrame(fr)
			}
			if err != nil {
				fail("handling %v of the peer fails: %v", f, err)
			}
		}
		rounds := make([]*streamRound, c.Rounds)
		for i := range rounds {
			r := &streamRound{key: fmt.Sprintf("q%011d", keySeq.Add(1))}
			rounds[i] = r
			byKey[r.key] = r
			if c.Serve {
				r.id = uint32(2 * (i + 1))
				byID[r.id] = r
				raceRounds.Store(r.key, r)
			}
		}
		defer func() {
			for _, r := range rounds {
				raceRounds.Delete(r.key)
			}
		}()
		for _, r := range rounds {
			c.prepare(h, r, meta, arrive)
		}
		settle := func() error {
			if err := kit.Quiesce(quiesceLimit); err != nil {
				return ctx.Inconclusive("%v", err)
			}
			mu.Lock()
			defer mu.Unlock()
			if failure != "" {
				return errors.New(failure)
			}
			return nil
		}
		if err := settle(); err != nil || ctx.Inconcl != "" {
			return err
		}
		var at atomic.Int64
		var wg sync.WaitGroup
		n := int64(len(c.Actors))
		for i, a := range c.Actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, r := range rounds {
					at.Add(1)
					for s := 0; at.Load() < int64(k+1)*n; s++ {
						if s > 300 {
							runtime.Gosched()
						}
					}
					for s := (a.Off + k*a.Stride) % c.Span; s > 0; s-- {
						spun.Load()
					}
					r.acts[i]()
				}
			}()
		}
		wg.Wait()
		if err := settle(); err != nil || ctx.Inconcl != "" {
			return err
		}
		ctx.NonTrivialIf(len(c.Actors) > 1)
		ctx.Label("serves %v, channel %v, start %v", c.Serve, c.Channel, c.Start)
		ended := make([]bool, len(rounds))
		for k, r := range rounds {
			over, err := c.judge(r, judge)
			if err != nil {
				return fmt.Errorf("round %d of %d: %w", k, c.Rounds, err)
			}
			ended[k] = over
			r.acts, r.sub, r.in, r.src.sink, r.frame = nil, nil, nil, nil, nil
			raceRounds.Delete(r.key)
		}
		if judge&raceEnds == 0 {
			return nil
		}
		var kept int
		for i := 0; i < 20; i++ {
			runtime.GC()
			kept = -1
			for k, r := range rounds {
				if ended[k] && r.keep.Value() != nil {
					kept = k
				}
			}
			if kept < 0 {
				return nil
			}
			time.Sleep(time.Duration(i) * 5 * time.Millisecond)
		}
		runtime.KeepAlive(h)
		r := rounds[kept]
		return fmt.Errorf("round %d of %d: the subscriber of the stream is still held after it has ended: it has seen %q, %v were sent", kept, c.Rounds, r.saw, r.tx)
	}
}

// prepare brings a stream to where the race begins.
func (c *StreamRace) prepare(h *handler.Handler, r *streamRound, meta []byte, arrive func(rs.Frame)) {
	if c.Serve {
		request := rs.Frame{Type: c.typ(), ID: r.id, HasMetadata: true, Metadata: meta, Data: []byte(r.key), N: 1}
		if c.Start {
			r.acts = c.acts(r, arrive, func() { arrive(request) })
		} else {
			arrive(request)
			r.acts = c.acts(r, arrive, nil)
		}
		return
	}
	p := payload.New([]byte(r.key), meta)
	if c.Channel {
		r.in = h.RequestChannel(context.Background(), p, r.src.flux())
	} else {
		r.in = h.RequestStream(context.Background(), p)
	}
	r.in.Subscribe(r.subscriber())
	r.sub = r.in.Subscription()
	if !c.Start {
		r.total = 2
		r.sub.Request(2)
	}
	r.acts = c.acts(r, arrive, nil)
}

func (c *StreamRace) acts(r *streamRound, arrive func(rs.Frame), before func()) (acts []func()) {
	for _, a := range c.Actors {
		switch a.Do {
		case "peer":
			acts = append(acts, func() {
				if before != nil {
					before()
				}
				if !c.Serve && !wait(r.begun.Load) {
					r.silent.Store(true) // the call may never be made
					return
				}
				for i, f := range a.Frames {
					fr := rs.Frame{ID: r.id, Type: rs.TPayload}
					switch f.Do {
					case "next":
						fr.Next, fr.Data = true, []byte(raceItem(i))
					case "last":
						fr.Next, fr.Complete, fr.Data = true, true, []byte(raceItem(i))
					case "complete":
						fr.Complete = true
					case "error":
						fr.Type, fr.Code, fr.Data = rs.TError, 0x201, []byte("the peer fails")
					case "cancel":
						fr.Type = rs.TCancel
					case "request":
						fr.Type, fr.N = rs.TRequestN, f.N
					}
					arrive(fr)
				}
			})
		case "source":
			acts = append(acts, func() {
				var sink flux.Sink[payload.Payload]
				if !wait(func() bool {
					sink, _, _ = r.src.get()
					return sink != nil
				}) {
					r.idle.Store(true) // nobody may ever subscribe to it
					return
				}
				for i := 0; i < a.Items; i++ {
					sink.Next(payload.New([]byte(raceItem(i))))
				}
				switch a.End {
				case "complete":
					sink.Complete()
				case "error":
					sink.Error(errors.New("the source fails"))
				}
			})
		case "request":
			acts = append(acts, func() {
				if !wait(func() bool { return r.subscription() != nil }) {
					r.late.Store(true)
					return
				}
				for _, n := range a.N {
					r.subscription().Request(n)
				}
			})
		case "cancel":
			acts = append(acts, func() {
				if wait(func() bool { return r.subscription() != nil }) {
					r.subscription().Cancel()
				}
			})
		}
	}
	return
}

// judge compares what came of a round with what is to come of it. It reports
// whether the stream is over in both directions.
func (c *StreamRace) judge(r *streamRound, judge int) (over bool, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	_, given, stopped := r.src.get()
	var (
		peer                RaceFrames
		source              StreamActor
		hasSource, cancels  bool
		asked               = r.total
		rx, tx              = c.Channel || !c.Serve, c.Channel || c.Serve
		sent                []string // of the source
		requested           int
		cancelFrames        int
		finals              int
		requests            int
		unexpected, lateEnd string
	)
	for _, a := range c.Actors {
		switch a.Do {
		case "peer":
			if !r.silent.Load() {
				peer = a.Frames
			}
		case "source":
			if source, hasSource = a, true; r.idle.Load() {
				source.Items, source.End = 0, ""
			}
		case "cancel":
			cancels = true
		case "request":
			if r.late.Load() {
				continue
			}
			for _, n := range a.N {
				asked += n
			}
		}
	}
	for _, f := range r.tx {
		switch f.Type {
		case rs.TRequestStream, rs.TRequestChannel:
			requests++
			requested += int(f.N)
		case rs.TRequestN:
			requested += int(f.N)
		case rs.TCancel:
			cancelFrames++
		case rs.TError:
			sent = append(sent, "error "+string(f.Data))
			finals++
		case rs.TPayload:
			if finals > 0 {
				lateEnd = f.String()
			}
			if f.Next {
				sent = append(sent, "item "+string(f.Data))
			}
			if f.Complete {
				sent = append(sent, "complete")
				finals++
			}
		default:
			unexpected = f.String()
		}
	}
	tell := func(format string, a ...any) (bool, error) {
		return false, fmt.Errorf("%s (the subscriber sees %q, %v is sent, the source is asked for %d items and stopped %d times)", fmt.Sprintf(format, a...), r.saw, r.tx, given, stopped)
	}
	if unexpected != "" {
		return tell("a frame no endpoint sends here: %s", unexpected)
	}
	begun := c.Serve || requests > 0
	if !c.Serve && requests != 1 && (requests > 1 || !cancels) {
		return tell("the request is sent %d times", requests)
	}
	// What arrives.
	arrives, arriveEnd := peer.arriving()
	isCancelled := len(r.saw) > 0 && r.saw[len(r.saw)-1] == fmt.Sprintf("finally %v", rxCancel)
	for _, s := range r.saw {
		isCancelled = isCancelled || s == fmt.Sprintf("finally %v", rxCancel)
	}
	// The end of what leaves that ends what arrives as well, or the other way round.
	sourceFails := c.Serve && hasSource && source.End == "error"
	peerCancels := peer.has("cancel")
	peerFails := peer.has("error")
	rxFree := !isCancelled && !(c.Serve && peerCancels) && !sourceFails
	if rx {
		ends, items := 0, []string{}
		for _, s := range r.saw {
			switch {
			case len(s) > 4 && s[:5] == "item ":
				items = append(items, s)
			case len(s) > 7 && s[:8] == "finally ":
				ends++
			}
		}
		if judge&raceItems != 0 {
			if rxFree && begun {
				want := fmt.Sprint(append(append([]string{}, arrives...), arriveEnd...))
				if fmt.Sprint(r.saw) != want {
					return tell("the peer's side is %s", want)
				}
			} else if len(items) > len(arrives) || fmt.Sprint(items) != fmt.Sprint(arrives[:len(items)]) {
				return tell("the peer's items are %q", arrives)
			}
		}
		if judge&raceEnds != 0 {
			if want := isCancelled || len(arriveEnd) > 0 && rxFree || c.Serve && peerCancels; ends > 1 || want && ends == 0 {
				return tell("the subscriber sees %d ends", ends)
			}
			if isCancelled && !cancels && !(c.Serve && (peerCancels || sourceFails)) {
				return tell("nobody cancels")
			}
			if cancelFrames > 1 || cancelFrames == 1 && !isCancelled || cancelFrames == 0 && isCancelled && begun && cancels && rxOnlyCancel(c, peerCancels, sourceFails) {
				return tell("%d cancels are sent", cancelFrames)
			}
		}
		if judge&raceDemand != 0 {
			if requested > asked {
				return tell("%d items are asked for, the peer is asked for %d", asked, requested)
			}
			if rxFree && begun && len(arriveEnd) == 0 && requested != asked {
				return tell("%d items are asked for, the peer is asked for %d", asked, requested)
			}
		}
	}
	// What leaves.
	txStopped := peerCancels || !c.Serve && (peerFails || isCancelled)
	if tx && hasSource && begun {
		var want []string
		for i := 0; i < source.Items; i++ {
			want = append(want, "item "+raceItem(i))
		}
		switch source.End {
		case "complete":
			want = append(want, "complete")
		case "error":
			want = append(want, "error the source fails")
		}
		if judge&raceItems != 0 {
			if !txStopped && fmt.Sprint(sent) != fmt.Sprint(want) {
				return tell("the source gives %q", want)
			}
			for i, j := 0, 0; i < len(sent); i, j = i+1, j+1 {
				for j < len(want) && want[j] != sent[i] {
					j++
				}
				if j >= len(want) {
					return tell("the source gives %q", want)
				}
			}
		}
		if judge&raceEnds != 0 {
			if finals > 1 || lateEnd != "" {
				return tell("%d ends are sent", finals)
			}
			if stopped > 1 || stopped > 0 && !txStopped {
				return tell("the source is stopped %d times", stopped)
			}
			if r.src.sink != nil && txStopped && source.End == "" && stopped == 0 {
				return tell("the source is not stopped")
			}
		}
		total := 0
		if c.Serve {
			total = 1
		}
		for _, f := range peer {
			if f.Do == "request" {
				total += int(f.N)
			}
		}
		if judge&raceDemand != 0 {
			if given > total || !txStopped && source.End == "" && given != total {
				return tell("the peer asks for %d items", total)
			}
		}
	}
	rxOver := !rx || isCancelled || len(arriveEnd) > 0 || c.Serve && (peerCancels || sourceFails)
	txOver := !tx || txStopped || source.End != ""
	if c.Serve && isCancelled && !cancels {
		rxOver = true
	}
	return rxOver && txOver && r.keep.Value() != nil, nil
}

// rxOnlyCancel tells whether nothing but the subscriber's own cancel ends what
// arrives.
func rxOnlyCancel(c *StreamRace, peerCancels, sourceFails bool) bool {
	return !c.Serve || !peerCancels && !sourceFails
}

const rxCancel = rx.SignalCancel

// RaceFrames are what the peer sends.
type RaceFrames []RaceFrame

func (fs RaceFrames) has(do string) bool {
	for _, f := range fs {
		if f.Do == do {
			return true
		}
	}
	return false
}

// arriving is what a subscriber sees of it, and the end, if any.
func (fs RaceFrames) arriving() (items, end []string) {
	for i, f := range fs {
		switch f.Do {
		case "next", "last":
			items = append(items, "item "+raceItem(i))
		}
		switch f.Do {
		case "last", "complete":
			end = []string{"complete", fmt.Sprintf("finally %v", rx.SignalComplete)}
		case "error":
			end = []string{"error the peer fails", fmt.Sprintf("finally %v", rx.SignalError)}
		}
	}
	return
}
