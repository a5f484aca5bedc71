package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"sync"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
)

// CrowdCase is a great many calls under way at once, answered in any order.
type CrowdCase struct {
	Server bool
	Stream bool // otherwise calls with one answer
	Calls  int
	Items  int // at most, of a stream
	Early  int // so many are answered before the others are made
	Order  uint64
}

func genCrowd(stream bool) func(t *rapid.T) CrowdCase {
	return func(t *rapid.T) CrowdCase { return crowd(t, stream) }
}

func crowd(t *rapid.T, stream bool) CrowdCase {
	c := CrowdCase{Stream: stream, Server: rapid.Bool().Draw(t, "server"), Order: rapid.Uint64().Draw(t, "order")}
	most := rapid.SampledFrom([]int{10, 300, 1200, 4500}).Draw(t, "most")
	c.Calls = rapid.IntRange(1, most).Draw(t, "calls")
	c.Items = rapid.IntRange(0, 3).Draw(t, "items")
	c.Early = rapid.IntRange(0, c.Calls).Draw(t, "early")
	return c
}

type crowdCall struct {
	stream bool
	id     uint32
	items  int
	fails  bool
	next   int // of what is to come
	seen   []string
	want   []string
}

func checkCrowd(ctx *kit.Ctx, c CrowdCase) error {
	mode := handler.ClientMode
	if c.Server {
		mode = handler.ServerMode
	}
	h := handler.New(context.Background(), mode)
	rng := rand.New(rand.NewPCG(c.Order, 0))
	calls := make([]*crowdCall, c.Calls)
	var mu sync.Mutex
	failure := ""
	byID := map[uint32]int{}
	h.SetFrameSender(func(f frames.Frame) error {
		mu.Lock()
		defer mu.Unlock()
		r, ok := f.(*frames.RequestPayload)
		if !ok {
			failure = fmt.Sprintf("a frame other than a request is sent: %+v", f)
			return nil
		}
		var i int
		if _, err := fmt.Sscan(string(r.Data), &i); err != nil || i < 0 || i >= len(calls) || calls[i] == nil || calls[i].id != 0 || byID[r.StreamID] != 0 {
			failure = fmt.Sprintf("an unexpected request is sent on stream %d: %q", r.StreamID, r.Data)
			return nil
		}
		calls[i].id = r.StreamID
		byID[r.StreamID] = i + 1
		return nil
	})
	ask := func(i int) {
		k := &crowdCall{stream: c.Stream, items: 1, fails: rng.IntN(4) == 0}
		if k.stream {
			k.items = rng.IntN(c.Items + 1)
		}
		mu.Lock()
		calls[i] = k
		mu.Unlock()
		see := func(s string) {
			mu.Lock()
			k.seen = append(k.seen, s)
			mu.Unlock()
		}
		p := payload.New([]byte(fmt.Sprint(i)), opMeta(1, nil))
		if k.stream {
			h.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:     func(p payload.Payload) { see(string(p.Data())) },
				OnComplete: func() { see("end") },
				OnError:    func(err error) { see("error " + err.Error()) },
			})
		} else {
			h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { see(string(p.Data())) },
				OnError:   func(err error) { see("error " + err.Error()) },
			})
		}
	}
	answer := func(of []int) error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		mu.Lock()
		bad := failure
		for _, i := range of {
			if calls[i].id == 0 && bad == "" {
				bad = fmt.Sprintf("no request is sent for call %d of %d", i, c.Calls)
			}
		}
		mu.Unlock()
		if bad != "" {
			return fmt.Errorf("%s", bad)
		}
		var order []int
		for _, i := range of {
			for n := 0; n <= calls[i].items; n++ {
				if calls[i].stream || n == 0 {
					order = append(order, i)
				}
			}
		}
		rng.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		for _, i := range order {
			k := calls[i]
			item := fmt.Sprintf("%d of call %d", k.next, i)
			f := rs.Frame{ID: k.id, Type: rs.TPayload, Next: true, Data: []byte(item)}
			switch {
			case k.fails && (!k.stream || k.next == k.items):
				f = rs.Frame{ID: k.id, Type: rs.TError, Code: 0x201, Data: []byte(item)}
				k.want = append(k.want, "error "+item)
			case !k.stream:
				f.Complete = true
				k.want = append(k.want, item)
			case k.next < k.items:
				k.want = append(k.want, item)
			default:
				f = rs.Frame{ID: k.id, Type: rs.TPayload, Complete: true}
				k.want = append(k.want, "end")
			}
			k.next++
			fr, err := decodeFrame(f.Encode())
			if err != nil {
				return fmt.Errorf("a frame of the peer is not decoded: %v", err)
			}
			if err := h.HandleFrame(fr); err != nil {
				return fmt.Errorf("handling a frame of the peer fails: %v", err)
			}
		}
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		mu.Lock()
		defer mu.Unlock()
		if failure != "" {
			return fmt.Errorf("%s", failure)
		}
		for _, i := range of {
			if k := calls[i]; !slices.Equal(k.seen, k.want) {
				return fmt.Errorf("call %d of %d (a stream: %v): its caller sees %q, the peer has sent %q", i, c.Calls, k.stream, k.seen, k.want)
			}
		}
		return nil
	}
	// The first are under way while others come and go, and end last.
	long := (c.Calls - c.Early) / 2
	var rest, early []int
	for i := range calls {
		ask(i)
		if i >= long && i < long+c.Early {
			early = append(early, i)
		} else {
			rest = append(rest, i)
		}
		if i == long+c.Early-1 {
			if err := answer(early); err != nil || ctx.Inconcl != "" {
				return err
			}
		}
	}
	ctx.NonTrivialIf(c.Calls > 1)
	ctx.Label("calls under way: %d or more", map[bool]int{true: 1000, false: map[bool]int{true: 100, false: 1}[c.Calls >= 100]}[c.Calls >= 1000])
	return answer(rest)
}

// FillCase is a queue that is filled far and emptied, again and again.
type FillCase struct{ Puts, Takes []int }

func genFill(t *rapid.T) FillCase {
	n := rapid.IntRange(1, 5).Draw(t, "rounds")
	most := rapid.SampledFrom([]int{20, 300, 3000, 70000}).Draw(t, "most")
	l := rapid.SliceOfN(rapid.IntRange(0, most), n, n)
	return FillCase{Puts: l.Draw(t, "puts"), Takes: l.Draw(t, "takes")}
}

func checkFill(ctx *kit.Ctx, c FillCase) error {
	q := buffer.NewUnbounded[int]()
	in, out := 0, 0
	take := func() error {
		select {
		case v := <-q.Get():
			if v != out {
				return fmt.Errorf("the queue holds %d to %d and yields %d", out, in-1, v)
			}
			out++
			q.Load()
			return nil
		default:
			return fmt.Errorf("the queue holds %d to %d and yields nothing", out, in-1)
		}
	}
	for r, n := range c.Puts {
		for ; n > 0; n-- {
			if !q.Put(in) {
				return fmt.Errorf("the queue with %d values refuses one", in-out)
			}
			in++
		}
		ctx.NonTrivialIf(in-out > 1000)
		for n := c.Takes[r]; n > 0 && out < in; n-- {
			if err := take(); err != nil {
				return err
			}
		}
	}
	for out < in {
		if err := take(); err != nil {
			return err
		}
	}
	return nil
}

// LongCase is a stream of many items whose consumer asks for some at a time.
type LongCase struct {
	Items, First, Refill int // demand: at first, and whenever it is exhausted
	Slice                bool
	Fails                bool
}

func genLong(most int) func(t *rapid.T) LongCase {
	return func(t *rapid.T) LongCase {
		n := rapid.IntRange(0, rapid.SampledFrom([]int{most / 100, most / 10, most}).Draw(t, "most")).Draw(t, "items")
		some := []int{1, 100, 255, 256, 1000, 1024, 4096, 65536, rx.RequestMax}
		c := LongCase{Items: n, First: rapid.SampledFrom(some).Draw(t, "first"), Refill: rapid.SampledFrom(some).Draw(t, "refill")}
		if c.Slice = rapid.Bool().Draw(t, "slice"); !c.Slice {
			c.Fails = rapid.Bool().Draw(t, "fails")
		}
		return c
	}
}

func (c LongCase) source() flux.Flux[payload.Payload] {
	item := func(i int) payload.Payload { return payload.New([]byte(fmt.Sprint(i))) }
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		var request func(n int)
		if c.Slice {
			items := make([]payload.Payload, c.Items)
			for i := range items {
				items[i] = item(i)
			}
			request = flux.SliceResponse(sink, items)
		} else {
			next := 0
			request = func(n int) {
				for ; n > 0 && next < c.Items; n-- {
					next++
					sink.Next(item(next - 1))
				}
				switch {
				case next < c.Items:
				case c.Fails:
					sink.Error(errors.New("in the end"))
				default:
					sink.Complete()
				}
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{Request: request, Cancel: func() {}})
	})
}

// longSeen is what the consumer of a long stream sees.
type longSeen struct {
	mu     sync.Mutex
	items  int
	asked  int
	ends   []string
	failed string
}

func (c LongCase) subscribe(f flux.Flux[payload.Payload]) *longSeen {
	s := &longSeen{}
	end := func(how string) {
		s.mu.Lock()
		s.ends = append(s.ends, how)
		s.mu.Unlock()
	}
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			s.mu.Lock()
			defer s.mu.Unlock()
			if d := string(p.Data()); d != fmt.Sprint(s.items) && s.failed == "" {
				s.failed = fmt.Sprintf("item %d is %q", s.items, d)
			}
			if s.items >= s.asked && s.failed == "" {
				s.failed = fmt.Sprintf("item %d comes when %d have been asked for", s.items, s.asked)
			}
			if len(s.ends) > 0 && s.failed == "" {
				s.failed = fmt.Sprintf("item %d comes after the end", s.items)
			}
			s.items++
		},
		OnComplete: func() { end("complete") },
		OnError:    func(err error) { end("error") },
		OnRequest: func(sub rx.Subscription) {
			s.mu.Lock()
			n := c.Refill
			if s.asked == 0 {
				n = c.First
			}
			s.asked = min(s.asked+n, rx.RequestMax)
			s.mu.Unlock()
			sub.Request(n)
		},
	})
	return s
}

func (c LongCase) judge(ctx *kit.Ctx, s *longSeen) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	ctx.NonTrivialIf(c.Items > 20)
	ctx.Label("items: %d or more", map[bool]int{true: 1000, false: 0}[c.Items >= 1000])
	if s.failed != "" {
		return fmt.Errorf("a stream of %d items: %s", c.Items, s.failed)
	}
	want := "complete"
	if c.Fails {
		want = "error"
	}
	if s.items != c.Items || len(s.ends) != 1 || s.ends[0] != want {
		return fmt.Errorf("a stream of %d items and %s: its subscriber sees %d items and the ends %v", c.Items, want, s.items, s.ends)
	}
	return nil
}

func checkLong(ctx *kit.Ctx, c LongCase) error {
	s := c.subscribe(c.source())
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	return c.judge(ctx, s)
}

var theLong LongCase

var longID = sync.OnceValue(func() uint32 {
	invoke.ExportRequestStream("crowds", "long", func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		return theLong.source()
	})
	for id, info := range invoke.GetOperations().Exported.RequestStream {
		if info.Namespace == "crowds" {
			return uint32(id)
		}
	}
	return 0
})

func checkLongCall(ctx *kit.Ctx, c LongCase) error {
	theLong = c
	l := newMemLink(false, 0, 0, func(int, rs.Frame) {}, func(int, rs.Frame) {})
	defer l.close()
	s := c.subscribe(l.h[0].RequestStream(context.Background(), payload.New(nil, opMeta(longID(), nil))))
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	if f := l.failure(); f != "" {
		return fmt.Errorf("%s", f)
	}
	return c.judge(ctx, s)
}
