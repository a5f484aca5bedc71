package main

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// CloseRace repeats one race on fresh publishers. Those taking part are
// released together, each after a pause that changes from round to round, so
// that their steps meet in many ways.
type CloseRace struct {
	Kind   string // create, processor, mapped, flux, items, demand, workflow
	Maps   []MapSpec
	Actors []RaceActor
	Rounds int
	Span   int
}

// RaceActor is one goroutine of a race.
type RaceActor struct {
	Do     string // signal, notify, subscribe, cancel, block; emit, source, request; settle, run
	Sig    Sig
	Items  []int
	N      int
	Off    int
	Stride int
}

func genCloseRace(kinds ...string) func(t *rapid.T) CloseRace {
	return func(t *rapid.T) CloseRace {
		c := CloseRace{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Rounds: rapid.SampledFrom([]int{50, 200, 200, 400}).Draw(t, "rounds"),
			Span: rapid.SampledFrom([]int{30, 100, 300, 1000}).Draw(t, "span")}
		add := func(do string) {
			a := RaceActor{Do: do, Off: rapid.IntRange(0, c.Span-1).Draw(t, "off"), Stride: rapid.IntRange(0, 40).Draw(t, "stride")}
			if do == "signal" || do == "settle" {
				a.Sig = genSig(t)
			}
			c.Actors = append(c.Actors, a)
		}
		if c.Kind == "workflow" {
			add("run")
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "awaited"); i < n; i++ {
				add("settle")
			}
			return c
		}
		switch c.Kind {
		case "items":
			c.Maps = genMaps(true, 2)(t)
			add("emit")
			a := &c.Actors[0]
			a.Items = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "items")
			a.Sig = genSig(t)
			if n := len(a.Items); n > 0 && rapid.Bool().Draw(t, "refused") {
				// The last item is refused.
				out, _ := applyMaps(c.Maps, Sig{Val: a.Items[n-1]})
				if out.Err == "" {
					c.Maps = append(c.Maps, MapSpec{Fail: out.Val})
				}
			}
			add("cancel")
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "others"); i < n; i++ {
				add(rapid.SampledFrom([]string{"notify", "notify", "cancel"}).Draw(t, "do"))
			}
			return c
		case "demand":
			c.Maps = genMaps(false, 2)(t)
			add("source")
			if rapid.Bool().Draw(t, "late subscription") {
				add("subscribe")
				c.Actors[1].N = rapid.IntRange(0, 3).Draw(t, "n")
				return c
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "requests"); i < n; i++ {
				add("request")
				c.Actors[i+1].N = rapid.IntRange(1, 5).Draw(t, "n")
			}
			return c
		}
		if c.Maps = genMaps(false, 1)(t); c.Kind == "mapped" {
			c.Kind = rapid.SampledFrom([]string{"create", "processor"}).Draw(t, "mapped kind")
			c.Maps = genMaps(true, 3)(t)
		}
		add("signal")
		others := []string{"notify", "notify", "notify", "signal", "block"}
		switch c.Kind {
		case "processor":
			if rapid.Bool().Draw(t, "late subscription") {
				add("subscribe")
				others = []string{"notify", "notify", "signal"} // waiting subscribes as well
			}
		case "flux":
			others = append(others, "cancel")
		}
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "others"); i < n; i++ {
			add(rapid.SampledFrom(others).Draw(t, "do"))
		}
		return c
	}
}

// raceRound is one round: its publisher and what is seen of it.
type raceRound struct {
	acts []func()
	mu   sync.Mutex
	saw  []string // by the subscriber
	obs  []*raceObs
	get  func() (Sig, bool)

	demand int
	end    func()
	counts func() []int
}

type raceObs struct {
	what string
	n    int
	got  string
}

func (r *raceRound) see(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.saw = append(r.saw, fmt.Sprintf(format, a...))
}

func (r *raceRound) observe(what string) func(string) {
	o := &raceObs{what: what}
	r.obs = append(r.obs, o)
	return func(got string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		o.n++
		o.got = got
	}
}

func (c *CloseRace) round() *raceRound {
	r := &raceRound{}
	if c.Kind == "workflow" {
		c.workflow(r)
		return r
	}
	switch c.Kind {
	case "items":
		c.items(r)
		return r
	case "demand":
		c.demand(r)
		return r
	}
	var (
		notify    func(rx.FnFinally)
		subscribe func()
		block     func() Sig
		give      func(Sig)
		cancel    func()
	)
	if c.Kind == "flux" {
		var sink flux.Sink[int]
		f := flux.Create(func(s flux.Sink[int]) {
			sink = s
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
		})
		fns, _ := txs(c.Maps)
		for _, fn := range fns {
			f = flux.Map(f, fn)
		}
		notify = f.Notify
		subscribe = func() {
			f.Subscribe(flux.Subscribe[int]{
				OnComplete: func() { r.see("complete") },
				OnError:    func(err error) { r.see("error %v", err) },
				Finally:    func(s rx.SignalType) { r.see("finally %v", s) },
			})
		}
		block = func() Sig { return toSig(0, f.Block(flux.Subscribe[int]{})) }
		give = func(s Sig) {
			if s.Err != "" {
				sink.Error(errors.New(s.Err))
			} else {
				sink.Complete()
			}
		}
		cancel = func() { f.Subscription().Cancel() }
	} else {
		var m mono.Mono[int]
		if c.Kind == "processor" {
			p := mono.NewProcessor[int]()
			m = p
			give = func(s Sig) { signal(p, s) }
		} else {
			var sink mono.Sink[int]
			m = mono.Create(func(s mono.Sink[int]) { sink = s })
			give = func(s Sig) { signal(sink, s) }
		}
		fns, counts := txs(c.Maps)
		for _, fn := range fns {
			m = mono.Map(m, fn)
		}
		r.counts = counts
		notify = m.Notify
		subscribe = func() {
			m.Subscribe(mono.Subscribe[int]{
				OnSuccess: func(v int) { r.see("value %d", v) },
				OnError:   func(err error) { r.see("error %v", err) },
				Finally:   func(s rx.SignalType) { r.see("finally %v", s) },
			})
		}
		block = func() Sig { return toSig(m.Block()) }
		r.get = func() (Sig, bool) { return toSig(m.Get()), true }
	}
	late := false
	for _, a := range c.Actors {
		late = late || a.Do == "subscribe"
	}
	if !late {
		subscribe()
	}
	for _, a := range c.Actors {
		switch a.Do {
		case "signal":
			r.acts = append(r.acts, func() { give(a.Sig) })
		case "subscribe":
			r.acts = append(r.acts, subscribe)
		case "cancel":
			r.acts = append(r.acts, cancel)
		case "notify":
			done := r.observe("completion callback")
			r.acts = append(r.acts, func() { notify(func(s rx.SignalType) { done(fmt.Sprint(s)) }) })
		case "block":
			done := r.observe("blocking call")
			r.acts = append(r.acts, func() {
				go func() { done(block().String()) }()
			})
		}
	}
	return r
}

// items is a stream whose source is cancelled while it emits.
func (c *CloseRace) items(r *raceRound) {
	var sink flux.Sink[int]
	f := flux.Create(func(s flux.Sink[int]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
	})
	fns, _ := txs(c.Maps)
	for _, fn := range fns {
		f = flux.Map(f, fn)
	}
	f.Subscribe(flux.Subscribe[int]{
		OnNext:     func(v int) { r.see("item %d", v) },
		OnComplete: func() { r.see("complete") },
		OnError:    func(err error) { r.see("error %v", err) },
		Finally:    func(s rx.SignalType) { r.see("finally %v", s) },
	})
	for _, a := range c.Actors {
		switch a.Do {
		case "emit":
			r.acts = append(r.acts, func() {
				for _, v := range a.Items {
					sink.Next(v)
				}
				if a.Sig.Err != "" {
					sink.Error(errors.New(a.Sig.Err))
				} else {
					sink.Complete()
				}
			})
		case "cancel":
			r.acts = append(r.acts, func() { f.Subscription().Cancel() })
		case "notify":
			done := r.observe("completion callback")
			r.acts = append(r.acts, func() { f.Notify(func(s rx.SignalType) { done(fmt.Sprint(s)) }) })
		}
	}
}

func (c *CloseRace) judgeItems(r *raceRound) error {
	emit := c.Actors[0]
	var all, end []string
	signalled := rx.SignalComplete
	if end = []string{"complete"}; emit.Sig.Err != "" {
		signalled = rx.SignalError
		end[0] = emit.Sig.String()
	}
	for _, v := range emit.Items {
		out, _ := applyMaps(c.Maps, Sig{Val: v})
		if out.Err != "" {
			signalled = rx.SignalError
			end[0] = out.String()
			break
		}
		all = append(all, fmt.Sprint("item ", out.Val))
	}
	whole := append(append([]string(nil), all...), end[0], fmt.Sprintf("finally %v", signalled))
	if fmt.Sprint(r.saw) != fmt.Sprint(whole) {
		// Cancelled: some of the items, of which one may be under way.
		signalled = rx.SignalCancel
		last := fmt.Sprintf("finally %v", signalled)
		var items []string
		ends := 0
		after := 0
		for _, s := range r.saw {
			switch {
			case s == last:
				ends++
			default:
				if items = append(items, s); ends > 0 {
					after++
				}
			}
		}
		if ends != 1 || after > 1 || len(items) > len(all) || fmt.Sprint(items) != fmt.Sprint(all[:len(items)]) {
			return fmt.Errorf("the subscriber sees %q, the source gives %q", r.saw, whole)
		}
	}
	for i, o := range r.obs {
		if o.n != 1 || o.got != fmt.Sprint(signalled) {
			return fmt.Errorf("%s %d is over %d times with %q, the subscriber sees %q", o.what, i, o.n, o.got, r.saw)
		}
	}
	return nil
}

// demand is a stream that is subscribed to, or asked for items, while its
// source attaches.
func (c *CloseRace) demand(r *raceRound) {
	p := flux.NewProcessor[int]()
	var f flux.Flux[int] = p
	fns, _ := txs(c.Maps)
	for _, fn := range fns {
		f = flux.Map(f, fn)
	}
	sub := flux.Subscribe[int]{
		OnNext:     func(v int) { r.see("item %d", v) },
		OnComplete: func() { r.see("complete") },
		Finally:    func(s rx.SignalType) { r.see("finally %v", s) },
	}
	late := c.Actors[1].Do == "subscribe"
	if late {
		if n := c.Actors[1].N; n > 0 {
			sub.OnRequest = func(s rx.Subscription) { s.Request(n) }
		}
	} else {
		sub.NoRequest = true
		f.Subscribe(sub)
	}
	for _, a := range c.Actors {
		switch a.Do {
		case "source":
			r.acts = append(r.acts, func() {
				p.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
					r.mu.Lock()
					defer r.mu.Unlock()
					r.demand += n
				}, Cancel: func() {}})
			})
		case "subscribe":
			r.acts = append(r.acts, func() { f.Subscribe(sub) })
		case "request":
			r.acts = append(r.acts, func() { f.Subscription().Request(a.N) })
		}
	}
	r.end = func() {
		p.Next(1)
		p.Complete()
	}
}

func (c *CloseRace) judgeDemand(r *raceRound) error {
	want := 0
	for _, a := range c.Actors {
		if want += a.N; a.Do == "subscribe" && a.N == 0 {
			want = rx.RequestMax
		}
	}
	if r.demand != want {
		return fmt.Errorf("the subscriber asks for %d items, its source is asked for %d", want, r.demand)
	}
	out, _ := applyMaps(c.Maps, Sig{Val: 1})
	seen := fmt.Sprint([]string{fmt.Sprint("item ", out.Val), "complete", fmt.Sprintf("finally %v", rx.SignalComplete)})
	if fmt.Sprint(r.saw) != seen {
		return fmt.Errorf("the subscriber sees %q instead of %v", r.saw, seen)
	}
	return nil
}

// workflow has a step that awaits results which are settled at once, and one
// that is to run afterwards.
func (c *CloseRace) workflow(r *raceRound) {
	var as []await.Awaitable
	f := flow.New[int]()
	r.acts = make([]func(), len(c.Actors))
	for i, a := range c.Actors[1:] {
		if i%2 == 0 {
			p := mono.NewProcessor[int]()
			as = append(as, p)
			r.acts[i+1] = func() { signal(p, a.Sig) }
			continue
		}
		var sink flux.Sink[int]
		f := flux.Create(func(s flux.Sink[int]) { sink = s })
		f.Subscribe(flux.Subscribe[int]{})
		as = append(as, f)
		r.acts[i+1] = func() {
			if a.Sig.Err != "" {
				sink.Error(errors.New(a.Sig.Err))
			} else {
				sink.Complete()
			}
		}
	}
	ran := r.observe("second step")
	f.Steps(func() (await.Group, error) { return await.All(as...) },
		func() (await.Group, error) { ran("runs"); return f.Success(7) })
	r.acts[0] = func() {
		f.Mono().Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { r.see("value %d", v) },
			OnError:   func(err error) { r.see("error %v", err) },
			Finally:   func(s rx.SignalType) { r.see("finally %v", s) },
		})
	}
}

var spun atomic.Int64

func checkCloseRace(ctx *kit.Ctx, c CloseRace) error {
	rounds := make([]*raceRound, c.Rounds)
	for i := range rounds {
		rounds[i] = c.round()
	}
	var at atomic.Int64
	var wg sync.WaitGroup
	n := int64(len(c.Actors))
	for i, a := range c.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, r := range rounds {
				at.Add(1)
				for s := 0; at.Load() < int64(k+1)*n; s++ {
					if s > 300 {
						runtime.Gosched()
					}
				}
				for s := (a.Off + k*a.Stride) % c.Span; s > 0; s-- {
					spun.Load()
				}
				r.acts[i]()
			}
		}()
	}
	wg.Wait()
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	ctx.NonTrivialIf(c.Rounds >= 50)
	ctx.Label("%s", c.Kind)
	firsts := map[string]bool{}
	for k, r := range rounds {
		if r.end != nil {
			r.mu.Lock()
			demand := r.demand
			r.mu.Unlock()
			r.end()
			r.mu.Lock()
			r.demand = demand // of the race alone
			r.mu.Unlock()
		}
		if err := c.judge(r); err != nil {
			return fmt.Errorf("round %d of %d: %w", k, c.Rounds, err)
		}
		firsts[fmt.Sprint(r.saw)] = true
	}
	if len(firsts) > 1 {
		ctx.Label("different winners")
	}
	return nil
}

func (c *CloseRace) judge(r *raceRound) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.Kind == "workflow" {
		if fmt.Sprint(r.saw) != "[value 7 finally "+fmt.Sprint(rx.SignalComplete)+"]" {
			return fmt.Errorf("the workflow's subscriber sees %q", r.saw)
		}
		if r.obs[0].n != 1 {
			return fmt.Errorf("the step after the awaited results runs %d times", r.obs[0].n)
		}
		return nil
	}
	switch c.Kind {
	case "items":
		return c.judgeItems(r)
	case "demand":
		return c.judgeDemand(r)
	}
	// One of the outcomes that were signalled, and everybody sees that one.
	for _, a := range c.Actors {
		var out Sig
		var want []string
		signalled := rx.SignalCancel
		switch {
		case a.Do == "cancel":
		case a.Do != "signal":
			continue
		case c.Kind == "flux" && a.Sig.Err == "":
			want = []string{"complete"}
			signalled = rx.SignalComplete
		case c.Kind == "flux":
			out = a.Sig
			want = []string{out.String()}
			signalled = rx.SignalError
		default:
			out, _ = applyMaps(c.Maps, a.Sig)
			want = []string{out.String()}
			signalled = out.signal()
		}
		want = append(want, fmt.Sprintf("finally %v", signalled))
		if fmt.Sprint(want) != fmt.Sprint(r.saw) {
			continue
		}
		for i, o := range r.obs {
			if o.n != 1 {
				return fmt.Errorf("%s %d is over %d times, the subscriber sees %q", o.what, i, o.n, r.saw)
			}
			exp := fmt.Sprint(signalled)
			if o.what == "blocking call" {
				exp = out.String()
				if signalled == rx.SignalCancel {
					continue
				}
			}
			if o.got != exp {
				return fmt.Errorf("%s %d gets %q, the subscriber sees %q", o.what, i, o.got, r.saw)
			}
		}
		if r.get != nil {
			if g, _ := r.get(); g != out {
				return fmt.Errorf("the result is %v, the subscriber sees %q", g, r.saw)
			}
			if _, want := applyMaps(c.Maps, a.Sig); fmt.Sprint(r.counts()) != fmt.Sprint(want) {
				return fmt.Errorf("the transformations are called %v times instead of %v", r.counts(), want)
			}
		}
		return nil
	}
	return fmt.Errorf("the subscriber sees %q, which is none of the outcomes that were signalled", r.saw)
}
