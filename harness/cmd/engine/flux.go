package main

import (
	"errors"
	"fmt"
	"sync"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// FOp is a step of a history: a signal of the source or an action of the
// subscriber.
type FOp struct {
	Op  string // next, complete, error, request, cancel, notify, block, async, sub, subblock
	Val int
	Err string
}

// FluxCase is a stream publisher and a history of operations on it.
type FluxCase struct {
	Kind   string // error, slice, response, create, processor
	Items  []int  // slice, response
	Src    []FOp  // create: signalled by the source on subscription
	OnSub  int    // create/processor: 0 the source takes no demand, 1 it registers first, 2 after Src
	Maps   []MapSpec
	Demand string // max, refill, manual, none
	Refill int
	InNext []FOp // actions taken inside OnNext: entry i on the i-th item ("", request, cancel)
	Nil    int   // bits: callbacks left nil (1 OnNext, 2 OnComplete, 4 OnError, 8 Finally)
	Ops    []FOp
}

func genSrcOp(t *rapid.T) FOp {
	switch rapid.IntRange(0, 7).Draw(t, "srcop") {
	case 0:
		return FOp{Op: "complete"}
	case 1:
		return FOp{Op: "error", Err: rapid.SampledFrom([]string{"e1", "e2"}).Draw(t, "err")}
	default:
		return FOp{Op: "next", Val: rapid.IntRange(0, 9).Draw(t, "val")}
	}
}

func genFluxCase(fail bool) func(t *rapid.T) FluxCase {
	return func(t *rapid.T) FluxCase {
		c := FluxCase{Kind: rapid.SampledFrom([]string{"error", "slice", "slice", "response", "response", "create", "create", "create", "processor", "processor"}).Draw(t, "kind")}
		switch c.Kind {
		case "slice", "response":
			c.Items = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 12).Draw(t, "items")
		case "create":
			c.Src = rapid.SliceOfN(rapid.Custom(genSrcOp), 0, 4).Draw(t, "src")
			c.OnSub = rapid.IntRange(0, 2).Draw(t, "onsub")
		case "processor":
			c.OnSub = rapid.IntRange(0, 1).Draw(t, "onsub")
		}
		lo := 0
		if fail {
			lo = 1
		}
		c.Maps = genMaps(fail, 3)(t)
		for len(c.Maps) < lo {
			c.Maps = genMaps(fail, 3)(t)
		}
		c.Demand = rapid.SampledFrom([]string{"max", "refill", "manual", "none"}).Draw(t, "demand")
		if c.Demand == "refill" {
			c.Refill = rapid.IntRange(1, 4).Draw(t, "refill")
		}
		if rapid.IntRange(0, 2).Draw(t, "inner") == 0 {
			c.InNext = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
				switch rapid.IntRange(0, 5).Draw(t, "inop") {
				case 0:
					return FOp{Op: "cancel"}
				case 1, 2:
					return FOp{Op: "request", Val: rapid.IntRange(-1, 4).Draw(t, "n")}
				}
				return FOp{}
			}), 0, 6).Draw(t, "innext")
		}
		if rapid.IntRange(0, 4).Draw(t, "nilcb") == 0 {
			c.Nil = rapid.IntRange(0, 15).Draw(t, "nil")
		}
		pre := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
			return FOp{Op: rapid.SampledFrom([]string{"notify", "notify", "subscription"}).Draw(t, "preop")}
		}), 0, 2).Draw(t, "pre")
		first := FOp{Op: rapid.SampledFrom([]string{"sub", "sub", "sub", "sub", "subblock", "subblock", "async"}).Draw(t, "how")}
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
			o := FOp{Op: rapid.SampledFrom([]string{"next", "next", "next", "next", "request", "request", "complete", "error", "cancel", "notify", "block", "async"}).Draw(t, "op")}
			switch o.Op {
			case "next":
				o.Val = rapid.IntRange(0, 9).Draw(t, "val")
			case "error":
				o.Err = "e3"
			case "request":
				o.Val = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 100, 0, -1, rx.RequestMax}).Draw(t, "n")
			}
			return o
		}), 0, 10).Draw(t, "ops")
		c.Ops = append(append(pre, first), ops...)
		return c
	}
}

// fluxRun drives the real publisher and records everything observable.
type fluxRun struct {
	c    *FluxCase
	flux flux.Flux[int]
	sink flux.Sink[int]

	mu        sync.Mutex
	events    []string
	items     int
	notify    []*fluxObs
	blocks    []*fluxObs
	stated    int64 // demand stated by the subscriber
	forwarded int64 // demand the source was given
	badDemand int   // non-positive demand given to the source
	cancels   int   // times the source was cancelled
	sub       rx.Subscription
}

type fluxObs struct {
	n   int
	sig rx.SignalType
	err string
}

func (r *fluxRun) add(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, fmt.Sprintf(format, a...))
}

func (r *fluxRun) request(s rx.Subscription, n int) {
	r.mu.Lock()
	if n > 0 {
		r.stated += int64(n)
	}
	r.mu.Unlock()
	s.Request(n)
}

func (r *fluxRun) onSubscribe() flux.OnSubscribe {
	return flux.OnSubscribe{
		Request: func(n int) {
			r.mu.Lock()
			defer r.mu.Unlock()
			r.forwarded += int64(n)
			if n <= 0 {
				r.badDemand++
			}
		},
		Cancel: func() {
			r.mu.Lock()
			defer r.mu.Unlock()
			r.cancels++
		},
	}
}

func (r *fluxRun) callbacks() flux.Subscribe[int] {
	c := r.c
	s := flux.Subscribe[int]{NoRequest: c.Demand == "none"}
	if c.Nil&1 == 0 {
		s.OnNext = func(v int) {
			r.mu.Lock()
			r.events = append(r.events, fmt.Sprintf("next %d", v))
			i := r.items
			r.items++
			r.mu.Unlock()
			if i < len(c.InNext) {
				switch a := c.InNext[i]; a.Op {
				case "cancel":
					r.flux.Subscription().Cancel()
				case "request":
					r.request(r.flux.Subscription(), a.Val)
				}
			}
		}
	}
	if c.Nil&2 == 0 {
		s.OnComplete = func() { r.add("complete") }
	}
	if c.Nil&4 == 0 {
		s.OnError = func(err error) { r.add("error %v", err) }
	}
	if c.Nil&8 == 0 {
		s.Finally = func(sig rx.SignalType) { r.add("finally %v", sig) }
	}
	switch c.Demand {
	case "refill":
		s.OnRequest = func(sub rx.Subscription) { r.request(sub, c.Refill) }
	case "manual":
		s.OnRequest = func(sub rx.Subscription) {}
	case "max":
		r.stated = rx.RequestMax // stated by leaving out OnRequest
	}
	return s
}

func emit(sink flux.Sink[int], o FOp) {
	switch o.Op {
	case "next":
		sink.Next(o.Val)
	case "complete":
		sink.Complete()
	case "error":
		sink.Error(errors.New(o.Err))
	}
}

// fluxModel is the reference: what a subscriber must see.
type fluxModel struct {
	c        *FluxCase
	subbed   bool // subscribed
	user     bool // with the callbacks of the case
	closed   bool
	err      string
	sig      rx.SignalType
	events   []string
	items    int
	idx      int   // slice, response
	demand   int64 // manual demand so far
	asked    bool
	cancels  int
	infinite bool
	started  bool // the demand of the subscription has been stated
	produced int64
	overrun  bool // the source signalled items nobody had asked for
	calls    []int
}

func (m *fluxModel) end(ev string, sig rx.SignalType, err string) {
	m.closed, m.sig, m.err = true, sig, err
	if !m.user {
		return
	}
	switch sig {
	case rx.SignalComplete:
		if m.c.Nil&2 == 0 {
			m.events = append(m.events, ev)
		}
	case rx.SignalError:
		if m.c.Nil&4 == 0 {
			m.events = append(m.events, ev)
		}
	}
	if m.c.Nil&8 == 0 {
		m.events = append(m.events, fmt.Sprintf("finally %v", sig))
	}
}

func (m *fluxModel) cancel() {
	if m.closed || !m.subbed {
		return
	}
	m.cancels++
	m.end("", rx.SignalCancel, "")
}

func (m *fluxModel) request(n int) {
	if m.closed || n <= 0 {
		return
	}
	m.demand += int64(n)
	m.asked = true
}

func (m *fluxModel) signal(o FOp) {
	if m.closed || !m.subbed {
		return
	}
	switch o.Op {
	case "complete":
		m.end("complete", rx.SignalComplete, "")
	case "error":
		m.end("error "+o.Err, rx.SignalError, o.Err)
	case "next":
		if !m.started || !m.infinite && m.produced >= m.demand {
			m.overrun = true
		}
		m.produced++
		out, calls := applyMaps(m.c.Maps, Sig{Val: o.Val})
		for i, n := range calls {
			m.calls[i] += n
		}
		if out.Err != "" {
			m.cancels++
			m.end("error "+out.Err, rx.SignalError, out.Err)
			return
		}
		if !m.user || m.c.Nil&1 != 0 {
			return
		}
		m.events = append(m.events, fmt.Sprintf("next %d", out.Val))
		i := m.items
		m.items++
		if i < len(m.c.InNext) {
			switch a := m.c.InNext[i]; a.Op {
			case "cancel":
				m.cancel()
			case "request":
				m.request(a.Val)
			}
		}
	}
}

// pull lets the slice producers work off the demand.
func (m *fluxModel) pull() {
	if !m.subbed || m.c.Kind != "slice" && m.c.Kind != "response" {
		return
	}
	for !m.closed && m.idx < len(m.c.Items) && (m.infinite || m.demand > int64(m.idx)) {
		m.idx++
		m.signal(FOp{Op: "next", Val: m.c.Items[m.idx-1]})
	}
	if !m.closed && m.idx == len(m.c.Items) && (m.infinite || m.asked) {
		m.signal(FOp{Op: "complete"})
	}
}

func (m *fluxModel) subscribe(user bool) {
	if m.subbed {
		return
	}
	m.subbed, m.user = true, user
	if !user || m.c.Demand == "max" || m.c.Demand == "refill" {
		m.infinite = true
	}
	switch m.c.Kind {
	case "error":
		m.end("error e1", rx.SignalError, "e1")
	case "create":
		for _, o := range m.c.Src {
			m.signal(o)
		}
	}
	m.started = true
}

func checkFlux(ctx *kit.Ctx, c FluxCase) error {
	r := &fluxRun{c: &c}
	takesDemand := false
	switch c.Kind {
	case "error":
		r.flux = flux.Error[int](errors.New("e1"))
	case "slice":
		r.flux = flux.FromSlice(append([]int(nil), c.Items...))
	case "response":
		r.flux = flux.Create(func(sink flux.Sink[int]) {
			sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, append([]int(nil), c.Items...))})
		})
	case "create":
		takesDemand = c.OnSub > 0
		r.flux = flux.Create(func(sink flux.Sink[int]) {
			r.mu.Lock()
			r.sink = sink
			r.mu.Unlock()
			if c.OnSub == 1 {
				sink.OnSubscribe(r.onSubscribe())
			}
			for _, o := range c.Src {
				emit(sink, o)
			}
			if c.OnSub == 2 {
				sink.OnSubscribe(r.onSubscribe())
			}
		})
	case "processor":
		takesDemand = c.OnSub > 0
		p := flux.NewProcessor[int]()
		if takesDemand {
			p.OnSubscribe(r.onSubscribe())
		}
		r.sink, r.flux = p, p
	}
	fns, counts := txs(c.Maps)
	for _, fn := range fns {
		r.flux = flux.Map(r.flux, fn)
	}
	m := &fluxModel{c: &c, calls: make([]int, len(c.Maps))}
	verify := func(when string) error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		m.pull()
		r.mu.Lock()
		defer r.mu.Unlock()
		if fmt.Sprint(m.events) != fmt.Sprint(r.events) {
			return fmt.Errorf("%s: the subscriber sees %q, want %q", when, r.events, m.events)
		}
		ended := m.closed || c.Kind == "error"
		sig := m.sig
		if c.Kind == "error" {
			sig = rx.SignalError
		}
		for i, o := range r.notify {
			switch {
			case !ended && o.n != 0:
				return fmt.Errorf("%s: completion callback %d runs with %v before the stream has ended", when, i, o.sig)
			case ended && o.n != 1:
				return fmt.Errorf("%s: completion callback %d has run %d times after the end (%v)", when, i, o.n, sig)
			case ended && o.sig != sig:
				return fmt.Errorf("%s: completion callback %d gets %v, the stream ended with %v", when, i, o.sig, sig)
			}
		}
		for i, o := range r.blocks {
			want := m.err
			switch {
			case !ended && o.n != 0:
				return fmt.Errorf("%s: blocking call %d returns before the stream has ended", when, i)
			case ended && o.n != 1:
				return fmt.Errorf("%s: blocking call %d has not returned after the end (%v)", when, i, sig)
			case ended && o.err != want:
				return fmt.Errorf("%s: blocking call %d returns error %q, the stream ended with %q", when, i, o.err, want)
			}
		}
		if got := counts(); fmt.Sprint(got) != fmt.Sprint(m.calls) {
			return fmt.Errorf("%s: the transformations have run %v times, want %v", when, got, m.calls)
		}
		if r.badDemand > 0 {
			return fmt.Errorf("%s: the source is asked for no items or a negative number", when)
		}
		if takesDemand && m.subbed && m.user && !m.overrun {
			if !m.closed && r.forwarded != r.stated || r.forwarded > r.stated {
				return fmt.Errorf("%s: the subscriber asked for %d items in all, the source was asked for %d", when, r.stated, r.forwarded)
			}
		}
		if takesDemand && !m.closed && m.subbed && !m.user && !m.overrun && r.forwarded != rx.RequestMax+r.stated {
			return fmt.Errorf("%s: a subscription without callbacks asks the source for %d items, want all and %d requested later", when, r.forwarded, r.stated)
		}
		want := 0
		if takesDemand { // registered before or after the cancellation
			want = m.cancels
		}
		if r.cancels != want {
			return fmt.Errorf("%s: the source has been cancelled %d times, want %d", when, r.cancels, want)
		}
		return nil
	}
	for i, o := range c.Ops {
		when := fmt.Sprintf("step %d (%s)", i, o.Op)
		switch o.Op {
		case "sub":
			m.subscribe(true)
			r.flux.Subscribe(r.callbacks())
		case "subblock":
			m.subscribe(true)
			ob := &fluxObs{}
			r.blocks = append(r.blocks, ob)
			cb := r.callbacks()
			go func() {
				err := r.flux.Block(cb)
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				if err != nil {
					ob.err = errText(err)
				}
			}()
		case "async":
			if m.subbed {
				r.flux.Async()
				break
			}
			m.subscribe(false)
			r.flux.Async()
		case "block":
			ob := &fluxObs{}
			r.mu.Lock()
			r.blocks = append(r.blocks, ob)
			r.mu.Unlock()
			go func() {
				err := r.flux.Block(flux.Subscribe[int]{})
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				if err != nil {
					ob.err = errText(err)
				}
			}()
		case "notify":
			ob := &fluxObs{}
			r.mu.Lock()
			r.notify = append(r.notify, ob)
			r.mu.Unlock()
			r.flux.Notify(func(sig rx.SignalType) {
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				ob.sig = sig
			})
		case "subscription":
			if s := r.flux.Subscription(); s != nil && !m.subbed {
				return fmt.Errorf("%s: a publisher nobody has subscribed to has a subscription", when)
			}
		case "cancel":
			if s := r.flux.Subscription(); s != nil {
				m.cancel()
				s.Cancel()
			}
		case "request":
			if s := r.flux.Subscription(); s != nil {
				m.request(o.Val)
				if m.closed {
					s.Request(o.Val)
				} else {
					r.request(s, o.Val)
				}
			}
		default:
			if r.sink != nil {
				m.signal(o)
				emit(r.sink, o)
			}
		}
		if err := verify(when); err != nil || ctx.Inconcl != "" {
			return err
		}
	}
	ctx.NonTrivialIf(m.user && len(m.events) > 1 && len(c.Ops) > 1)
	ctx.Label("kind %s", c.Kind)
	ctx.Label("demand %s", c.Demand)
	if m.closed {
		ctx.Label("ended %v", m.sig)
	}
	return nil
}

// FluxRace lets a source, a canceller, requesters and waiters run at once.
type FluxRace struct {
	Items   int
	End     string // complete, error
	Maps    []MapSpec
	Cancels int
	Reqs    int
	Waits   int
	Ends    int // goroutines that end the stream at once, besides the source
}

func genFluxRace(t *rapid.T) FluxRace {
	return FluxRace{
		Items:   rapid.IntRange(0, 30).Draw(t, "items"),
		End:     rapid.SampledFrom([]string{"complete", "error"}).Draw(t, "end"),
		Maps:    genMaps(true, 2)(t),
		Cancels: rapid.IntRange(0, 3).Draw(t, "cancels"),
		Reqs:    rapid.IntRange(0, 3).Draw(t, "reqs"),
		Waits:   rapid.IntRange(0, 3).Draw(t, "waits"),
		Ends:    rapid.IntRange(0, 3).Draw(t, "ends"),
	}
}

func checkFluxRace(ctx *kit.Ctx, c FluxRace) error {
	var sink flux.Sink[int]
	var f flux.Flux[int] = flux.Create(func(s flux.Sink[int]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
	})
	fns, _ := txs(c.Maps)
	for _, fn := range fns {
		f = flux.Map(f, fn)
	}
	r := &fluxRun{c: &FluxCase{Demand: "manual"}, flux: f}
	f.Subscribe(r.callbacks())
	start := make(chan struct{})
	var wg sync.WaitGroup
	spawn := func(fn func()) {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; fn() }()
	}
	spawn(func() {
		for i := 0; i < c.Items; i++ {
			sink.Next(i % 10)
		}
		emit(sink, FOp{Op: c.End, Err: "e1"})
	})
	for i := 0; i < c.Ends; i++ {
		op := FOp{Op: []string{"complete", "error"}[i%2], Err: "e2"}
		spawn(func() { emit(sink, op) })
	}
	for i := 0; i < c.Cancels; i++ {
		spawn(func() { f.Subscription().Cancel() })
	}
	for i := 0; i < c.Reqs; i++ {
		spawn(func() { f.Subscription().Request(2) })
	}
	for i := 0; i < c.Waits; i++ {
		ob, bl := &fluxObs{}, &fluxObs{}
		r.notify = append(r.notify, ob)
		r.blocks = append(r.blocks, bl)
		spawn(func() {
			f.Notify(func(sig rx.SignalType) {
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				ob.sig = sig
			})
		})
		go func() {
			<-start
			f.Block(flux.Subscribe[int]{})
			r.mu.Lock()
			defer r.mu.Unlock()
			bl.n++
		}()
	}
	close(start)
	wg.Wait()
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	ctx.NonTrivialIf(c.Cancels+c.Ends > 0 && c.Items > 0)
	var items, terms, finals, late int
	var final, term string
	for _, e := range r.events {
		switch {
		case e[:4] == "next":
			if finals > 0 {
				late++
			}
			out, _ := applyMaps(c.Maps, Sig{Val: items % 10})
			if out.Err != "" || e != fmt.Sprintf("next %d", out.Val) {
				return fmt.Errorf("item %d of the stream is delivered as %q, want %v (events %q)", items, e, out, r.events)
			}
			items++
		case e[:5] == "final":
			finals++
			final = e
		default:
			if finals > 0 {
				return fmt.Errorf("%q is delivered after %q", e, final)
			}
			terms++
			term = e
		}
	}
	if finals != 1 || terms > 1 {
		return fmt.Errorf("the subscriber sees %d final notifications and %d terminal signals: %q", finals, terms, r.events)
	}
	// An item whose delivery had begun when another goroutine ended the
	// stream may still be under way.
	if late > 1 {
		return fmt.Errorf("%d items are delivered after the end: %q", late, r.events)
	}
	want := "finally CANCEL"
	switch {
	case term == "complete":
		want = "finally COMPLETE"
	case terms == 1:
		want = "finally ERROR"
	}
	if final != want {
		return fmt.Errorf("the stream ends with %q, then %q", term, final)
	}
	for i, o := range r.notify {
		if o.n != 1 || fmt.Sprintf("finally %v", o.sig) != final {
			return fmt.Errorf("completion callback %d runs %d times with %v, the subscriber got %q", i, o.n, o.sig, final)
		}
	}
	for i, o := range r.blocks {
		if o.n != 1 {
			return fmt.Errorf("blocking call %d does not return after the stream has ended", i)
		}
	}
	return nil
}

var R02 = &kit.Property{
	ID:   "R02",
	Rule: "a subscriber with callbacks saw at least two events (histories); subscriptions ended in different ways or had items (repeated subscriptions); a stream with items ended while being cancelled or ended by others (races)",
	Assumptions: []string{
		"a publisher is subscribed again only after it has ended, a processor once and before it is signalled",
		"one goroutine signals items; an item whose delivery began before another goroutine ended the stream may arrive after it",
	},
	Facets: []kit.Facet{
		kit.F("outcome races", 3000, 40000, genCloseRace("flux", "demand"), checkCloseRace).WithBatch(50),
		kit.F("long streams", 600, 10000, genLong(70000), checkLong).WithBatch(50),
		kit.F("flux histories", 60000, 1000000, genFluxCase(false), checkFlux),
		kit.F("repeated subscriptions", 15000, 300000, genAgain(false), checkAgain),
		kit.F("flux races", 30000, 600000, genFluxRace, checkFluxRace),
	},
}

var R03 = &kit.Property{
	ID:   "R03",
	Rule: "a subscriber with callbacks saw at least two events of a mapped stream, or an outcome passed through at least one map; repeated subscriptions ended in different ways or had items; a race was repeated 50 times",
	Assumptions: []string{
		"transformations are functions of their input",
		"a publisher is subscribed again only after it has ended, a processor once and before it is signalled",
	},
	Facets: []kit.Facet{
		kit.F("races", 3000, 40000, genCloseRace("items", "items", "demand", "mapped"), checkCloseRace).WithBatch(50),
		kit.F("repeated subscriptions", 15000, 300000, genAgain(true), checkAgain),
		kit.F("mapped flux histories", 60000, 1000000, genFluxCase(true), checkFlux),
		kit.F("mapped mono histories", 40000, 800000, genMonoCase(true), checkMono),
	},
}
