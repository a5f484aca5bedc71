package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

const quiesceLimit = 60 * time.Second

// Sig is one outcome a source may signal.
type Sig struct {
	Err string // "" means a value
	Val int
}

func (s Sig) String() string {
	if s.Err != "" {
		return "error " + s.Err
	}
	return fmt.Sprint("value ", s.Val)
}

func genSig(t *rapid.T) Sig {
	if rapid.IntRange(0, 2).Draw(t, "iserr") == 0 {
		return Sig{Err: rapid.SampledFrom([]string{"e1", "e2", "e3"}).Draw(t, "err")}
	}
	return Sig{Val: rapid.IntRange(0, 9).Draw(t, "val")}
}

// MapSpec is one transformation: adds Add, and fails for the input Fail.
type MapSpec struct{ Add, Fail int }

func genMaps(fail bool, max int) func(t *rapid.T) []MapSpec {
	return func(t *rapid.T) []MapSpec {
		n := rapid.IntRange(0, max).Draw(t, "nmaps")
		var ms []MapSpec
		for i := 0; i < n; i++ {
			m := MapSpec{Add: rapid.IntRange(0, 3).Draw(t, "add"), Fail: -1}
			if fail && rapid.Bool().Draw(t, "fails") {
				m.Fail = rapid.IntRange(0, 9).Draw(t, "failon")
			}
			ms = append(ms, m)
		}
		return ms
	}
}

func applyMaps(ms []MapSpec, s Sig) (out Sig, calls []int) {
	calls = make([]int, len(ms))
	for i, m := range ms {
		if s.Err != "" {
			return s, calls
		}
		calls[i]++
		if s.Val == m.Fail {
			s = Sig{Err: fmt.Sprintf("map %d refuses %d", i, s.Val)}
			continue
		}
		s.Val += m.Add
	}
	return s, calls
}

// txs makes the transformations, counting their calls.
func txs(ms []MapSpec) (fns []rx.Transform[int, int], counts func() []int) {
	var mu sync.Mutex
	n := make([]int, len(ms))
	for i, m := range ms {
		fns = append(fns, func(v int) (int, error) {
			mu.Lock()
			n[i]++
			mu.Unlock()
			if v == m.Fail {
				return -1000, fmt.Errorf("map %d refuses %d", i, v)
			}
			return v + m.Add, nil
		})
	}
	return fns, func() []int {
		mu.Lock()
		defer mu.Unlock()
		return append([]int(nil), n...)
	}
}

// MonoOp is a step of the driver.
type MonoOp struct {
	Op  string // sub, block, async, notify, signal, get
	Sig Sig
}

// MonoCase is a single-value publisher and a history of operations on it.
type MonoCase struct {
	Kind  string // just, error, create, processor
	First []Sig  // just/error: the outcome; create: signalled by the source on subscription; processor: signalled first
	Maps  []MapSpec
	Ops   []MonoOp
	Nil   int   // bits: callbacks left nil (1 OnSuccess, 2 OnError, 4 Finally)
	Conc  []Sig // signalled concurrently at the end
	ConcW int   // bits: done concurrently with Conc (1 notify, 2 block, 4 subscribe if not yet, 8 get by notify)
}

func genMonoCase(fail bool) func(t *rapid.T) MonoCase {
	return func(t *rapid.T) MonoCase {
		c := MonoCase{Kind: rapid.SampledFrom([]string{"just", "error", "create", "create", "processor", "processor"}).Draw(t, "kind")}
		switch c.Kind {
		case "just":
			c.First = []Sig{{Val: rapid.IntRange(0, 9).Draw(t, "val")}}
		case "error":
			c.First = []Sig{{Err: "e1"}}
		default:
			c.First = rapid.SliceOfN(rapid.Custom(genSig), 0, 2).Draw(t, "first")
		}
		lo := 0
		if fail {
			lo = 1
		}
		for len(c.Maps) < lo {
			c.Maps = genMaps(fail, 3)(t)
		}
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) MonoOp {
			o := MonoOp{Op: rapid.SampledFrom([]string{"sub", "sub", "block", "async", "notify", "notify", "signal", "signal", "get"}).Draw(t, "op")}
			if o.Op == "signal" {
				o.Sig = genSig(t)
			}
			return o
		}), 1, 8).Draw(t, "ops")
		if rapid.IntRange(0, 3).Draw(t, "nilcb") == 0 {
			c.Nil = rapid.IntRange(0, 7).Draw(t, "nil")
		}
		if rapid.IntRange(0, 2).Draw(t, "conc") == 0 {
			c.Conc = rapid.SliceOfN(rapid.Custom(genSig), 2, 6).Draw(t, "concs")
			c.ConcW = rapid.IntRange(0, 15).Draw(t, "concw")
		}
		return c
	}
}

// monoRun drives the real publisher and records everything observable.
type monoRun struct {
	mu      sync.Mutex
	events  []string
	notify  []*monoObs // one per Notify
	blocks  []*monoObs // one per Block
	mono    mono.Mono[int]
	sink    func() mono.Sink[int]
	nilMask int
}

type monoObs struct {
	n   int
	out Sig // blocks
	sig rx.SignalType
}

func (r *monoRun) add(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, fmt.Sprintf(format, a...))
}

func toSig(v int, err error) Sig {
	if err != nil {
		return Sig{Err: errText(err)}
	}
	return Sig{Val: v}
}

func (r *monoRun) subscribe() {
	s := mono.Subscribe[int]{}
	if r.nilMask&1 == 0 {
		s.OnSuccess = func(v int) { r.add("value %d", v) }
	}
	if r.nilMask&2 == 0 {
		s.OnError = func(err error) { r.add("error %v", err) }
	}
	if r.nilMask&4 == 0 {
		s.Finally = func(sig rx.SignalType) { r.add("finally %v", sig) }
	}
	r.mono.Subscribe(s)
}

func (r *monoRun) doNotify(get bool) {
	o := &monoObs{}
	r.mu.Lock()
	r.notify = append(r.notify, o)
	r.mu.Unlock()
	r.mono.Notify(func(sig rx.SignalType) {
		out := Sig{}
		if get {
			out = toSig(r.mono.Get())
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		o.n++
		o.sig = sig
		o.out = out
	})
}

func (r *monoRun) doBlock() {
	o := &monoObs{}
	r.mu.Lock()
	r.blocks = append(r.blocks, o)
	r.mu.Unlock()
	go func() {
		v, err := r.mono.Block()
		r.mu.Lock()
		defer r.mu.Unlock()
		o.n++
		o.out = toSig(v, err)
	}()
}

func signal(sink mono.Sink[int], s Sig) {
	if s.Err != "" {
		sink.Error(errors.New(s.Err))
	} else {
		sink.Success(s.Val)
	}
}

// expected events of the subscriber for an outcome.
func (r *monoRun) expect(out *Sig) []string {
	var ev []string
	if out == nil {
		return ev
	}
	if out.Err != "" {
		if r.nilMask&2 == 0 {
			ev = append(ev, "error "+out.Err)
		}
	} else if r.nilMask&1 == 0 {
		ev = append(ev, fmt.Sprintf("value %d", out.Val))
	}
	if r.nilMask&4 == 0 {
		ev = append(ev, fmt.Sprintf("finally %v", out.signal()))
	}
	return ev
}

func (s Sig) signal() rx.SignalType {
	if s.Err != "" {
		return rx.SignalError
	}
	return rx.SignalComplete
}

func checkMono(ctx *kit.Ctx, c MonoCase) error {
	r := &monoRun{nilMask: c.Nil}
	var sink mono.Sink[int]
	var sinkMu sync.Mutex
	r.sink = func() mono.Sink[int] {
		sinkMu.Lock()
		defer sinkMu.Unlock()
		return sink
	}
	switch c.Kind {
	case "just":
		r.mono = mono.Just(c.First[0].Val)
	case "error":
		r.mono = mono.Error[int](errors.New(c.First[0].Err))
	case "create":
		r.mono = mono.Create(func(s mono.Sink[int]) {
			sinkMu.Lock()
			sink = s
			sinkMu.Unlock()
			for _, f := range c.First {
				signal(s, f)
			}
		})
	case "processor":
		p := mono.NewProcessor[int]()
		r.mono = p
		sink = p
		for _, f := range c.First {
			signal(p, f)
		}
	}
	fns, counts := txs(c.Maps)
	for _, fn := range fns {
		r.mono = mono.Map(r.mono, fn)
	}

	// The model: the first signal that reaches a subscription decides.
	var raw, out *Sig // outcome of the source, outcome seen by the subscriber
	var pending *Sig  // processor
	subscribed, userSub := false, false
	var expCalls []int
	decide := func(s Sig) {
		if raw == nil {
			raw = &s
			o, n := applyMaps(c.Maps, s)
			out, expCalls = &o, n
		}
	}
	onSub := func() {
		if subscribed {
			return
		}
		subscribed = true
		if c.Kind == "create" {
			for _, f := range c.First {
				decide(f)
			}
		} else if pending != nil {
			decide(*pending)
		}
	}
	onSignal := func(s Sig) {
		switch c.Kind {
		case "create":
			if subscribed {
				decide(s)
			}
		case "processor":
			if pending == nil {
				pending = &s
			}
			if subscribed {
				decide(*pending)
			}
		}
	}
	constant := c.Kind == "just" || c.Kind == "error"
	if constant {
		decide(c.First[0])
	} else if c.Kind == "processor" {
		for _, f := range c.First {
			onSignal(f)
		}
	}
	observed := false // somebody has looked at the outcome
	// A constant has an outcome before anybody subscribes. Looking at it
	// then and subscribing later are two runs of its transformations.
	early := false
	verify := func(when string) error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		var exp []string
		if userSub {
			exp = r.expect(out)
		}
		if fmt.Sprint(exp) != fmt.Sprint(r.events) {
			return fmt.Errorf("%s: the subscriber sees %q, want %q", when, r.events, exp)
		}
		for i, o := range r.notify {
			switch {
			case out == nil && o.n != 0:
				return fmt.Errorf("%s: completion callback %d runs with %v before any outcome", when, i, o.sig)
			case out != nil && o.n != 1:
				return fmt.Errorf("%s: completion callback %d has run %d times after the outcome %v", when, i, o.n, *out)
			case out != nil && o.sig != out.signal():
				return fmt.Errorf("%s: completion callback %d gets %v for the outcome %v", when, i, o.sig, *out)
			}
			observed = observed || o.n > 0
		}
		for i, o := range r.blocks {
			switch {
			case out == nil && o.n != 0:
				return fmt.Errorf("%s: blocking call %d returns %v before any outcome", when, i, o.out)
			case out != nil && o.n != 1:
				return fmt.Errorf("%s: blocking call %d has not returned after the outcome %v", when, i, *out)
			case out != nil && o.out != *out:
				return fmt.Errorf("%s: blocking call %d returns %v, the outcome is %v", when, i, o.out, *out)
			}
			observed = observed || o.n > 0
		}
		if out != nil && userSub {
			observed = true
		}
		got := counts()
		for i := range got {
			want := 0
			if out != nil {
				want = expCalls[i]
			}
			most := want
			if early {
				most *= 2
			}
			if got[i] > most || observed && got[i] < want {
				return fmt.Errorf("%s: transformation %d has run %d times for one outcome, want %d", when, i, got[i], want)
			}
		}
		return nil
	}
	if err := verify("before anything"); err != nil || ctx.Inconcl != "" {
		return err
	}
	for i, o := range c.Ops {
		switch o.Op {
		case "sub":
			if subscribed {
				continue // a second subscription is a new run of the source
			}
			userSub = true
			early = constant && observed
			onSub()
			r.subscribe()
		case "async":
			r.mono.Async()
			onSub()
		case "block":
			r.doBlock()
			onSub()
		case "notify":
			r.doNotify(false)
		case "signal":
			if s := r.sink(); s != nil {
				signal(s, o.Sig)
			}
			onSignal(o.Sig)
		case "get":
			if out == nil || !(subscribed || constant) {
				continue
			}
			observed = true
			if g := toSig(r.mono.Get()); g != *out {
				return fmt.Errorf("step %d: reading the result gives %v, the outcome is %v", i, g, *out)
			}
		}
		if err := verify(fmt.Sprintf("step %d (%s)", i, o.Op)); err != nil || ctx.Inconcl != "" {
			return err
		}
	}
	ctx.NonTrivialIf(out != nil && (userSub || len(r.blocks) > 0) && (len(c.Ops) > 2 || len(c.Maps) > 0))
	ctx.Label("kind %s", c.Kind)
	ctx.Label("maps %d", len(c.Maps))
	if len(c.Conc) == 0 || constant {
		return nil
	}
	// Several goroutines signal at once, while others subscribe and wait.
	ctx.Label("concurrent")
	start := make(chan struct{})
	var wg sync.WaitGroup
	spawn := func(fn func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			fn()
		}()
	}
	if c.Kind == "create" && !subscribed {
		onSub()
		userSub = true
		r.subscribe()
	}
	if c.Kind == "processor" && !subscribed {
		subscribed, userSub = true, true
		if c.ConcW&4 != 0 {
			spawn(r.subscribe)
		} else {
			r.subscribe()
		}
		if pending != nil {
			decide(*pending)
		}
	}
	for _, s := range c.Conc {
		spawn(func() { signal(r.sink(), s) })
	}
	if c.ConcW&1 != 0 {
		spawn(func() { r.doNotify(c.ConcW&8 != 0) })
	}
	if c.ConcW&2 != 0 {
		// Waiting concurrently with the first subscription would itself
		// subscribe, so it only joins when there is one.
		if c.ConcW&4 == 0 {
			spawn(r.doBlock)
		}
	}
	close(start)
	wg.Wait()
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	if out == nil {
		// Any of the concurrent signals may have won; everybody must agree.
		g := toSig(r.mono.Get())
		for _, s := range c.Conc {
			if o, _ := applyMaps(c.Maps, s); o == g {
				decide(s)
			}
		}
		if out == nil {
			return fmt.Errorf("after the concurrent signals %v the result is %v", c.Conc, g)
		}
	}
	return verify("after concurrent signals")
}

var R01 = &kit.Property{
	ID:   "R01",
	Rule: "an outcome was signalled and seen by a subscriber or a blocking call, in a history of more than two operations or through a map",
	Assumptions: []string{
		"a publisher is subscribed at most once per case; a second subscription is a new run of the source",
		"concurrent phases rely on the Go scheduler for their interleavings",
	},
	Facets: []kit.Facet{
		kit.F("outcome races", 2000, 80000, genCloseRace("create", "processor"), checkCloseRace).WithBatch(50),
		kit.F("mono histories", 80000, 1500000, genMonoCase(false), checkMono),
		kit.F("mapped mono histories", 40000, 800000, genMonoCase(true), checkMono),
	},
}
