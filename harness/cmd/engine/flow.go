package main

import (
	"errors"
	"fmt"
	"sync"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// FlowAwait is one result a step awaits.
type FlowAwait struct {
	Kind  string // just, error, mono, create, flux, custom, flow, prev
	When  string // before: settled before the step returns; race: by another goroutine, started by the step; later: by the driver
	Out   string // value, error, cancel (flux)
	Twice bool   // registered twice in its group
}

// FlowStep is one step of the workflow.
type FlowStep struct {
	Awaits []FlowAwait
	Items  int    // items a flux step emits
	Do     string // none, end, finish (success or complete), error, fail (returns an error)
}

// FlowCase is a workflow and the order in which what it awaits settles.
type FlowCase struct {
	Flux   bool
	How    string // sub, block, async
	Steps  []FlowStep
	Order  []int  // selects which outstanding result settles next
	AtOnce bool   // the outstanding results of a step settle concurrently
	Stop   int    // the driver ends the workflow after this many settlements (0: never)
	StopBy string // end, finish, error
}

func genFlow(t *rapid.T) FlowCase {
	c := FlowCase{
		Flux:   rapid.Bool().Draw(t, "flux"),
		How:    rapid.SampledFrom([]string{"sub", "sub", "block", "async"}).Draw(t, "how"),
		AtOnce: rapid.IntRange(0, 2).Draw(t, "atonce") == 0,
	}
	n := rapid.IntRange(1, 6).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := FlowStep{Do: "none", Items: rapid.IntRange(0, 2).Draw(t, "items")}
		if i == n-1 && rapid.IntRange(0, 3).Draw(t, "fin") > 0 {
			s.Do = "finish"
		} else if rapid.IntRange(0, 7).Draw(t, "stops") == 0 {
			s.Do = rapid.SampledFrom([]string{"end", "finish", "error", "fail"}).Draw(t, "do")
		}
		s.Awaits = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FlowAwait {
			return FlowAwait{
				Kind:  rapid.SampledFrom([]string{"just", "error", "mono", "mono", "create", "flux", "flux", "custom", "flow", "prev"}).Draw(t, "kind"),
				When:  rapid.SampledFrom([]string{"before", "race", "later", "later"}).Draw(t, "when"),
				Out:   rapid.SampledFrom([]string{"value", "value", "error", "cancel"}).Draw(t, "out"),
				Twice: rapid.IntRange(0, 5).Draw(t, "twice") == 0,
			}
		}), 0, 4).Draw(t, "awaits")
		c.Steps = append(c.Steps, s)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 7), 4, 8).Draw(t, "order")
	if rapid.IntRange(0, 4).Draw(t, "early") == 0 {
		c.Stop = rapid.IntRange(1, 4).Draw(t, "stop")
		c.StopBy = rapid.SampledFrom([]string{"end", "finish", "error"}).Draw(t, "stopby")
	}
	return c
}

// custom is an awaitable of the harness.
type customAwait struct {
	mu   sync.Mutex
	done bool
	fns  []rx.FnFinally
}

func (c *customAwait) Async() {}
func (c *customAwait) Notify(fn rx.FnFinally) {
	c.mu.Lock()
	if !c.done {
		c.fns = append(c.fns, fn)
		c.mu.Unlock()
		return
	}
	c.mu.Unlock()
	fn(rx.SignalComplete)
}
func (c *customAwait) settle() {
	c.mu.Lock()
	c.done = true
	fns := c.fns
	c.fns = nil
	c.mu.Unlock()
	for _, fn := range fns {
		fn(rx.SignalComplete)
	}
}

// flowAwait is a running FlowAwait.
type flowAwait struct {
	a       await.Awaitable
	settle  func()
	mu      sync.Mutex
	settled bool
	label   string
}

func (a *flowAwait) isSettled() bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.settled
}

func (a *flowAwait) fire() {
	a.mu.Lock()
	a.settled = true // before the signal: whoever is told finds it set
	a.mu.Unlock()
	a.settle()
}

func makeAwait(spec FlowAwait, label string) *flowAwait {
	w := &flowAwait{label: label}
	fail := spec.Out == "error"
	monoSettle := func(s mono.Sink[int]) func() {
		return func() {
			if fail {
				s.Error(errors.New("awaited"))
			} else {
				s.Success(1)
			}
		}
	}
	switch spec.Kind {
	case "just":
		w.a, w.settle, w.settled = mono.Just(1), func() {}, true
	case "error":
		w.a, w.settle, w.settled = mono.Error[int](errors.New("awaited")), func() {}, true
	case "mono":
		p := mono.NewProcessor[int]()
		w.a, w.settle = p, monoSettle(p)
	case "create":
		// A source that runs when the result is first awaited.
		var mu sync.Mutex
		var sink mono.Sink[int]
		fired := false
		w.a = mono.Create(func(s mono.Sink[int]) {
			mu.Lock()
			sink = s
			f := fired
			mu.Unlock()
			if f {
				monoSettle(s)()
			}
		})
		w.settle = func() {
			mu.Lock()
			fired = true
			s := sink
			mu.Unlock()
			if s != nil {
				monoSettle(s)()
			}
		}
	case "flux":
		p := flux.NewProcessor[int]()
		p.Async()
		w.a = p
		w.settle = func() {
			switch spec.Out {
			case "error":
				p.Next(1)
				p.Error(errors.New("awaited"))
			case "cancel":
				p.Subscription().Cancel()
			default:
				p.Next(1)
				p.Next(2)
				p.Complete()
			}
		}
	case "custom":
		c := &customAwait{}
		w.a, w.settle = c, c.settle
	case "flow":
		p := mono.NewProcessor[int]()
		inner := flow.New[int]()
		w.a = inner.Steps(
			func() (await.Group, error) { return await.All(p) },
			func() (await.Group, error) { return inner.Success(1) },
		).Mono()
		w.settle = monoSettle(p)
	}
	return w
}

type flowRun struct {
	mu      sync.Mutex
	started []int
	bad     string
	events  []string
	blocked *monoObs
	notes   int
	sig     rx.SignalType
}

func checkFlow(ctx *kit.Ctx, c FlowCase) error {
	r := &flowRun{}
	f := flow.New[int]()
	groups := make([][]*flowAwait, len(c.Steps))
	var all []*flowAwait
	pick := func(step, i int, spec FlowAwait) *flowAwait {
		if spec.Kind == "prev" {
			if len(all) == 0 {
				spec.Kind = "just"
			} else {
				return all[(step+i)%len(all)]
			}
		}
		w := makeAwait(spec, fmt.Sprintf("step %d await %d (%s)", step, i, spec.Kind))
		all = append(all, w)
		return w
	}
	// An end reached by one of the steps, or brought about by the driver.
	ended := -1
	var want *Sig // outcome of the workflow, if it has one
	var items []string
	for i, s := range c.Steps {
		f.Steps(func() (await.Group, error) {
			r.mu.Lock()
			if n := len(r.started); n != i && r.bad == "" {
				r.bad = fmt.Sprintf("step %d starts after the steps %v", i, r.started)
			}
			r.started = append(r.started, i)
			if i > 0 {
				for _, w := range groups[i-1] {
					if !w.isSettled() && r.bad == "" {
						r.bad = fmt.Sprintf("step %d starts although %s, awaited by step %d, has not finished", i, w.label, i-1)
					}
				}
			}
			r.mu.Unlock()
			if c.Flux {
				for k := 0; k < s.Items; k++ {
					f.Next(10*i + k)
				}
			}
			var g await.Group
			var mine []*flowAwait
			for k, spec := range s.Awaits {
				w := pick(i, k, spec)
				mine = append(mine, w)
				g = append(g, w.a)
				if spec.Twice {
					g = append(g, w.a)
				}
			}
			groups[i] = mine
			for k, spec := range s.Awaits {
				w := mine[k]
				if w.isSettled() {
					continue
				}
				switch spec.When {
				case "before":
					w.fire()
				case "race":
					w.mu.Lock()
					w.label += " racing"
					w.mu.Unlock()
					go w.fire()
				}
			}
			switch s.Do {
			case "end":
				f.End()
			case "finish":
				if c.Flux {
					f.Complete()
				} else {
					f.Success(100 + i)
				}
			case "error":
				return f.Error(fmt.Errorf("step %d", i))
			case "fail":
				return g, fmt.Errorf("step %d", i)
			}
			return g, nil
		})
	}
	onFinally := func(sig rx.SignalType) {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.notes++
		r.sig = sig
	}
	add := func(format string, a ...any) {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.events = append(r.events, fmt.Sprintf(format, a...))
	}
	if c.Flux {
		x := f.Flux()
		x.Notify(onFinally)
		sub := flux.Subscribe[int]{
			OnNext:     func(v int) { add("next %d", v) },
			OnComplete: func() { add("complete") },
			OnError:    func(err error) { add("error %v", err) },
			Finally:    func(sig rx.SignalType) { add("finally %v", sig) },
		}
		switch c.How {
		case "sub":
			x.Subscribe(sub)
		case "async":
			x.Async()
		case "block":
			ob := &monoObs{}
			r.blocked = ob
			go func() {
				err := x.Block(sub)
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				ob.out = toSig(0, err)
			}()
		}
	} else {
		x := f.Mono()
		x.Notify(onFinally)
		switch c.How {
		case "sub":
			x.Subscribe(mono.Subscribe[int]{
				OnSuccess: func(v int) { add("value %d", v) },
				OnError:   func(err error) { add("error %v", err) },
				Finally:   func(sig rx.SignalType) { add("finally %v", sig) },
			})
		case "async":
			x.Async()
		case "block":
			ob := &monoObs{}
			r.blocked = ob
			go func() {
				v, err := x.Block()
				r.mu.Lock()
				defer r.mu.Unlock()
				ob.n++
				ob.out = toSig(v, err)
			}()
		}
	}

	// The model runs the steps on paper.
	next := 0 // steps the model has started
	run := func() {
		for ended < 0 && next < len(c.Steps) {
			i := next
			if i > 0 {
				for _, w := range groups[i-1] {
					if !w.isSettled() {
						return
					}
				}
			}
			next++
			if i >= len(groups) || len(r.started) < next {
				return // verify reports the missing step
			}
			for k := 0; c.Flux && k < c.Steps[i].Items; k++ {
				items = append(items, fmt.Sprintf("next %d", 10*i+k))
			}
			switch c.Steps[i].Do {
			case "end":
				ended = i
			case "finish":
				ended, want = i, &Sig{Val: 100 + i}
			case "error", "fail":
				ended, want = i, &Sig{Err: fmt.Sprintf("step %d", i)}
			}
		}
	}
	verify := func(when string) error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		run()
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.bad != "" {
			return errors.New(r.bad)
		}
		if len(r.started) != next {
			return fmt.Errorf("%s: the steps %v have started, want the first %d", when, r.started, next)
		}
		var ev []string
		if c.How == "sub" || c.Flux && c.How == "block" {
			ev = append(ev, items...)
			if want != nil {
				switch {
				case want.Err != "":
					ev = append(ev, "error "+want.Err)
				case c.Flux:
					ev = append(ev, "complete")
				default:
					ev = append(ev, fmt.Sprintf("value %d", want.Val))
				}
				ev = append(ev, fmt.Sprintf("finally %v", want.signal()))
			}
		}
		if fmt.Sprint(ev) != fmt.Sprint(r.events) {
			return fmt.Errorf("%s: the workflow signals %q, want %q", when, r.events, ev)
		}
		switch {
		case want == nil && r.notes != 0:
			return fmt.Errorf("%s: the completion callback runs before the workflow has a result", when)
		case want != nil && (r.notes != 1 || r.sig != want.signal()):
			return fmt.Errorf("%s: the completion callback has run %d times with %v for the result %v", when, r.notes, r.sig, *want)
		}
		if o := r.blocked; o != nil {
			exp := Sig{}
			if want != nil {
				exp = *want
				if c.Flux {
					exp.Val = 0
				}
			}
			switch {
			case want == nil && o.n != 0:
				return fmt.Errorf("%s: the blocking call returns before the workflow has a result", when)
			case want != nil && (o.n != 1 || o.out != exp):
				return fmt.Errorf("%s: the blocking call has returned %d times with %v, the result is %v", when, o.n, o.out, *want)
			}
		}
		return nil
	}
	if err := verify("started"); err != nil || ctx.Inconcl != "" {
		return err
	}
	settled, steps := 0, 0
	for {
		var out []*flowAwait
		if next > 0 {
			for _, w := range groups[next-1] {
				if !w.isSettled() {
					out = append(out, w)
				}
			}
		}
		if len(out) == 0 {
			break
		}
		if c.Stop > 0 && settled >= c.Stop-1 && ended < 0 {
			// The driver ends the workflow while a step is waiting.
			ctx.Label("stopped from outside")
			ended = next - 1
			switch c.StopBy {
			case "end":
				f.End()
			case "finish":
				want = &Sig{Val: 7}
				if c.Flux {
					f.Complete()
				} else {
					f.Success(7)
				}
			case "error":
				want = &Sig{Err: "stop"}
				f.Error(errors.New("stop"))
			}
			if err := verify("ended from outside"); err != nil || ctx.Inconcl != "" {
				return err
			}
		}
		if c.AtOnce {
			ctx.Label("settled at once")
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, w := range out {
				wg.Add(1)
				go func() { defer wg.Done(); <-start; w.fire() }()
			}
			close(start)
			wg.Wait()
			settled += len(out)
		} else {
			out[c.Order[steps%len(c.Order)]%len(out)].fire()
			settled++
		}
		steps++
		if err := verify(fmt.Sprintf("after %d settlements", settled)); err != nil || ctx.Inconcl != "" {
			return err
		}
	}
	waits := 0
	for _, s := range c.Steps[:next] {
		waits += len(s.Awaits)
	}
	ctx.NonTrivialIf(next > 1 && waits > 0)
	if settled > 0 {
		ctx.Label("settled later")
	}
	if ended >= 0 && ended < len(c.Steps)-1 {
		ctx.Label("ended early")
	}
	return nil
}

var R04 = &kit.Property{
	ID:   "R04",
	Rule: "at least two steps ran and at least one result was awaited",
	Assumptions: []string{
		"results awaited by a step count as finished from the moment their outcome is signalled, whatever it is",
		"a workflow that runs out of steps without a result signals none",
		"races between settlements and registration rely on the Go scheduler",
	},
	Facets: []kit.Facet{
		kit.F("settlement races", 2000, 80000, genCloseRace("workflow"), checkCloseRace).WithBatch(50),
		kit.F("workflows", 150000, 3000000, genFlow, checkFlow),
	},
}
