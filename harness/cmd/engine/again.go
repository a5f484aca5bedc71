package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
)

// AgainRound is one subscription: what the source does for it, and what the
// subscriber asks for.
type AgainRound struct {
	Items  []int
	End    string // complete, error
	Demand int    // 0: everything
	Stop   int    // cancels on that item (0: never)
	Block  bool   // subscribes by blocking
}

// AgainCase subscribes to one publisher again and again, each time after the
// last subscription has ended.
type AgainCase struct {
	Kind   string // slice (the same items every time), create, mono
	Maps   []MapSpec
	Rounds []AgainRound
}

func genAgain(fail bool) func(t *rapid.T) AgainCase {
	return func(t *rapid.T) AgainCase {
		c := AgainCase{Kind: rapid.SampledFrom([]string{"slice", "create", "create", "mono"}).Draw(t, "kind"), Maps: genMaps(fail, 3)(t)}
		for fail && len(c.Maps) == 0 {
			c.Maps = genMaps(fail, 3)(t)
		}
		c.Rounds = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AgainRound {
			r := AgainRound{
				Items: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 6).Draw(t, "items"),
				End:   rapid.SampledFrom([]string{"complete", "complete", "error"}).Draw(t, "end"),
				Block: rapid.Bool().Draw(t, "block"),
			}
			if rapid.Bool().Draw(t, "refills") {
				r.Demand = rapid.IntRange(1, 3).Draw(t, "demand")
			}
			if rapid.IntRange(0, 3).Draw(t, "stops") == 0 {
				r.Stop = rapid.IntRange(1, 4).Draw(t, "stop")
			}
			return r
		}), 2, 4).Draw(t, "rounds")
		if c.Kind == "slice" {
			for i := range c.Rounds {
				c.Rounds[i].Items, c.Rounds[i].End = c.Rounds[0].Items, "complete"
			}
		}
		return c
	}
}

func (c *AgainCase) want(r *AgainRound) (ev []string, err string) {
	if c.Kind == "mono" {
		s := Sig{Err: "e1"}
		if r.End == "complete" {
			s = Sig{Val: len(r.Items)}
		}
		out, _ := applyMaps(c.Maps, s)
		if out.Err != "" {
			return []string{"error " + out.Err, fmt.Sprintf("finally %v", rx.SignalError)}, out.Err
		}
		return []string{fmt.Sprintf("value %d", out.Val), fmt.Sprintf("finally %v", rx.SignalComplete)}, ""
	}
	n := 0
	for _, v := range r.Items {
		out, _ := applyMaps(c.Maps, Sig{Val: v})
		if out.Err != "" {
			return append(ev, "error "+out.Err, fmt.Sprintf("finally %v", rx.SignalError)), out.Err
		}
		ev = append(ev, fmt.Sprintf("next %d", out.Val))
		if n++; n == r.Stop {
			return append(ev, fmt.Sprintf("finally %v", rx.SignalCancel)), ""
		}
	}
	if r.End == "error" {
		return append(ev, "error e1", fmt.Sprintf("finally %v", rx.SignalError)), "e1"
	}
	return append(ev, "complete", fmt.Sprintf("finally %v", rx.SignalComplete)), ""
}

func checkAgain(ctx *kit.Ctx, c AgainCase) error {
	round := 0
	fns, _ := txs(c.Maps)
	f := flux.FromSlice(c.Rounds[0].Items)
	if c.Kind == "create" {
		f = flux.Create(func(sink flux.Sink[int]) {
			r := c.Rounds[round]
			left, ended := r.Items, false
			sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				for ; n > 0 && len(left) > 0; n-- {
					v := left[0]
					left = left[1:]
					sink.Next(v)
				}
				if len(left) == 0 && !ended {
					ended = true
					emit(sink, FOp{Op: r.End, Err: "e1"})
				}
			}})
		})
	}
	m := mono.Create(func(sink mono.Sink[int]) {
		r := c.Rounds[round]
		if r.End == "error" {
			signal(sink, Sig{Err: "e1"})
		} else {
			signal(sink, Sig{Val: len(r.Items)})
		}
	})
	for _, fn := range fns {
		f = flux.Map(f, fn)
		m = mono.Map(m, fn)
	}
	outcomes := map[string]bool{}
	for round = 0; round < len(c.Rounds); round++ {
		spec := &c.Rounds[round]
		r := &fluxRun{c: &FluxCase{Demand: "max"}, flux: f}
		if spec.Demand > 0 {
			r.c.Demand, r.c.Refill = "refill", spec.Demand
		}
		for i := 1; i < spec.Stop; i++ {
			r.c.InNext = append(r.c.InNext, FOp{})
		}
		if spec.Stop > 0 {
			r.c.InNext = append(r.c.InNext, FOp{Op: "cancel"})
		}
		if c.Kind == "mono" {
			m.Subscribe(mono.Subscribe[int]{
				OnSuccess: func(v int) { r.add("value %d", v) },
				OnError:   func(err error) { r.add("error %v", err) },
				Finally:   func(sig rx.SignalType) { r.add("finally %v", sig) },
			})
		} else {
			f.Subscribe(r.callbacks())
		}
		var blocked string
		done := make(chan struct{})
		if spec.Block {
			go func() {
				defer close(done)
				var err error
				if c.Kind == "mono" {
					_, err = m.Block()
				} else {
					err = f.Block(flux.Subscribe[int]{})
				}
				if err != nil {
					blocked = errText(err)
				}
			}()
		}
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		want, failure := c.want(spec)
		r.mu.Lock()
		got := append([]string(nil), r.events...)
		r.mu.Unlock()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("subscription %d sees %q, want %q", round, got, want)
		}
		if spec.Block {
			select {
			case <-done:
			default:
				return fmt.Errorf("blocking on subscription %d, which has ended, does not return", round)
			}
			if blocked != failure {
				return fmt.Errorf("blocking on subscription %d returns error %q, it ended with %q", round, blocked, failure)
			}
		}
		outcomes[want[len(want)-1]] = true
	}
	ctx.NonTrivialIf(len(outcomes) > 1 || c.Kind == "slice" && len(c.Rounds[0].Items) > 0)
	ctx.Label("kind %s", c.Kind)
	return nil
}
