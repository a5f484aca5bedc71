package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// The result of a call may be subscribed to, started, waited for and asked for
// in any order and from several goroutines: the request is sent once, and all
// see the same outcome.

// AwaitCase is a call whose result is used in several ways.
type AwaitCase struct {
	TCP     bool
	Kind    int
	From    int
	Items   int
	Fail    bool
	Release int      // the use before which the handler is released (beyond: after the last)
	Uses    []string // sub, async, block, notify
	Maps    int
	Hurry   bool // uses do not wait for each other
}

func genAwait(kinds []int) func(t *rapid.T) AwaitCase {
	return func(t *rapid.T) AwaitCase {
		c := AwaitCase{TCP: rapid.IntRange(0, 3).Draw(t, "transport") == 0, Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			From: rapid.IntRange(0, 1).Draw(t, "from"), Items: rapid.IntRange(0, 4).Draw(t, "items"), Fail: rapid.Bool().Draw(t, "fail"),
			Hurry: rapid.Bool().Draw(t, "hurry")}
		c.Uses = rapid.SliceOfN(rapid.SampledFrom([]string{"async", "async", "block", "block", "notify"}), 1, 5).Draw(t, "uses")
		if rapid.Bool().Draw(t, "subscribed") {
			// Not after something else has subscribed.
			at := 0
			for at < len(c.Uses) && c.Uses[at] == "notify" && rapid.Bool().Draw(t, "later") {
				at++
			}
			c.Uses = append(c.Uses[:at:at], append([]string{"sub"}, c.Uses[at:]...)...)
			// Blocking or starting at the same time might subscribe first.
			c.Hurry = false
		}
		if c.Kind != kRR {
			c.Hurry = false // a stream has one subscriber, who comes first
		} else {
			c.Maps = rapid.IntRange(0, 2).Draw(t, "maps")
		}
		c.Release = rapid.IntRange(0, len(c.Uses)).Draw(t, "release")
		return c
	}
}

func checkAwait(ctx *kit.Ctx, c AwaitCase) error {
	exportFaults()
	var mu sync.Mutex
	requests := 0
	tx := func(from int, f rs.Frame) {
		if f.Type >= rs.TRequestResponse && f.Type <= rs.TRequestChannel {
			mu.Lock()
			defer mu.Unlock()
			requests++
		}
	}
	got := func(int, rs.Frame) {}
	var l *link
	if c.TCP {
		srv, err := newTCPServer()
		if err != nil {
			return ctx.Inconclusive("%v", err)
		}
		defer srv.srv.Close()
		l = newTCPLink(srv, 0, tx, got)
	} else {
		l = newMemLink(false, 0, 0, tx, got)
	}
	l.refuse = func(frames.Frame) error { return nil }
	r := &faultRun{spec: &FaultCall{Kind: c.Kind, Held: "invoked", Src: "ondemand", Items: c.Items, Fail: c.Fail, InRefill: 0}, key: fmt.Sprintf("a%011d", keySeq.Add(1)), gate: make(chan struct{})}
	r.out = &faultSrc{kind: "ondemand"}
	for k := 0; k < c.Items; k++ {
		r.out.items = append(r.out.items, fmt.Sprintf("item %d", k))
	}
	if c.Fail {
		r.out.fail = r.failText()
	}
	r.in = &faultSrc{kind: "ondemand", items: []string{"a", "b"}}
	faultScripts.Store(r.key, r)
	released := false
	release := func() {
		if !released {
			released = true
			close(r.gate)
		}
	}
	defer func() {
		release()
		kit.Quiesce(quiesceLimit)
		faultScripts.Delete(r.key)
		l.close()
		kit.Quiesce(quiesceLimit)
	}()
	meta := binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, faultIDs[c.Kind]), 0)
	p := payload.New([]byte(r.key), append(meta, "m"+r.key...))
	h := l.h[c.From]
	var m mono.Mono[payload.Payload]
	var f flux.Flux[payload.Payload]
	switch c.Kind {
	case kRR:
		m = h.RequestResponse(context.Background(), p)
		for i := 0; i < c.Maps; i++ {
			m = mono.Map(m, func(p payload.Payload) (payload.Payload, error) {
				return payload.New(append(p.Data(), '+')), nil
			})
		}
	case kStream:
		f = h.RequestStream(context.Background(), p)
	case kChan:
		f = h.RequestChannel(context.Background(), p, r.in.flux())
	}
	// What each use has seen, as the events of a subscriber.
	logs := make([]*faultLog, len(c.Uses))
	began := false
	verify := func() error {
		mu.Lock()
		n := requests
		mu.Unlock()
		wantReq := 0
		if began {
			wantReq = 1
		}
		if n != wantReq {
			return fmt.Errorf("%d requests are sent, want %d", n, wantReq)
		}
		if int(r.calls.Load()) != wantReq {
			return fmt.Errorf("the handler has run %d times, want %d", r.calls.Load(), wantReq)
		}
		for i, l := range logs {
			if l == nil {
				continue
			}
			var want []string
			if began && released {
				want = r.awaited(&c, c.Uses[i])
			}
			if got := l.get(); !sameEvents(got, want) {
				return fmt.Errorf("use %d (%s) sees %q, want %q", i, c.Uses[i], got, want)
			}
		}
		return nil
	}
	quiet := func() (error, bool) {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err), false
		}
		if m := l.failure(); m != "" {
			return fmt.Errorf("%s", m), false
		}
		err := verify()
		return err, err == nil
	}
	note := func(l *faultLog, v payload.Payload, err error) {
		if err != nil {
			l.add("error %s", errText(err))
		} else if v != nil {
			l.add("value %s", v.Data())
		} else {
			l.add("no value")
		}
	}
	for i, u := range c.Uses {
		if i == c.Release {
			release()
			if err, ok := quiet(); !ok {
				return err
			}
		}
		l := &faultLog{}
		if u != "async" {
			logs[i] = l
		}
		if u != "notify" {
			began = true
		}
		switch u {
		case "sub":
			if m != nil {
				m.Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(v payload.Payload) { note(l, v, nil) },
					OnError:   func(err error) { note(l, nil, err) },
					Finally:   func(sig rx.SignalType) { l.add("%v", sig) },
				})
			} else {
				f.Subscribe(faultSub(l, 0, 0, nil))
			}
		case "async":
			use := func() {
				if m != nil {
					m.Async()
				} else {
					f.Async()
				}
			}
			if c.Hurry {
				go use()
			} else {
				use()
			}
		case "notify":
			fn := func(sig rx.SignalType) {
				if m != nil {
					v, err := m.Get()
					note(l, v, err)
				}
				l.add("%v", sig)
			}
			if m != nil {
				m.Notify(fn)
			} else {
				f.Notify(fn)
			}
		case "block":
			go func() {
				if m != nil {
					v, err := m.Block()
					note(l, v, err)
				} else if err := f.Block(flux.Subscribe[payload.Payload]{}); err != nil {
					l.add("error %s", errText(err))
				} else {
					l.add("done")
				}
			}()
		}
		if !c.Hurry {
			if err, ok := quiet(); !ok {
				return err
			}
		}
	}
	if err, ok := quiet(); !ok {
		return err
	}
	release()
	if err, ok := quiet(); !ok {
		return err
	}
	if m != nil && began {
		l := &faultLog{}
		v, err := m.Get()
		note(l, v, err)
		if got, want := l.get(), r.awaited(&c, "block"); !sameEvents(got, want) {
			return fmt.Errorf("the result read after the end is %q, want %q", got, want)
		}
	}
	ctx.Label("%s", kindName[c.Kind])
	ctx.NonTrivialIf(began && len(c.Uses) > 1)
	return nil
}

// awaited is what a use of the result sees of it.
func (r *faultRun) awaited(c *AwaitCase, use string) (want []string) {
	sig := rx.SignalComplete
	if c.Fail {
		sig = rx.SignalError
	}
	if c.Kind != kRR {
		switch use {
		case "sub":
			return faultItems(r.out, false, 0)
		case "notify":
			return []string{fmt.Sprint(sig)}
		}
		if c.Fail {
			return []string{"error " + r.out.fail}
		}
		return []string{"done"}
	}
	if c.Fail {
		want = append(want, "error "+r.failText())
	} else {
		v := r.answer()
		for i := 0; i < c.Maps; i++ {
			v += "+"
		}
		want = append(want, "value "+v)
	}
	if use != "block" {
		want = append(want, fmt.Sprint(sig))
	}
	return want
}

// StartCase is a number of calls each of which is started and waited for by
// several goroutines at the same moment.
type StartCase struct {
	Calls, Workers int
	Stream         bool
	Uses           []int // of the workers: 0: Async, 1: Block (a call's) or Async
}

func genStart(t *rapid.T) StartCase {
	return StartCase{Calls: rapid.IntRange(50, 150).Draw(t, "calls"), Workers: rapid.IntRange(2, 6).Draw(t, "workers"),
		Stream: rapid.Bool().Draw(t, "stream"), Uses: rapid.SliceOfN(rapid.IntRange(0, 1), 6, 6).Draw(t, "uses")}
}

func checkStart(ctx *kit.Ctx, c StartCase) error {
	h := handler.New(context.Background(), handler.ClientMode)
	var mu sync.Mutex
	requests := map[string]int{}
	h.SetFrameSender(func(f frames.Frame) error {
		if r, ok := f.(*frames.RequestPayload); ok {
			mu.Lock()
			requests[string(r.Data)]++
			mu.Unlock()
			go h.HandleFrame(&frames.Payload{StreamID: f.GetStreamID(), Data: []byte("v"), Next: true, Complete: true})
		}
		return nil
	})
	for i := 0; i < c.Calls; i++ {
		p := payload.New([]byte(fmt.Sprint(i)), make([]byte, 8))
		var use [2]func() error
		if c.Stream {
			f := h.RequestStream(context.Background(), p)
			use[0] = func() error { f.Async(); return nil }
			use[1] = use[0]
		} else {
			m := h.RequestResponse(context.Background(), p)
			use[0] = func() error { m.Async(); return nil }
			use[1] = func() error {
				v, err := m.Block()
				if err == nil && string(v.Data()) != "v" {
					err = fmt.Errorf("it yields %q", v.Data())
				}
				return err
			}
		}
		errs := make(chan error, c.Workers)
		start := make(chan struct{})
		for w := 0; w < c.Workers; w++ {
			go func() {
				<-start
				errs <- use[c.Uses[w%len(c.Uses)]]()
			}()
		}
		close(start)
		for w := 0; w < c.Workers; w++ {
			if err := <-errs; err != nil {
				return fmt.Errorf("waiting for call %d fails: %v", i, err)
			}
		}
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	ctx.NonTrivial()
	for i := 0; i < c.Calls; i++ {
		if n := requests[fmt.Sprint(i)]; n != 1 {
			return fmt.Errorf("%d goroutines start call %d at once, %d requests are sent", c.Workers, i, n)
		}
	}
	return nil
}
