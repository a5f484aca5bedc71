package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"weak"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// FaultCall is a call of a case with held handlers or frames that cannot be
// sent.
type FaultCall struct {
	Kind, From int
	Link       int
	Held       string // "", invoked: the handler waits for the driver; produce: its source does; asked: the sources do when they are asked for items
	Src, InSrc string // slice, ondemand, hot
	Items, In  int
	Fail       bool // the handler answers with an error, or the output ends with one
	Refill     int  // 0: all at once
	InRefill   int
	Refused    string // what is too large to send: "", request, meta, answer, item, error, input, inerror
	At         int
	Stall      int // how often the subscriber asks for more (0: always)
	InStall    int
	Open       bool // the source does not end after its items
	InOpen     bool
}

// FaultCase makes the calls in order.
type FaultCase struct {
	TCP    bool
	Yields uint
	Calls  []FaultCall
	Order  []int // selects which handler is released next
	Hurry  bool
}

func genFaults(tcp, held bool, kinds []int) func(t *rapid.T) FaultCase {
	return func(t *rapid.T) FaultCase {
		c := FaultCase{TCP: tcp, Hurry: rapid.Bool().Draw(t, "hurry")}
		if rapid.Bool().Draw(t, "yields") {
			c.Yields = uint(rapid.IntRange(1, 1000).Draw(t, "yield seed"))
		}
		n := 6
		if tcp && !held {
			n = 2
		}
		c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FaultCall {
			f := FaultCall{
				Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), From: rapid.IntRange(0, 1).Draw(t, "from"),
				Link: rapid.IntRange(0, 1).Draw(t, "link"), Fail: rapid.IntRange(0, 4).Draw(t, "fail") == 0,
			}
			srcs := []string{"slice", "ondemand", "ondemand", "hot"}
			if f.Kind >= kStream {
				f.Src, f.Items = rapid.SampledFrom(srcs).Draw(t, "source"), rapid.IntRange(0, 5).Draw(t, "items")
				f.Refill = rapid.IntRange(0, 3).Draw(t, "refill")
			}
			if f.Kind == kChan {
				f.InSrc, f.In = rapid.SampledFrom(srcs).Draw(t, "input source"), rapid.IntRange(0, 5).Draw(t, "input items")
				f.InRefill = rapid.IntRange(0, 3).Draw(t, "input refill")
			}
			if f.Src == "slice" {
				f.Fail = false
			}
			if held {
				what := []string{"", "invoked", "invoked"}
				if f.Kind >= kStream {
					what = append(what, "produce", "asked")
				}
				f.Held = rapid.SampledFrom(what).Draw(t, "held")
				if f.Held == "asked" {
					f.Src, f.InSrc = "ondemand", "ondemand"
					f.At = rapid.IntRange(0, 2).Draw(t, "asked before")
				}
				return f
			}
			what := []string{"", "request", "meta"}
			switch f.Kind {
			case kRR:
				what = append(what, "answer", "answer", "answer")
			case kStream:
				what = append(what, "item", "item", "item")
			case kChan:
				what = append(what, "item", "item", "input", "input", "inerror")
			}
			if f.Kind != kFNF {
				what = append(what, "error")
			}
			f.Refused = rapid.SampledFrom(what).Draw(t, "refused")
			switch f.Refused {
			case "answer":
				f.Fail = false
			case "item":
				f.Items = max(1, f.Items)
				f.At = rapid.IntRange(0, f.Items-1).Draw(t, "at")
			case "input":
				f.In = max(1, f.In)
				f.At = rapid.IntRange(0, f.In-1).Draw(t, "at")
			case "error":
				f.Fail = true
				if f.Src == "slice" {
					f.Src = "ondemand"
				}
			case "inerror":
				if f.InSrc == "slice" {
					f.InSrc = "ondemand"
				}
			}
			return f
		}), 1, n).Draw(t, "calls")
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 7), 4, 8).Draw(t, "order")
		return c
	}
}

// faultLog is what one side of one direction has seen.
type faultLog struct {
	mu     sync.Mutex
	events []string
	sub    flux.Flux[payload.Payload]
	on     func(event string) // may take its time
}

func (l *faultLog) add(format string, a ...any) {
	e := fmt.Sprintf(format, a...)
	l.mu.Lock()
	l.events = append(l.events, e)
	l.mu.Unlock()
	if l.on != nil {
		l.on(e)
	}
}

func (l *faultLog) get() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.events...)
}

// faultSrc is a running source.
type faultSrc struct {
	kind    string
	items   []string
	open    bool // it does not end
	fail    string
	gate    chan struct{} // closed when it may produce
	asked   chan struct{} // closed when requests for items return
	free    atomic.Int32  // how many return before
	mu      sync.Mutex
	started bool
	stopped bool // cancelled, or at its end
}

func (s *faultSrc) flux() flux.Flux[payload.Payload] {
	if s.kind == "slice" {
		var ps []payload.Payload
		for _, i := range s.items {
			ps = append(ps, payload.New([]byte(i)))
		}
		s.stopped = true
		if s.gate == nil {
			return flux.FromSlice(ps)
		}
	}
	end := func(sink flux.Sink[payload.Payload]) {
		if s.open {
			return
		}
		s.mu.Lock()
		s.stopped = true
		s.mu.Unlock()
		if s.fail != "" {
			sink.Error(errors.New(s.fail))
		} else {
			sink.Complete()
		}
	}
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.mu.Lock()
		s.started = true
		s.mu.Unlock()
		cancel := func() {
			s.mu.Lock()
			s.stopped = true
			s.mu.Unlock()
		}
		if s.kind == "hot" {
			sink.OnSubscribe(flux.OnSubscribe{Cancel: cancel})
			go func() {
				if s.gate != nil {
					<-s.gate
				}
				for _, i := range s.items {
					sink.Next(payload.New([]byte(i)))
				}
				end(sink)
			}()
			return
		}
		left, busy, ended, open := s.items, false, false, s.gate == nil
		demand := 0
		var mu sync.Mutex
		work := func(n int, opens bool) {
			mu.Lock()
			demand = min(demand+n, rx.RequestMax)
			open = open || opens
			if busy || !open || ended {
				mu.Unlock()
				return
			}
			busy = true
			for demand > 0 && len(left) > 0 {
				demand--
				v := left[0]
				left = left[1:]
				mu.Unlock()
				sink.Next(payload.New([]byte(v)))
				mu.Lock()
			}
			busy = false
			if len(left) > 0 {
				mu.Unlock()
				return
			}
			ended = true
			mu.Unlock()
			end(sink)
		}
		sink.OnSubscribe(flux.OnSubscribe{Cancel: cancel, Request: func(n int) {
			if s.asked != nil && s.free.Add(-1) < 0 {
				<-s.asked
			}
			work(n, false)
		}})
		if s.gate != nil {
			go func() {
				<-s.gate
				work(0, true)
			}()
		}
	})
}

// running says whether somebody should have stopped it.
func (s *faultSrc) running() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.started && !s.stopped
}

// faultRun is a running FaultCall.
type faultRun struct {
	spec    *FaultCall
	idx     int
	key     string
	id      atomic.Uint32
	gate    chan struct{}
	out, in *faultSrc
	got     faultLog // of the requester
	input   faultLog // of the handler
	calls   atomic.Int32
	meta    atomic.Value
}

var faultScripts sync.Map

const tooLarge = "the frame is too large"

func faultSub(l *faultLog, refill, stall int, keep *canary) flux.Subscribe[payload.Payload] {
	s := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			runtime.KeepAlive(keep)
			l.add("next %s", short1(string(p.Data())))
		},
		OnComplete: func() { l.add("complete") },
		OnError:    func(err error) { l.add("error %s", short1(errText(err))) },
		Finally:    func(rx.SignalType) { l.add("finally") },
	}
	if refill > 0 {
		asked := 0
		s.OnRequest = func(sub rx.Subscription) {
			if asked++; stall == 0 || asked <= stall {
				sub.Request(refill)
			}
		}
	}
	return s
}

// errText is the text of an error; the code may pass on one that is missing.
func errText(err error) string {
	if err == nil {
		return "<no error>"
	}
	return err.Error()
}

func short1(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

var (
	faultOnce sync.Once
	faultIDs  [4]uint32
)

func faultOf(p payload.Payload, kind int, skip int) *faultRun {
	d := p.Data()
	if len(d) < keyLen {
		return nil
	}
	v, ok := faultScripts.Load(string(d[:keyLen]))
	if !ok {
		return nil
	}
	r := v.(*faultRun)
	if r.spec.Kind != kind {
		return nil
	}
	r.meta.Store(string(p.Metadata()[skip:]))
	r.calls.Add(1)
	if r.spec.Held == "invoked" {
		<-r.gate
	}
	return r
}

func exportFaults() {
	exportAll()
	faultOnce.Do(func() {
		const ns, name = "fault", "op"
		invoke.ExportRequestResponse(ns, name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			r := faultOf(p, kRR, 0)
			if r == nil {
				return mono.Error[payload.Payload](errors.New("no such call"))
			}
			if r.spec.Fail {
				return mono.Error[payload.Payload](errors.New(r.failText()))
			}
			return mono.Just[payload.Payload](payload.New([]byte(r.answer())))
		})
		invoke.ExportFireAndForget(ns, name, func(ctx context.Context, p payload.Payload) { faultOf(p, kFNF, 0) })
		invoke.ExportRequestStream(ns, name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			r := faultOf(p, kStream, 8)
			if r == nil {
				return flux.Error[payload.Payload](errors.New("no such call"))
			}
			return r.out.flux()
		})
		invoke.ExportRequestChannel(ns, name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			r := faultOf(p, kChan, 8)
			if r == nil {
				return flux.Error[payload.Payload](errors.New("no such call"))
			}
			in.Subscribe(faultSub(&r.input, r.spec.InRefill, r.spec.InStall, nil))
			return r.out.flux()
		})
		ops := invoke.GetOperations().Exported
		for kind, infos := range [][]invoke.HandlerInfo{ops.RequestResponse, ops.FireAndForget, ops.RequestStream, ops.RequestChannel} {
			for id, info := range infos {
				if info.Namespace == ns {
					faultIDs[kind] = uint32(id)
				}
			}
		}
	})
}

// pad makes a text one that fits into no frame.
func (r *faultRun) pad(s, what string, limit int) string {
	if r.spec.Refused != what {
		return s
	}
	return s + strings.Repeat("#", limit)
}

var faultLimit atomic.Int64

func (r *faultRun) failText() string {
	return r.pad(fmt.Sprintf("call %d fails", r.idx), "error", int(faultLimit.Load()))
}

func (r *faultRun) answer() string {
	return r.pad(fmt.Sprintf("answer %d", r.idx), "answer", int(faultLimit.Load()))
}

// sends watches a side's frames of a call.
type faultSide struct {
	mu    sync.Mutex
	ended map[uint32]bool // the side has sent an error for that stream
	after string
}

func (f *faultSide) tx(fr rs.Frame) {
	f.mu.Lock()
	defer f.mu.Unlock()
	switch {
	case fr.Type == rs.TError:
		f.ended[fr.ID] = true
	case fr.Type == rs.TPayload && f.ended[fr.ID] && f.after == "":
		f.after = fmt.Sprintf("a frame follows the error that ends stream %d: %+v", fr.ID, fr.Type)
	}
}

func checkFaults(ctx *kit.Ctx, c FaultCase) error {
	exportFaults()
	limit := 2000
	if c.TCP {
		limit = 1 << 24
	}
	faultLimit.Store(int64(limit))
	var sides [2][2]*faultSide
	var links []*link
	var srv *tcpServer
	nlinks := 1
	for _, f := range c.Calls {
		nlinks = max(nlinks, f.Link+1)
	}
	if c.TCP {
		s, err := newTCPServer()
		if err != nil {
			return ctx.Inconclusive("%v", err)
		}
		srv = s
		defer s.srv.Close()
	}
	for i := 0; i < nlinks; i++ {
		for k := range sides[i] {
			sides[i][k] = &faultSide{ended: map[uint32]bool{}}
		}
		tx := func(from int, f rs.Frame) { sides[i][from].tx(f) }
		got := func(int, rs.Frame) {}
		if c.TCP {
			links = append(links, newTCPLink(srv, c.Yields, tx, got))
		} else {
			l := newMemLink(false, 0, c.Yields, tx, got)
			l.refuse = func(f frames.Frame) error {
				if f.Size() > 1000 && f.Type() != frames.FrameTypeError {
					return errors.New(tooLarge)
				}
				return nil
			}
			links = append(links, l)
		}
	}
	var runs []*faultRun
	defer func() {
		for _, r := range runs {
			faultScripts.Delete(r.key)
			if r.gate != nil {
				select {
				case <-r.gate:
				default:
					close(r.gate)
				}
			}
		}
		kit.Quiesce(quiesceLimit)
		for _, l := range links {
			l.close()
		}
		kit.Quiesce(quiesceLimit)
	}()
	type held struct {
		what string
		ref  weak.Pointer[canary]
	}
	var canaries []held
	for i := range c.Calls {
		spec := &c.Calls[i]
		r := &faultRun{spec: spec, idx: i, key: fmt.Sprintf("f%011d", keySeq.Add(1))}
		if spec.Held != "" {
			r.gate = make(chan struct{})
		}
		r.out = &faultSrc{kind: spec.Src}
		for k := 0; k < spec.Items; k++ {
			s := fmt.Sprintf("item %d.%d", i, k)
			if spec.Refused == "item" && spec.At == k {
				s += strings.Repeat("#", limit)
			}
			r.out.items = append(r.out.items, s)
		}
		if spec.Fail {
			r.out.fail = r.failText()
		}
		if spec.Held == "produce" {
			r.out.gate = r.gate
		}
		r.in = &faultSrc{kind: spec.InSrc}
		if spec.Held == "asked" {
			r.out.asked, r.in.asked = r.gate, r.gate
			r.out.free.Store(int32(spec.At))
			r.in.free.Store(int32(spec.At))
		}
		for k := 0; k < spec.In; k++ {
			s := fmt.Sprintf("input %d.%d", i, k)
			if spec.Refused == "input" && spec.At == k {
				s += strings.Repeat("#", limit)
			}
			r.in.items = append(r.in.items, s)
		}
		if spec.Refused == "inerror" {
			r.in.fail = r.pad("input fails", "inerror", limit)
		}
		faultScripts.Store(r.key, r)
		runs = append(runs, r)
	}
	quiet := func() bool {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			ctx.Inconclusive("%v", err)
			return false
		}
		return true
	}
	verify := func(released map[*faultRun]bool) error {
		for _, l := range links {
			if m := l.failure(); m != "" {
				return errors.New(m)
			}
		}
		for i := range links {
			for _, s := range sides[i] {
				s.mu.Lock()
				after := s.after
				s.mu.Unlock()
				if after != "" {
					return errors.New(after)
				}
			}
		}
		for _, r := range runs {
			if err := r.verify(r.spec.Held == "" || released[r]); err != nil {
				return fmt.Errorf("%s %d (%s): %w", kindName[r.spec.Kind], r.idx, r.describe(), err)
			}
		}
		return nil
	}
	for _, r := range runs {
		s := r.spec
		h := links[s.Link].h[s.From]
		data := r.pad(r.key, "request", limit)
		meta := r.pad("m"+r.key, "meta", limit)
		p := payload.New([]byte(data), binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, faultIDs[s.Kind]), 0))
		p = payload.New(p.Data(), append(p.Metadata(), meta...))
		keep := &canary{}
		canaries = append(canaries, held{kindName[s.Kind], weak.Make(keep)})
		bg := context.Background()
		switch s.Kind {
		case kFNF:
			h.FireAndForget(bg, p)
		case kRR:
			h.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					runtime.KeepAlive(keep)
					r.got.add("next %s", short1(string(p.Data())))
					r.got.add("complete")
				},
				OnError: func(err error) { r.got.add("error %s", short1(errText(err))) },
				Finally: func(rx.SignalType) { r.got.add("finally") },
			})
		case kStream:
			h.RequestStream(bg, p).Subscribe(faultSub(&r.got, s.Refill, 0, keep))
		case kChan:
			h.RequestChannel(bg, p, r.in.flux()).Subscribe(faultSub(&r.got, s.Refill, 0, keep))
		}
		if !c.Hurry && !quiet() {
			return nil
		}
	}
	if !quiet() {
		return nil
	}
	released := map[*faultRun]bool{}
	if err := verify(released); err != nil {
		return err
	}
	var waiting []*faultRun
	for _, r := range runs {
		if r.gate != nil {
			waiting = append(waiting, r)
		}
	}
	for i := 0; len(waiting) > 0; i++ {
		k := c.Order[i%len(c.Order)] % len(waiting)
		r := waiting[k]
		waiting = append(waiting[:k:k], waiting[k+1:]...)
		released[r] = true
		close(r.gate)
		if !c.Hurry || len(waiting) == 0 {
			if !quiet() {
				return nil
			}
			if err := verify(released); err != nil {
				return err
			}
		}
	}
	nheld, nfree, refused := 0, 0, 0
	for _, r := range runs {
		ctx.Label("%s %s%s", kindName[r.spec.Kind], r.spec.Held, r.spec.Refused)
		if r.spec.Held != "" {
			nheld++
		} else {
			nfree++
		}
		if r.spec.Refused != "" {
			refused++
		}
	}
	ctx.NonTrivialIf(nheld > 0 && nfree > 0 || nheld > 1 || refused > 0)
	// Nothing of a call stays registered once it has ended. A connection may
	// hold on to the call it dealt with last.
	for i := range runs {
		faultScripts.Delete(runs[i].key)
	}
	clear(runs)
	runs, waiting, released = nil, nil, nil
	left := map[string]int{}
	for try := 0; try < 3; try++ {
		runtime.GC()
		runtime.GC()
		clear(left)
		for _, k := range canaries {
			if k.ref.Value() != nil {
				left[k.what]++
			}
		}
		if len(left) == 0 {
			break
		}
		if !quiet() {
			return nil
		}
	}
	runtime.KeepAlive(links)
	var msgs []string
	total := 0
	for what, n := range left {
		total += n
		msgs = append(msgs, fmt.Sprintf("%d subscribers of %ss", n, what))
	}
	if sort.Strings(msgs); total > 2*len(links) {
		return fmt.Errorf("all %d calls have ended, but %s are still reachable from the endpoints", len(canaries), strings.Join(msgs, " and "))
	}
	return nil
}

func (r *faultRun) describe() string {
	switch {
	case r.spec.Refused != "":
		return r.spec.Refused + " too large"
	case r.spec.Held != "":
		return "held"
	}
	return "undisturbed"
}

// stream says what a subscriber is to see of a source.
func faultItems(s *faultSrc, refused bool, at int) (want []string) {
	for i, v := range s.items {
		if refused && i == at {
			return append(want, "error *", "finally")
		}
		want = append(want, "next "+short1(v))
	}
	if s.fail != "" {
		return append(want, "error "+short1(s.fail), "finally")
	}
	return append(want, "complete", "finally")
}

func sameEvents(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] && !(want[i] == "error *" && strings.HasPrefix(got[i], "error ") && got[i] != "error ") {
			return false
		}
	}
	return true
}

func (r *faultRun) verify(free bool) error {
	s := r.spec
	calls := int(r.calls.Load())
	got, input := r.got.get(), r.input.get()
	if s.Refused == "request" || s.Refused == "meta" {
		if calls != 0 {
			return fmt.Errorf("the request cannot be sent, but the handler runs %d times", calls)
		}
		if s.Kind != kFNF && !sameEvents(got, []string{"error *", "finally"}) {
			return fmt.Errorf("the request cannot be sent, but the caller sees %q", got)
		}
		if s.Kind == kChan && r.in.running() {
			return fmt.Errorf("the request cannot be sent, but the source of its input is not stopped")
		}
		return nil
	}
	if calls != 1 {
		return fmt.Errorf("its handler has run %d times", calls)
	}
	if m, _ := r.meta.Load().(string); !strings.HasSuffix(m, "m"+r.key) {
		return fmt.Errorf("its metadata arrives as %q", short1(m))
	}
	if !free && s.Held == "asked" {
		return nil // it may have come some way
	}
	if !free {
		if len(got) > 0 {
			return fmt.Errorf("its handler has not been released, but the caller sees %q", got)
		}
		return nil
	}
	switch s.Kind {
	case kFNF:
		return nil
	case kRR:
		want := []string{"next " + short1(r.answer()), "complete", "finally"}
		switch {
		case s.Refused == "answer":
			want = []string{"error *", "finally"}
		case s.Fail:
			want = []string{"error " + short1(r.failText()), "finally"}
		}
		if !sameEvents(got, want) {
			return fmt.Errorf("the caller sees %q, want %q", got, want)
		}
		return nil
	}
	want := faultItems(r.out, s.Refused == "item", s.At)
	inFails := s.Refused == "input" || s.Refused == "inerror"
	if !inFails && !sameEvents(got, want) {
		return fmt.Errorf("the caller sees %q, want %q", got, want)
	}
	if inFails && !prefixEvents(got, want) {
		return fmt.Errorf("the caller sees %q, want %q or the error of the input", got, want)
	}
	if r.out.running() {
		return fmt.Errorf("it has ended, but its source is not stopped")
	}
	if s.Kind == kStream {
		return nil
	}
	inWant := faultItems(r.in, s.Refused == "input", s.At)
	outFails := s.Refused == "item" || s.Fail
	if !outFails && !sameEvents(input, inWant) {
		return fmt.Errorf("the handler's input is %q, want %q", input, inWant)
	}
	if outFails && !prefixEvents(input, inWant) {
		return fmt.Errorf("the handler's input is %q, want %q or its beginning and one end", input, inWant)
	}
	if r.in.running() {
		return fmt.Errorf("it has ended, but the source of its input is not stopped")
	}
	return nil
}

// prefixEvents says whether a stream carries the first of the wanted items and
// then ends once.
func prefixEvents(got, want []string) bool {
	for i, e := range got {
		if strings.HasPrefix(e, "next ") {
			if i >= len(want) || want[i] != e {
				return false
			}
			continue
		}
		return len(got) == i+2 && got[i+1] == "finally" && (e == "complete" || strings.HasPrefix(e, "error "))
	}
	return false
}
