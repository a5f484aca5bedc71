package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
)

// What a session is judged on.
const (
	mCalls   = 1 << iota // S01
	mStreams             // S02
	mDemand              // S03
	mChan                // S04
	mRobust              // S05: nothing fails, whatever was injected
	mEnd                 // S06
	mFNF                 // S10
)

// Kinds of calls.
const (
	kRR = iota
	kFNF
	kStream
	kChan
)

var kindName = []string{"call", "fire-and-forget", "stream", "channel"}

// Prod is a source of items.
type Prod struct {
	Kind   string // slice, resp, ondemand, push, hot, map, error
	Items  []gen.Blob
	Meta   bool // items carry metadata
	Bare   bool // items are the generated bytes and nothing else
	Err    bool // it ends with an error instead of completing
	FailAt int  // map: the item whose transformation fails
}

// Want is the demand of a subscriber.
type Want struct {
	Policy string // max, refill, manual, never (channel input: the responder ignores it)
	N      int    // refill: each time; manual: at first
}

// SCall is one call.
type SCall struct {
	Link, Side, Kind int
	Op               int // 0 or 1; -1 an id nobody exports, -2 the largest id, -3 and less: one that is like an exported one in its lower bits
	Data, Meta       gen.Blob
	How              string // sub, block, async

	Answer   string // calls: just, error, later, go, callback, mapfail
	Fail     bool   // later, go, callback: with an error
	Bare     bool   // the answer is Resp and nothing else
	Resp     gen.Blob
	RespMeta gen.Blob

	Out    Prod
	Want   Want
	In     Prod
	InWant Want
	Echo   bool // the channel's output is its input
	StopIn int  // the responder cancels the input after that many items (0: never)
}

// SOp is one step of the driver.
type SOp struct {
	Op     string // go, settle, push, pushin, req, reqin, cancel, cancelin, late, deliver, attack
	Call   int
	N      int
	NoWait bool
	Attack *Attack
}

// Attack is a frame of a peer that does as it likes.
type Attack struct {
	Link, Side int // the side that receives it
	Type       int
	Ended      bool // on the id of a call that has ended, if there is one
	ID         uint32
	Op         int // requests: 0 or 1; -1 an id nobody exports
	ShortMeta  int // requests: so many bytes of metadata only (-1: complete)
	Data       gen.Blob
	N          uint32
	Next       bool
	Complete   bool
	Follows    bool
	Garbage    bool // TCP: Data is sent as it is, on a connection of its own
}

// Session is a set of calls over one or two connections and a schedule.
type Session struct {
	TCP    bool
	Step   bool
	Starve bool // manual demand is not topped up at the end
	Wire   int  // the connections pass frames on as another implementation may form them
	Yields uint // seeds the points at which the connections yield (0: never)
	Calls  []SCall
	Ops    []SOp
}

// ------------------------------------------------------------- the exports

var (
	exportOnce sync.Once
	opIDs      [4][2]uint32
	scripts    sync.Map // key -> *call
	keySeq     atomic.Uint32
)

const keyLen = 12

func exportAll() {
	exportOnce.Do(func() {
		for n := 0; n < 2; n++ {
			name := fmt.Sprintf("op%d", n)
			invoke.ExportRequestResponse("link", name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				if c := scriptOf(p, kRR, n); c != nil {
					return c.answer(p)
				}
				return mono.Just[payload.Payload](payload.New([]byte("default")))
			})
			invoke.ExportFireAndForget("link", name, func(ctx context.Context, p payload.Payload) {
				if c := scriptOf(p, kFNF, n); c != nil {
					c.invoke(p)
				}
			})
			invoke.ExportRequestStream("link", name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				if c := scriptOf(p, kStream, n); c != nil {
					c.invoke(p)
					return c.out.flux()
				}
				return defaultFlux()
			})
			invoke.ExportRequestChannel("link", name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				if c := scriptOf(p, kChan, n); c != nil {
					c.invoke(p)
					return c.respond(in)
				}
				in.Subscribe(flux.Subscribe[payload.Payload]{})
				return defaultFlux()
			})
		}
		ops := invoke.GetOperations().Exported
		for kind, infos := range [][]invoke.HandlerInfo{ops.RequestResponse, ops.FireAndForget, ops.RequestStream, ops.RequestChannel} {
			for id, info := range infos {
				if info.Namespace == "link" {
					opIDs[kind][info.Operation[2]-'0'] = uint32(id)
				}
			}
		}
	})
}

func defaultFlux() flux.Flux[payload.Payload] {
	return flux.FromSlice([]payload.Payload{payload.New([]byte("d1")), payload.New([]byte("d2"))})
}

// scriptOf finds the call a request belongs to.
func scriptOf(p payload.Payload, kind, op int) *call {
	d := p.Data()
	if len(d) < keyLen {
		return nil
	}
	v, ok := scripts.Load(string(d[:keyLen]))
	if !ok {
		return nil
	}
	c := v.(*call)
	if c.spec.Kind != kind || c.spec.Op != op {
		c.fail("it is handled by operation %d of kind %s instead of operation %d of kind %s", op, kindName[kind], c.spec.Op, kindName[c.spec.Kind])
	}
	return c
}

// ------------------------------------------------------------ running calls

// msg is an item or answer as observed.
type msg struct{ data, meta string }

func msgOf(p payload.Payload) msg {
	if p == nil {
		return msg{"<nil>", ""}
	}
	return msg{string(p.Data()), string(p.Metadata())}
}

func (m msg) String() string { return fmt.Sprintf("%q+%q", clip(m.data), clip(m.meta)) }

// prodRun is a running source.
type prodRun struct {
	spec  *Prod
	items []msg
	c     *call

	mu      sync.Mutex
	runs    int // subscriptions
	sink    flux.Sink[payload.Payload]
	demand  int64 // demand it was given
	bad     int   // non-positive demand
	cancels int
	next    int
	done    bool
	busy    bool
}

type canary struct{ pad [64]byte }

func newProd(c *call, spec *Prod, dir string) *prodRun {
	r := &prodRun{spec: spec, c: c}
	for i, b := range spec.Items {
		m := msg{data: fmt.Sprintf("%s%d.%d:", dir, c.idx, i) + string(b.Bytes())}
		if spec.Bare {
			m.data = string(b.Bytes())
		}
		if spec.Meta {
			m.meta = fmt.Sprintf("meta of %s%d.%d", dir, c.idx, i)
		}
		r.items = append(r.items, m)
	}
	return r
}

// onDemand says whether it produces on request only.
func (r *prodRun) onDemand() bool {
	switch r.spec.Kind {
	case "slice", "resp", "ondemand", "map":
		return true
	}
	return false
}

// records says whether demand and cancellation of it are recorded.
func (r *prodRun) records() bool {
	switch r.spec.Kind {
	case "resp", "ondemand", "push", "map":
		return true
	}
	return false
}

// running says whether it has neither ended nor been stopped.
func (r *prodRun) running() bool {
	r.mu.Lock()
	demand := r.demand
	running := r.runs > 0 && r.records() && !r.done && r.cancels == 0
	r.mu.Unlock()
	_, end := r.upTo(demand)
	return running && !end
}

func (r *prodRun) endErr() string {
	switch {
	case r.spec.Kind == "error":
		return fmt.Sprintf("source %d fails", r.c.idx)
	case r.spec.Kind == "map" && r.spec.FailAt < len(r.items):
		return fmt.Sprintf("map %d refuses", r.c.idx)
	case r.spec.Err && (r.spec.Kind == "ondemand" || r.spec.Kind == "push" || r.spec.Kind == "hot"):
		return fmt.Sprintf("source %d ends badly", r.c.idx)
	}
	return ""
}

// upTo returns how many items and whether the end are due for a total demand.
func (r *prodRun) upTo(demand int64) (n int, end bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch r.spec.Kind {
	case "error":
		return 0, r.runs > 0
	case "hot":
		if r.runs == 0 {
			return 0, false
		}
		return len(r.items), true
	case "push":
		return r.next, r.done
	case "map":
		if r.spec.FailAt < len(r.items) {
			return int(min(demand, int64(r.spec.FailAt))), demand > int64(r.spec.FailAt)
		}
	}
	return int(min(demand, int64(len(r.items)))), demand > 0 && demand >= int64(len(r.items))
}

func (m msg) payload() payload.Payload {
	if m.meta == "" {
		return payload.New([]byte(m.data))
	}
	return payload.New([]byte(m.data), []byte(m.meta))
}

func (r *prodRun) note(n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.demand += int64(n)
	if n <= 0 {
		r.bad++
	}
}

func (r *prodRun) onCancel() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cancels++
	r.done = true
}

func (r *prodRun) flux() flux.Flux[payload.Payload] {
	keep := r.c.sess.canary(r.c, "source")
	all := func() []payload.Payload {
		var ps []payload.Payload
		for _, m := range r.items {
			ps = append(ps, m.payload())
		}
		return ps
	}
	start := func(s flux.Sink[payload.Payload]) {
		runtime.KeepAlive(keep)
		r.mu.Lock()
		r.runs++
		r.sink = s
		r.mu.Unlock()
	}
	switch r.spec.Kind {
	case "error":
		r.mu.Lock()
		r.runs++
		r.mu.Unlock()
		return flux.Error[payload.Payload](errors.New(r.endErr()))
	case "slice":
		return flux.FromSlice(all())
	case "resp", "map":
		f := flux.Create(func(s flux.Sink[payload.Payload]) {
			start(s)
			serve := flux.SliceResponse(s, all())
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { runtime.KeepAlive(keep); r.note(n); serve(n) },
				Cancel:  r.onCancel,
			})
		})
		if r.spec.Kind == "resp" {
			return f
		}
		i := -1
		return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
			if i++; i == r.spec.FailAt {
				return nil, errors.New(r.endErr())
			}
			return p, nil
		})
	case "ondemand":
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			start(s)
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { runtime.KeepAlive(keep); r.note(n); r.work(s) },
				Cancel:  r.onCancel,
			})
		})
	case "push":
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			start(s)
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { runtime.KeepAlive(keep); r.note(n) },
				Cancel:  r.onCancel,
			})
		})
	case "hot":
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			start(s)
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) { runtime.KeepAlive(keep) }, Cancel: func() {}})
			go func() {
				for _, m := range r.items {
					s.Next(m.payload())
				}
				r.signalEnd(s)
			}()
		})
	}
	kit.Bug("unknown source %q", r.spec.Kind)
	return nil
}

func (r *prodRun) signalEnd(s flux.Sink[payload.Payload]) {
	if e := r.endErr(); e != "" {
		s.Error(errors.New(e))
	} else {
		s.Complete()
	}
}

// work emits what is asked for, one goroutine at a time.
func (r *prodRun) work(s flux.Sink[payload.Payload]) {
	r.mu.Lock()
	if r.busy {
		r.mu.Unlock()
		return
	}
	r.busy = true
	for !r.done && int64(r.next) < r.demand && r.next < len(r.items) {
		m := r.items[r.next]
		r.next++
		r.mu.Unlock()
		s.Next(m.payload())
		r.mu.Lock()
	}
	end := !r.done && r.next == len(r.items)
	r.done = r.done || end
	r.busy = false
	r.mu.Unlock()
	if end {
		r.signalEnd(s)
	}
}

// push makes a push source emit its next item, or its end.
func (r *prodRun) push() bool {
	r.mu.Lock()
	s := r.sink
	if r.spec.Kind != "push" || s == nil {
		r.mu.Unlock()
		return false
	}
	if r.done {
		// It was told to stop, or has ended, and goes on regardless.
		r.mu.Unlock()
		s.Next(payload.New([]byte("too late")))
		return true
	}
	if r.next < len(r.items) {
		m := r.items[r.next]
		r.next++
		r.mu.Unlock()
		s.Next(m.payload())
		return true
	}
	r.done = true
	r.mu.Unlock()
	r.signalEnd(s)
	return true
}

// subRun is a running subscriber.
type subRun struct {
	c    *call
	want *Want
	dir  string
	stop int // cancels after so many items

	mu        sync.Mutex
	items     []msg
	terms     []string
	finals    []rx.SignalType
	stated    int64 // demand stated
	must      int64 // demand stated while the stream was surely alive
	cancelled bool
	frozen    int // items at the first quiet moment after the cancellation (-1: none yet)
	odd       string
	blocked   int // 0: does not block, 1: blocked, 2: returned
	blockErr  string
	sub       func() rx.Subscription
}

func (s *subRun) oddly(format string, a ...any) {
	if s.odd == "" {
		s.odd = fmt.Sprintf(format, a...)
	}
}

func (s *subRun) request(sub rx.Subscription, n int) {
	s.mu.Lock()
	if n > 0 {
		s.stated += int64(n)
	}
	s.mu.Unlock()
	sub.Request(n)
}

func (s *subRun) callbacks() flux.Subscribe[payload.Payload] {
	keep := s.c.sess.canary(s.c, "subscriber")
	f := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			runtime.KeepAlive(keep)
			s.mu.Lock()
			s.items = append(s.items, msgOf(p))
			if len(s.terms)+len(s.finals) > 0 && !(s.cancelled && s.frozen < 0) {
				// An item under way when it was cancelled may still arrive.
				s.oddly("item %v arrives after the end (%q, %v)", msgOf(p), s.terms, s.finals)
			}
			stop := s.stop > 0 && len(s.items) == s.stop && !s.cancelled
			s.cancelled = s.cancelled || stop
			s.mu.Unlock()
			if stop {
				s.sub().Cancel()
			}
		},
		OnComplete: func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.terms = append(s.terms, "complete")
		},
		OnError: func(err error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.terms = append(s.terms, "error "+errText(err))
		},
		Finally: func(sig rx.SignalType) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.finals = append(s.finals, sig)
		},
	}
	switch s.want.Policy {
	case "refill":
		f.OnRequest = func(sub rx.Subscription) { s.request(sub, s.want.N) }
	case "manual":
		first := true
		f.OnRequest = func(sub rx.Subscription) {
			if first && s.want.N > 0 {
				first = false
				s.request(sub, s.want.N)
			}
		}
	default:
		s.stated += rx.RequestMax // stated by leaving OnRequest out
	}
	return f
}

func (s *subRun) ended() bool { return len(s.finals) > 0 }

// outcome is the result of a call.
type outcome struct {
	msg
	err string
}

// call is a call while the session runs.
type call struct {
	spec *SCall
	sess *session
	idx  int
	key  string

	mu       sync.Mutex
	started  bool
	problem  string
	invoked  int
	reqs     []msg
	outcomes []outcome
	finals   []rx.SignalType
	sink     mono.Processor[payload.Payload]
	settled  bool

	out, in  *prodRun
	sub      *subRun // of the requester
	insub    *subRun // of the responder
	reqFlux  flux.Flux[payload.Payload]
	inFlux   flux.Flux[payload.Payload]
	echoed   bool // the echo has a sink
	echoSink flux.Sink[payload.Payload]

	// From the log of the link.
	id         uint32
	sentReq    int
	gotReq     int
	asked      int64 // demand for the output sent by the requester
	askedRx    int64 // ... and handed to the responder
	inAsked    int64 // demand for the input sent by the responder
	inAskedRx  int64
	itemsTx    int64 // items sent by the responder
	inItemsTx  int64
	repliesTx  int // any frame sent by the responder
	cancelTx   int
	cancelRx   int
	inCancelTx int
	stopped    bool // the peer has had the cancellation at a quiet moment
	sentAfter  int  // items or ends sent by the responder after that
	overrun    string
	zero       string
}

func (c *call) fail(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.problem == "" {
		c.problem = fmt.Sprintf(format, a...)
	}
}

func (c *call) invoke(p payload.Payload) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.invoked++
	c.reqs = append(c.reqs, msgOf(p))
}

func (c *call) name() string { return fmt.Sprintf("%s %d", kindName[c.spec.Kind], c.idx) }

func (c *call) wantOutcome() outcome {
	s := c.spec
	switch {
	case s.Op < 0:
		return outcome{err: "?"}
	case s.Answer == "error", s.Answer == "mapfail", s.Fail && (s.Answer == "later" || s.Answer == "go" || s.Answer == "callback"):
		return outcome{err: fmt.Sprintf("call %d is refused", c.idx)}
	}
	if s.Bare {
		return outcome{msg: msg{string(s.Resp.Bytes()), string(s.RespMeta.Bytes())}}
	}
	return outcome{msg: msg{fmt.Sprintf("answer %d:", c.idx) + string(s.Resp.Bytes()), string(s.RespMeta.Bytes())}}
}

// answer is the handler of a call.
func (c *call) answer(p payload.Payload) mono.Mono[payload.Payload] {
	c.invoke(p)
	w := c.wantOutcome()
	fail := errors.New(w.err)
	value := payload.New([]byte(w.data), []byte(w.meta))
	if w.meta == "" {
		value = payload.New([]byte(w.data))
	}
	settle := func(s mono.Sink[payload.Payload]) {
		if w.err != "" {
			s.Error(fail)
		} else {
			s.Success(value)
		}
	}
	switch c.spec.Answer {
	case "just":
		return mono.Just[payload.Payload](value)
	case "error":
		return mono.Error[payload.Payload](fail)
	case "go":
		return mono.Create(func(s mono.Sink[payload.Payload]) { go settle(s) })
	case "mapfail":
		return mono.Map(mono.Just[payload.Payload](value), func(payload.Payload) (payload.Payload, error) { return nil, fail })
	case "callback":
		// The handler calls the peer back before it answers.
		back := c.sess.handler(c.spec.Link, 1-c.spec.Side).RequestResponse(context.Background(), payload.New([]byte("back"), opMeta(opIDs[kRR][0], nil)))
		return mono.Map(back, func(p payload.Payload) (payload.Payload, error) {
			if string(p.Data()) != "default" {
				return nil, fmt.Errorf("calling back returns %q", p.Data())
			}
			if w.err != "" {
				return nil, fail
			}
			return payload.Payload(value), nil
		})
	case "later":
		s := mono.NewProcessor[payload.Payload]()
		c.mu.Lock()
		c.sink = s
		c.mu.Unlock()
		return s
	}
	kit.Bug("unknown answer %q", c.spec.Answer)
	return nil
}

func (c *call) settle() bool {
	c.mu.Lock()
	s := c.sink
	if s == nil || c.settled {
		c.mu.Unlock()
		return false
	}
	c.settled = true
	c.mu.Unlock()
	if w := c.wantOutcome(); w.err != "" {
		s.Error(errors.New(w.err))
	} else {
		s.Success(w.msg.payload())
	}
	return true
}

// respond is the handler of a channel.
func (c *call) respond(in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	c.mu.Lock()
	c.inFlux = in
	c.mu.Unlock()
	c.insub.sub = in.Subscription
	if !c.spec.Echo {
		if c.spec.InWant.Policy != "never" {
			in.Subscribe(c.insub.callbacks())
		}
		return c.out.flux()
	}
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		c.mu.Lock()
		c.echoed = true
		c.mu.Unlock()
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
		cb := c.insub.callbacks()
		next, complete, fail := cb.OnNext, cb.OnComplete, cb.OnError
		cb.OnNext = func(p payload.Payload) { next(p); s.Next(p) }
		cb.OnComplete = func() { complete(); s.Complete() }
		cb.OnError = func(err error) { fail(err); s.Error(err) }
		in.Subscribe(cb)
	})
}

func opMeta(id uint32, extra []byte) []byte {
	m := binary.BigEndian.AppendUint32(nil, id)
	m = binary.BigEndian.AppendUint32(m, 0)
	return append(m, extra...)
}

// start makes the call.
func (c *call) start() {
	if c.started {
		return
	}
	c.started = true
	s := c.spec
	id := uint32(math.MaxUint32)
	switch {
	case s.Op >= 0:
		id = opIDs[s.Kind][s.Op]
	case s.Op == -1:
		id = uint32(1<<20 + c.idx)
	case s.Op < -2:
		id = opIDs[s.Kind][c.idx%2] | 1<<[]int{12, 16, 24, 31}[(-3-s.Op)%4]
	}
	h := c.sess.handler(s.Link, s.Side)
	p := payload.New(append([]byte(c.key), s.Data.Bytes()...), opMeta(id, s.Meta.Bytes()))
	ctx := context.Background()
	switch s.Kind {
	case kFNF:
		h.FireAndForget(ctx, p)
	case kRR:
		keep := c.sess.canary(c, "subscriber")
		m := h.RequestResponse(ctx, p)
		add := func(o outcome) {
			runtime.KeepAlive(keep)
			c.mu.Lock()
			defer c.mu.Unlock()
			c.outcomes = append(c.outcomes, o)
		}
		switch s.How {
		case "block":
			go func() {
				v, err := m.Block()
				if err != nil {
					add(outcome{err: errText(err)})
				} else {
					add(outcome{msg: msgOf(v)})
				}
			}()
		case "async":
			m.Notify(func(rx.SignalType) {
				v, err := m.Get()
				if err != nil {
					add(outcome{err: errText(err)})
				} else {
					add(outcome{msg: msgOf(v)})
				}
			})
			m.Async()
		default:
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(v payload.Payload) { add(outcome{msg: msgOf(v)}) },
				OnError:   func(err error) { add(outcome{err: errText(err)}) },
				Finally: func(sig rx.SignalType) {
					c.mu.Lock()
					defer c.mu.Unlock()
					c.finals = append(c.finals, sig)
				},
			})
		}
	case kStream, kChan:
		var f flux.Flux[payload.Payload]
		if s.Kind == kStream {
			f = h.RequestStream(ctx, p)
		} else {
			f = h.RequestChannel(ctx, p, c.in.flux())
		}
		c.reqFlux = f
		c.sub.sub = f.Subscription
		if s.How == "block" {
			c.sub.blocked = 1
			cb := c.sub.callbacks()
			go func() {
				err := f.Block(cb)
				c.sub.mu.Lock()
				defer c.sub.mu.Unlock()
				c.sub.blocked = 2
				if err != nil {
					c.sub.blockErr = errText(err)
				}
			}()
		} else {
			f.Subscribe(c.sub.callbacks())
		}
	}
}

// --------------------------------------------------------------- the session

type session struct {
	spec           *Session
	mask           int
	links          []*link
	srv            *tcpServer
	calls          []*call
	byKey          map[string]*call
	mu             sync.Mutex
	byID           []map[uint32]*call // per link
	attacks, lates int
	raw            [2]*rawPeer // TCP: connections of peers that do as they like

	canaries []heldCanary
	hold     bool // canaries are wanted
}

type heldCanary struct {
	what string
	ref  weak.Pointer[canary]
}

func (s *session) handler(link, side int) *handler.Handler { return s.links[link].h[side] }

// canary makes an object that lives as long as the closure it is used in.
func (s *session) canary(c *call, what string) *canary {
	if !s.hold {
		return nil
	}
	k := &canary{}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.canaries = append(s.canaries, heldCanary{what, weak.Make(k)})
	return k
}

// openSession joins the endpoints and prepares the calls.
func openSession(spec *Session, mask int, hold bool) (*session, error) {
	exportAll()
	s := &session{spec: spec, mask: mask, byKey: map[string]*call{}, hold: hold}
	nlinks := 1
	for _, c := range spec.Calls {
		nlinks = max(nlinks, c.Link+1)
	}
	if spec.TCP {
		srv, err := newTCPServer()
		if err != nil {
			return nil, err
		}
		s.srv = srv
	}
	for i := 0; i < nlinks; i++ {
		s.byID = append(s.byID, map[uint32]*call{})
		tx := func(from int, f rs.Frame) { s.onTx(i, from, f) }
		rx := func(to int, f rs.Frame) { s.onRx(i, to, f) }
		if spec.TCP {
			s.links = append(s.links, newTCPLink(s.srv, spec.Yields, tx, rx))
		} else {
			s.links = append(s.links, newMemLink(spec.Step, spec.Wire, spec.Yields, tx, rx))
		}
	}
	s.prepare()
	return s, nil
}

func (s *session) prepare() {
	for i := range s.spec.Calls {
		spec := &s.spec.Calls[i]
		c := &call{spec: spec, sess: s, idx: len(s.calls), key: fmt.Sprintf("k%011d", keySeq.Add(1))}
		c.out = newProd(c, &spec.Out, "o")
		c.in = newProd(c, &spec.In, "i")
		c.sub = &subRun{c: c, want: &spec.Want, dir: "output", frozen: -1}
		c.insub = &subRun{c: c, want: &spec.InWant, dir: "input", stop: spec.StopIn, frozen: -1}
		s.calls = append(s.calls, c)
		s.byKey[c.key] = c
		scripts.Store(c.key, c)
	}
}

func (s *session) close() {
	for k := range s.byKey {
		scripts.Delete(k)
	}
	for _, l := range s.links {
		l.close()
	}
	for _, p := range s.raw {
		if p != nil {
			p.conn.Close()
		}
	}
	if s.srv != nil {
		s.srv.srv.Close()
	}
}

// onTx runs under the lock of the link.
func (s *session) onTx(link, from int, f rs.Frame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch f.Type {
	case rs.TRequestResponse, rs.TRequestFNF, rs.TRequestStream, rs.TRequestChannel:
		if len(f.Data) < keyLen {
			return
		}
		c := s.byKey[string(f.Data[:keyLen])]
		if c == nil || c.spec.Link != link || c.spec.Side != from {
			return
		}
		c.sentReq++
		c.id = f.ID
		s.byID[link][f.ID] = c
		if f.Type >= rs.TRequestStream {
			c.asked += int64(f.N)
			if f.N == 0 {
				c.zero = "the request asks for nothing"
			}
		}
		return
	}
	c := s.byID[link][f.ID]
	if c == nil {
		return
	}
	if from == c.spec.Side {
		switch f.Type {
		case rs.TRequestN:
			c.asked += int64(f.N)
			if f.N == 0 {
				c.zero = "a frame asks for nothing"
			}
		case rs.TCancel:
			c.cancelTx++
		case rs.TPayload:
			if f.Next {
				c.inItemsTx++
				if c.in.onDemand() && c.inItemsTx > c.inAskedRx && c.overrun == "" {
					c.overrun = fmt.Sprintf("item %d of the input is sent when %d have been asked for", c.inItemsTx, c.inAskedRx)
				}
			}
		}
		return
	}
	c.repliesTx++
	switch f.Type {
	case rs.TRequestN:
		c.inAsked += int64(f.N)
		if f.N == 0 {
			c.zero = "a frame asks for nothing"
		}
	case rs.TCancel:
		c.inCancelTx++
	case rs.TPayload, rs.TError:
		if c.stopped {
			c.sentAfter++
		}
		if f.Type == rs.TPayload && f.Next {
			c.itemsTx++
			if c.spec.Kind >= kStream && !c.spec.Echo && c.out.onDemand() && c.itemsTx > c.askedRx && c.overrun == "" {
				c.overrun = fmt.Sprintf("item %d is sent when %d have been asked for", c.itemsTx, c.askedRx)
			}
		}
	}
}

func (s *session) onRx(link, to int, f rs.Frame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.byID[link][f.ID]
	if c == nil {
		return
	}
	if to != c.spec.Side {
		switch f.Type {
		case rs.TRequestStream, rs.TRequestChannel:
			c.gotReq++
			c.askedRx += int64(f.N)
		case rs.TRequestResponse, rs.TRequestFNF:
			c.gotReq++
		case rs.TRequestN:
			c.askedRx += int64(f.N)
		case rs.TCancel:
			c.cancelRx++
		}
	} else if f.Type == rs.TRequestN {
		c.inAskedRx += int64(f.N)
	}
}

// flush delivers everything that waits.
func (s *session) flush() error {
	for {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return err
		}
		if !s.spec.Step {
			return nil
		}
		any := false
		for _, l := range s.links {
			for side := range l.h {
				for l.deliver(side) {
					any = true
				}
			}
		}
		if !any {
			return nil
		}
	}
}

// over says whether a call has ended for its requester.
func (c *call) over() bool {
	switch c.spec.Kind {
	case kRR:
		c.mu.Lock()
		defer c.mu.Unlock()
		return len(c.outcomes) > 0
	case kFNF:
		return c.started
	}
	c.sub.mu.Lock()
	defer c.sub.mu.Unlock()
	return c.sub.ended()
}

func short(ms []msg) string {
	var out []string
	for _, m := range ms {
		out = append(out, m.String())
	}
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("... %d in all", len(ms)))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// verify judges the session at a quiet moment. With exact, every frame sent
// has been handled.
func (s *session) verify(when string, exact bool) error {
	for i, l := range s.links {
		if e := l.failure(); e != "" {
			return fmt.Errorf("%s: connection %d: %s", when, i, e)
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.calls {
		if !c.started {
			continue
		}
		if err := c.verify(exact); err != nil {
			return fmt.Errorf("%s: %s: %w", when, c.name(), err)
		}
	}
	return nil
}

func (c *call) verify(exact bool) error {
	c.mu.Lock()
	problem, invoked, reqs, outcomes, finals := c.problem, c.invoked, c.reqs, c.outcomes, c.finals
	c.mu.Unlock()
	mine := []int{mCalls, mFNF, mStreams, mChan}[c.spec.Kind] & c.sess.mask
	if mine != 0 {
		if problem != "" {
			return errors.New(problem)
		}
		known := c.spec.Op >= 0
		for _, m := range reqs {
			if m.data != c.key+string(c.spec.Data.Bytes()) {
				return fmt.Errorf("its handler gets the data %q, want %q", clip(m.data), clip(c.key+string(c.spec.Data.Bytes())))
			}
			if !strings.HasSuffix(m.meta, string(c.spec.Meta.Bytes())) {
				return fmt.Errorf("its handler gets the metadata %q, which does not end in %q", clip(m.meta), clip(string(c.spec.Meta.Bytes())))
			}
		}
		if c.sentReq > 1 {
			return fmt.Errorf("the request is sent %d times", c.sentReq)
		}
		switch {
		case invoked > 1, !known && invoked > 0:
			return fmt.Errorf("its handler runs %d times", invoked)
		case exact && known && invoked == 0 && c.sentReq > 0 && !c.sub.isCancelled():
			return fmt.Errorf("its handler does not run")
		}
	}
	switch c.spec.Kind {
	case kFNF:
		if c.sess.mask&mFNF != 0 {
			if c.sentReq != 1 {
				return fmt.Errorf("it is sent %d times", c.sentReq)
			}
			if c.spec.Op >= 0 && c.repliesTx > 0 && c.sess.mask&mRobust == 0 {
				return fmt.Errorf("it is answered with %d frames", c.repliesTx)
			}
		}
		return nil
	case kRR:
		if mine == 0 {
			return nil
		}
		want := c.wantOutcome()
		if len(outcomes) > 1 {
			return fmt.Errorf("it ends %d times: %v", len(outcomes), outcomes)
		}
		if exact && len(outcomes) == 0 && (c.spec.Op < 0 || c.spec.Answer != "later" || c.isSettled()) {
			return fmt.Errorf("it has no outcome, want %+v", want)
		}
		if len(outcomes) == 1 {
			got := outcomes[0]
			switch {
			case c.spec.Op < 0 && got.err != "":
			case got != want:
				return fmt.Errorf("it ends with %v %q, want %v %q", got.msg, got.err, want.msg, want.err)
			}
			if c.spec.How == "sub" && len(finals) != 1 && (exact || len(finals) > 1) {
				return fmt.Errorf("it ends with %d final notifications", len(finals))
			}
		}
		return nil
	}
	return c.verifyStream(mine, exact)
}

func (c *call) isSettled() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.settled
}

func (s *subRun) isCancelled() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cancelled
}

// check judges what a subscriber has seen against what it must see: the first
// n of items, then end if over. With cut, the other side may have stopped it
// before that.
func (s *subRun) check(items []msg, n int, over bool, end string, exact, cut bool) error {
	if s.odd != "" {
		return errors.New(s.odd)
	}
	if len(s.items) > len(items) {
		return fmt.Errorf("the subscriber of the %s sees %d items, only %d are produced: %s", s.dir, len(s.items), len(items), short(s.items))
	}
	for i, m := range s.items {
		if m != items[i] {
			return fmt.Errorf("item %d of the %s is %v, want %v", i, s.dir, m, items[i])
		}
	}
	if len(s.items) > n {
		return fmt.Errorf("the subscriber of the %s sees %d items, only %d are due", s.dir, len(s.items), n)
	}
	if len(s.terms) > 1 || len(s.finals) > 1 {
		return fmt.Errorf("the %s ends more than once: %q %v", s.dir, s.terms, s.finals)
	}
	if len(s.terms) == 1 && !cut {
		if !over || s.terms[0] != end {
			return fmt.Errorf("the %s ends with %q after %d items, want %q after %d", s.dir, s.terms[0], len(s.items), end, n)
		}
		if len(s.items) != n {
			return fmt.Errorf("the %s ends with %q after %d of %d items", s.dir, s.terms[0], len(s.items), n)
		}
	}
	if len(s.finals) == 1 && !cut && (len(s.terms) != 1 || (s.terms[0] == "complete") != (s.finals[0] == rx.SignalComplete)) {
		return fmt.Errorf("the %s ends with %q, the final notification is %v", s.dir, s.terms, s.finals)
	}
	if exact && !cut {
		if len(s.items) != n {
			return fmt.Errorf("the subscriber of the %s sees %d items, %d are due: %s", s.dir, len(s.items), n, short(s.items))
		}
		if over && (len(s.terms) != 1 || len(s.finals) != 1) {
			return fmt.Errorf("the %s ends with %q %v, want %q", s.dir, s.terms, s.finals, end)
		}
	}
	return nil
}

func endOf(e string) string {
	if e == "" {
		return "complete"
	}
	return "error " + e
}

func (c *call) verifyStream(mine int, exact bool) error {
	mask := c.sess.mask
	out, in := c.sub, c.insub
	out.mu.Lock()
	defer out.mu.Unlock()
	if in != out {
		in.mu.Lock()
		defer in.mu.Unlock()
	}
	spec := c.spec

	// The input of a channel, as far as the responder has asked for it.
	var inN int
	var inOver bool
	if spec.Kind == kChan && c.invokedNow() && spec.InWant.Policy != "never" {
		inN, inOver = c.in.upTo(in.stated)
	}
	// The output ends the input when it fails, and so does a cancellation.
	outFails := false
	var n int
	var over bool
	end := "complete"
	items := c.out.items
	switch {
	case spec.Op < 0:
		items = nil
		n, over, end = 0, c.sentReq > 0, "error not_found"
		outFails = true
	case spec.Echo:
		items = c.in.items
		n = len(in.items)
		over = len(in.terms) > 0
		end = endOf(c.in.endErr())
		outFails = c.in.endErr() != ""
	default:
		n, over = c.out.upTo(out.stated)
		if !c.invokedNow() {
			n, over = 0, false
		}
		end = endOf(c.out.endErr())
		outFails = c.out.endErr() != "" && over
	}
	// An error of the input may or may not end the output as well.
	inFails := spec.Kind == kChan && c.in.endErr() != ""
	outCut := out.cancelled || spec.Echo && in.cancelled
	inCut := out.cancelled || in.cancelled || outFails && !(spec.Echo && inFails && !in.cancelled) || spec.Op < 0

	if mine != 0 {
		if err := out.check(items, n, over, end, exact, outCut); err != nil {
			return err
		}
		if exact && out.blocked == 1 && len(out.finals) > 0 {
			return fmt.Errorf("the blocking call does not return after the end")
		}
		if out.blocked == 2 {
			if len(out.finals) == 0 {
				return fmt.Errorf("the blocking call returns before the end")
			}
			if !outCut && endOf(out.blockErr) != out.terms[0] {
				return fmt.Errorf("the blocking call returns the error %q, the stream ends with %q", out.blockErr, out.terms)
			}
		}
		if spec.Kind == kChan {
			if err := in.check(c.in.items, inN, inOver, endOf(c.in.endErr()), exact, inCut); err != nil {
				return err
			}
		}
	}
	if mask&mDemand != 0 {
		if err := c.verifyDemand(out, in, exact, outCut || inCut); err != nil {
			return err
		}
	}
	if mask&mEnd != 0 {
		if err := c.verifyEnd(out, in, exact); err != nil {
			return err
		}
	}
	return nil
}

func (c *call) invokedNow() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.invoked > 0
}

func (c *call) verifyDemand(out, in *subRun, exact, cut bool) error {
	if c.zero != "" {
		return errors.New(c.zero)
	}
	if c.overrun != "" {
		return errors.New(c.overrun)
	}
	dirs := []struct {
		what        string
		s           *subRun
		p           *prodRun
		asked, done int64
		gone        bool
	}{{"output", out, c.out, c.asked, c.itemsTx, c.spec.Op < 0 || out.cancelled || c.spec.Echo}}
	if c.spec.Kind == kChan && c.spec.Op >= 0 {
		dirs = append(dirs, struct {
			what        string
			s           *subRun
			p           *prodRun
			asked, done int64
			gone        bool
		}{"input", in, c.in, c.inAsked, c.inItemsTx, cut || in.cancelled})
	}
	for _, d := range dirs {
		d.p.mu.Lock()
		given, bad, cancels, done := d.p.demand, d.p.bad, d.p.cancels, d.p.done
		d.p.mu.Unlock()
		switch {
		case bad > 0:
			return fmt.Errorf("the source of the %s is asked for no items, or a negative number", d.what)
		case d.asked > d.s.stated:
			return fmt.Errorf("the subscriber of the %s has asked for %d items in all, the frames ask for %d", d.what, d.s.stated, d.asked)
		case exact && d.asked < d.s.must:
			return fmt.Errorf("the subscriber of the %s asked for %d items while it was alive, the frames ask for %d", d.what, d.s.must, d.asked)
		case exact && !d.s.ended() && !d.gone && d.asked != d.s.stated:
			return fmt.Errorf("the subscriber of the %s has asked for %d items in all, the frames ask for %d", d.what, d.s.stated, d.asked)
		case d.p.records() && given > d.asked:
			return fmt.Errorf("the frames ask for %d items of the %s, its source is asked for %d", d.asked, d.what, given)
		case exact && d.p.records() && !d.s.ended() && !d.gone && cancels == 0 && !done && given < min(d.asked, rx.RequestMax):
			return fmt.Errorf("the frames ask for %d items of the %s, its source is asked for %d", d.asked, d.what, given)
		case d.p.onDemand() && !(d.what == "output" && c.spec.Echo) && int64(len(d.s.items)) > d.s.stated:
			return fmt.Errorf("%d items of the %s are delivered, %d have been asked for", len(d.s.items), d.what, d.s.stated)
		}
		// Whoever asks for enough gets everything.
		if exact && !d.gone && !cut && c.invokedNow() && d.p.onDemand() && !(d.what == "input" && c.spec.InWant.Policy == "never") {
			if n, _ := d.p.upTo(d.s.stated); len(d.s.items) != n {
				return fmt.Errorf("%d items of the %s are delivered, %d have been asked for and there are %d", len(d.s.items), d.what, d.s.stated, len(d.p.items))
			}
		}
		if !d.s.ended() && !d.gone && exact {
			d.s.must = d.s.stated
		}
	}
	return nil
}

func (c *call) verifyEnd(out, in *subRun, exact bool) error {
	for _, s := range []*subRun{out, in} {
		if s.odd != "" {
			return errors.New(s.odd)
		}
		if len(s.terms) > 1 || len(s.finals) > 1 {
			return fmt.Errorf("the %s ends more than once: %q %v", s.dir, s.terms, s.finals)
		}
	}
	if out.cancelled {
		if len(out.finals) != 1 && exact {
			return fmt.Errorf("it is cancelled and ends with %q %v", out.terms, out.finals)
		}
		if out.frozen >= 0 && len(out.items) > out.frozen {
			return fmt.Errorf("%d items arrive after it was cancelled", len(out.items)-out.frozen)
		}
		if out.frozen < 0 {
			out.frozen = len(out.items)
		}
		if len(out.finals) == 1 && out.finals[0] == rx.SignalCancel && c.sentReq > 0 && exact {
			if c.cancelTx == 0 {
				return fmt.Errorf("the peer is not told that it was cancelled")
			}
			if c.out.running() && c.spec.Op >= 0 && !c.spec.Echo {
				return fmt.Errorf("the peer was told that it was cancelled, but its source was not stopped")
			}
			if c.cancelRx > 0 {
				c.stopped = true
			}
		}
	}
	if c.sentAfter > 0 {
		return fmt.Errorf("the peer sends %d more frames after it was told of the cancellation", c.sentAfter)
	}
	if in.cancelled && exact && c.invokedNow() && !out.cancelled && c.gotReq > 0 {
		if c.in.running() {
			return fmt.Errorf("the responder has cancelled the input, but its source was not stopped")
		}
	}
	return nil
}

// do carries out one step. It returns false if the step does not apply.
func (s *session) do(o SOp) bool {
	if o.Op == "deliver" {
		if !s.spec.Step {
			return false
		}
		l := s.links[o.Call%len(s.links)]
		any := false
		for i := 0; i < max(1, o.N/2); i++ {
			any = l.deliver(o.N%2) || any
		}
		return any
	}
	if o.Op == "attack" {
		s.attack(o.Attack)
		return true
	}
	c := s.calls[o.Call%len(s.calls)]
	if !c.started {
		c.start()
		return true
	}
	switch o.Op {
	case "settle":
		return c.settle()
	case "push":
		return c.out.push()
	case "pushin":
		return c.in.push()
	case "req":
		if c.reqFlux == nil || c.sub.want.Policy != "manual" {
			return false
		}
		if sub := c.sub.sub(); sub != nil {
			if c.over() {
				sub.Request(o.N)
			} else {
				c.sub.request(sub, o.N)
			}
			return true
		}
	case "reqin":
		c.mu.Lock()
		in := c.inFlux
		c.mu.Unlock()
		if in == nil || c.insub.want.Policy != "manual" {
			return false
		}
		if sub := in.Subscription(); sub != nil {
			c.insub.request(sub, o.N)
			return true
		}
	case "cancel":
		if c.reqFlux == nil {
			return false
		}
		if sub := c.sub.sub(); sub != nil {
			c.sub.mu.Lock()
			if !c.sub.ended() {
				c.sub.cancelled = true
			}
			c.sub.mu.Unlock()
			sub.Cancel()
			return true
		}
	case "cancelin":
		c.mu.Lock()
		in := c.inFlux
		c.mu.Unlock()
		if in == nil || c.spec.InWant.Policy == "never" {
			return false
		}
		if sub := in.Subscription(); sub != nil {
			c.insub.mu.Lock()
			if !c.insub.ended() {
				c.insub.cancelled = true
			}
			c.insub.mu.Unlock()
			sub.Cancel()
			return true
		}
	case "late":
		return s.late(c, o.N)
	}
	return false
}

// late injects frames for a call that has ended for its requester.
func (s *session) late(c *call, n int) bool {
	if s.spec.TCP || !c.over() || c.spec.Kind == kFNF || c.id == 0 {
		return false
	}
	f := rs.Frame{ID: c.id, Type: rs.TPayload, Data: []byte("late"), Next: true}
	switch n % 5 {
	case 1:
		f = rs.Frame{ID: c.id, Type: rs.TPayload, Complete: true}
	case 2:
		f = rs.Frame{ID: c.id, Type: rs.TError, Data: []byte("late")}
	case 3:
		f = rs.Frame{ID: c.id, Type: rs.TPayload, Data: []byte("late"), Next: true, Complete: true}
	case 4:
		f = rs.Frame{ID: c.id, Type: rs.TPayload, HasMetadata: true, Metadata: []byte("m"), Next: true}
	}
	s.lates++
	s.links[c.spec.Link].inject(c.spec.Side, f)
	return true
}

// attack injects a frame that no well-behaved peer sends.
func (s *session) attack(a *Attack) {
	s.attacks++
	if s.spec.TCP {
		s.attackTCP(a)
		return
	}
	l := s.links[a.Link%len(s.links)]
	l.inject(a.Side, s.attackFrame(a))
}

func (s *session) attackFrame(a *Attack) rs.Frame {
	f := rs.Frame{ID: a.ID, Type: a.Type, Data: a.Data.Bytes(), N: a.N, Next: a.Next, Complete: a.Complete, Follows: a.Follows}
	if a.Ended {
		for _, c := range s.calls {
			// The id of a call that is over, for a side that has nothing to
			// do with it any more.
			if c.spec.Link == a.Link%len(s.links) && c.started && c.id != 0 && c.over() && c.spec.Kind != kChan {
				f.ID = c.id
				break
			}
		}
	}
	switch a.Type {
	case rs.TRequestResponse, rs.TRequestFNF, rs.TRequestStream, rs.TRequestChannel:
		id := uint32(1<<20 + 77)
		if a.Op >= 0 {
			id = opIDs[a.Type-rs.TRequestResponse][a.Op]
		}
		md := opMeta(id, nil)
		if a.ShortMeta >= 0 {
			md = md[:min(a.ShortMeta, len(md))]
		}
		f.HasMetadata = len(md) > 0
		f.Metadata = md
	case rs.TCancel:
		f.Data = nil
	case rs.TRequestN:
		f.Data = nil
	case rs.TPayload:
		if a.ShortMeta >= 0 {
			f.HasMetadata, f.Metadata = true, bytes.Repeat([]byte{7}, a.ShortMeta)
		}
	}
	return f
}

// run carries out the schedule and brings everything to its end.
func (s *session) run(ctx *kit.Ctx) (done bool, err error) {
	quiet := func(when string, exact bool) (bool, error) {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			ctx.Inconclusive("%v", err)
			return false, nil
		}
		err := s.verify(when, exact)
		return err == nil, err
	}
	for i, o := range s.spec.Ops {
		if !s.do(o) {
			continue
		}
		ctx.Label("op %s", o.Op)
		if o.NoWait {
			continue
		}
		if ok, err := quiet(fmt.Sprintf("step %d (%s %d)", i, o.Op, o.Call), !s.spec.Step); !ok {
			return false, err
		}
	}
	if ok, err := s.finish(ctx); !ok {
		return false, err
	}
	return true, nil
}

func (s *session) settleAll(ctx *kit.Ctx, when string) (bool, error) {
	if err := s.flush(); err != nil {
		ctx.Inconclusive("%v", err)
		return false, nil
	}
	err := s.verify(when, true)
	if err == nil {
		err = s.verifyRaw()
	}
	return err == nil, err
}

// finish starts what has not started and lets every call come to its end.
func (s *session) finish(ctx *kit.Ctx) (bool, error) {
	for _, c := range s.calls {
		c.start()
	}
	if ok, err := s.settleAll(ctx, "all frames delivered"); !ok {
		return false, err
	}
	for _, c := range s.calls {
		c.settle()
		for _, p := range []*prodRun{c.in, c.out} {
			for range p.items {
				p.mu.Lock()
				more := p.spec.Kind == "push" && !p.done && p.next < len(p.items)
				p.mu.Unlock()
				if !more || !p.push() {
					break
				}
			}
		}
	}
	if ok, err := s.settleAll(ctx, "everything produced"); !ok {
		return false, err
	}
	if s.spec.Starve {
		return true, nil
	}
	for _, c := range s.calls {
		if c.reqFlux == nil {
			continue
		}
		if c.sub.want.Policy == "manual" && !c.over() {
			if sub := c.sub.sub(); sub != nil {
				c.sub.request(sub, 1000)
			}
		}
	}
	if ok, err := s.settleAll(ctx, "all demand stated"); !ok {
		return false, err
	}
	for _, c := range s.calls {
		c.mu.Lock()
		in := c.inFlux
		c.mu.Unlock()
		if in != nil && c.insub.want.Policy == "manual" {
			if sub := in.Subscription(); sub != nil {
				c.insub.request(sub, 1000)
			}
		}
	}
	if ok, err := s.settleAll(ctx, "all input asked for"); !ok {
		return false, err
	}
	for _, c := range s.calls {
		for _, p := range []*prodRun{c.in, c.out} {
			for k := 0; k <= len(p.items); k++ {
				p.mu.Lock()
				more := p.spec.Kind == "push" && !p.done
				p.mu.Unlock()
				if !more || !p.push() {
					break
				}
			}
		}
	}
	return s.settleAll(ctx, "everything ended")
}

// stop releases whoever still waits, so that no goroutine is left behind.
func (s *session) stop() {
	for _, c := range s.calls {
		if c.reqFlux != nil {
			if sub := c.reqFlux.Subscription(); sub != nil {
				sub.Cancel()
			}
		}
		c.settle()
	}
	s.flush()
	s.close()
	kit.Quiesce(quiesceLimit)
}
