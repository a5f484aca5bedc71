package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// The peer of one real endpoint is played frame by frame by the harness, on
// the streams of the running calls themselves. What the endpoint sends, and
// what its own callers and handlers see, is compared with a model after every
// step. A peer that breaks the rules of a stream forfeits what that stream
// promises, but not the other ones.

// PeerCall is a call between the endpoint and the played peer.
type PeerCall struct {
	Kind   int
	Theirs bool   // the peer makes it
	Bad    string // none, short, unknown: a request that cannot be served
	N      uint32 // initial demand of the peer's request
	In     int    // what the handler asks for of its input at once
}

// PeerStep is a step of one of them.
type PeerStep struct {
	Call  int
	Do    string
	N     uint32
	Hurry bool // the next step does not wait for the effects of this one
}

// PeerCase has an endpoint and a peer.
type PeerCase struct {
	Server bool
	Calls  []PeerCall
	Steps  []PeerStep
}

var (
	peerSteps  = []string{"next", "next", "next", "last", "complete", "error", "empty", "cancel", "request", "request"}
	localSteps = []string{"demand", "demand", "stop", "emit", "emit", "emit", "finish", "fail", "indemand", "indemand", "instop"}
)

func genPeers(kinds []int) func(t *rapid.T) PeerCase {
	return func(t *rapid.T) PeerCase {
		c := PeerCase{Server: rapid.Bool().Draw(t, "server")}
		n := rapid.SampledFrom([]uint32{1, 1, 1, 2, 3, 7, math.MaxInt32 - 1, math.MaxInt32})
		c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PeerCall {
			p := PeerCall{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Theirs: rapid.Bool().Draw(t, "theirs")}
			if p.Theirs {
				if rapid.IntRange(0, 9).Draw(t, "bad?") == 0 {
					p.Bad = rapid.SampledFrom([]string{"none", "short", "unknown"}).Draw(t, "bad")
				}
				p.N = n.Draw(t, "n")
				if rapid.IntRange(0, 5).Draw(t, "no demand") == 0 {
					p.N = 0
				}
				p.In = rapid.SampledFrom([]int{0, 1, 1, 2, 5, math.MaxInt32}).Draw(t, "in")
			}
			return p
		}), 1, 4).Draw(t, "calls")
		c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PeerStep {
			s := PeerStep{Call: rapid.IntRange(0, len(c.Calls)-1).Draw(t, "call")}
			if rapid.Bool().Draw(t, "by the peer") {
				s.Do = rapid.SampledFrom(peerSteps).Draw(t, "do")
				s.Hurry = rapid.IntRange(0, 2).Draw(t, "hurry") == 0
			} else {
				s.Do = rapid.SampledFrom(localSteps).Draw(t, "do")
			}
			s.N = n.Draw(t, "n")
			if s.Do == "request" && rapid.IntRange(0, 9).Draw(t, "none") == 0 {
				s.N = 0
			}
			return s
		}), 1, 30).Draw(t, "steps")
		return c
	}
}

// peerSrc is a source that the driver operates.
type peerSrc struct {
	mu        sync.Mutex
	sink      flux.Sink[payload.Payload]
	demand    int
	cancelled int
	badN      int
}

func (s *peerSrc) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.mu.Lock()
				defer s.mu.Unlock()
				if n < 0 {
					s.badN = n
					return
				}
				s.demand += n
			},
			Cancel: func() {
				s.mu.Lock()
				defer s.mu.Unlock()
				s.cancelled++
			},
		})
		s.mu.Lock()
		defer s.mu.Unlock()
		s.sink = sink
	})
}

func (s *peerSrc) get() (sink flux.Sink[payload.Payload], demand, cancelled int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.sink, s.demand, s.cancelled
}

// peerRun is a running PeerCall.
type peerRun struct {
	spec *PeerCall
	idx  int
	key  string
	id   uint32

	log   faultLog        // what the application sees of what the peer sends
	sub   rx.Subscription // of the application
	src   peerSrc         // what the application sends
	reply mono.Processor[payload.Payload]
	runs  int
	mu    sync.Mutex
	tx    []string // frames of the endpoint

	// The model.
	wantTx, wantEv []string
	begun          bool // the request was sent
	gone           bool // nothing more is said about it
	safe           bool // the peer has broken the rules of the stream
	rxDone         bool // what the peer sends has ended
	txDone         bool // what the endpoint sends has ended
	mayEnd         bool // the application may or may not be told the end
	mayValue       bool // a value without an end was sent in answer to a request/response
	demand         int  // of the peer, in all, for what the endpoint sends
	emitted        int
	rxDemand       int // of the application, for what the peer sends
	srcStopped     bool
	stopMaybe      bool
	sent           []string // items the peer has sent
	seq            int
}

var peerScripts sync.Map

var peerIDs [4]uint32

var peerOnce sync.Once

func exportPeers() {
	exportFaults()
	peerOnce.Do(func() {
		const ns, name = "peer", "op"
		find := func(p payload.Payload) *peerRun {
			v, ok := peerScripts.Load(string(p.Data()))
			if !ok {
				return nil
			}
			r := v.(*peerRun)
			r.mu.Lock()
			r.runs++
			r.mu.Unlock()
			return r
		}
		none := errors.New("no such call")
		invoke.ExportRequestResponse(ns, name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			if r := find(p); r != nil {
				return r.reply
			}
			return mono.Error[payload.Payload](none)
		})
		invoke.ExportFireAndForget(ns, name, func(ctx context.Context, p payload.Payload) { find(p) })
		invoke.ExportRequestStream(ns, name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			if r := find(p); r != nil {
				return r.src.flux()
			}
			return flux.Error[payload.Payload](none)
		})
		invoke.ExportRequestChannel(ns, name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			r := find(p)
			if r == nil {
				return flux.Error[payload.Payload](none)
			}
			in.Subscribe(r.subscriber(r.spec.In))
			return r.src.flux()
		})
		ops := invoke.GetOperations().Exported
		for kind, infos := range [][]invoke.HandlerInfo{ops.RequestResponse, ops.FireAndForget, ops.RequestStream, ops.RequestChannel} {
			for id, info := range infos {
				if info.Namespace == ns {
					peerIDs[kind] = uint32(id)
				}
			}
		}
	})
}

func (r *peerRun) subscriber(n int) flux.Subscribe[payload.Payload] {
	s := faultSub(&r.log, 0, 0, nil)
	s.OnRequest = func(sub rx.Subscription) {
		r.mu.Lock()
		first := r.sub == nil
		r.sub = sub
		r.mu.Unlock()
		if first && n > 0 {
			sub.Request(n)
		}
	}
	return s
}

func (r *peerRun) subscription() rx.Subscription {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sub
}

func describeTx(f rs.Frame) string {
	switch f.Type {
	case rs.TRequestResponse, rs.TRequestFNF:
		return fmt.Sprintf("request %d %s", f.Type, f.Data)
	case rs.TRequestStream, rs.TRequestChannel:
		return fmt.Sprintf("request %d %s, demand %d", f.Type, f.Data, f.N)
	case rs.TRequestN:
		return fmt.Sprintf("demand %d", f.N)
	case rs.TCancel:
		return "cancel"
	case rs.TError:
		return "error " + string(f.Data)
	case rs.TPayload:
		switch {
		case f.Next && f.Complete:
			return "last " + string(f.Data)
		case f.Next:
			return "next " + string(f.Data)
		case f.Complete:
			return "complete"
		}
	}
	return f.String()
}

// ends notes that the endpoint stops sending.
func (r *peerRun) ends() {
	if r.spec.Kind == kStream && !r.spec.Theirs || r.spec.Kind == kRR {
		return
	}
	if !r.txDone {
		r.srcStopped = true
	}
	r.txDone = true
}

// arrive is the model of a frame of the peer. It says whether the frame is one
// that the peer may send.
func (r *peerRun) arrive(s PeerStep, item string) {
	kind, theirs := r.spec.Kind, r.spec.Theirs
	if r.spec.Bad != "" || kind == kFNF {
		return // Ignored.
	}
	payloads := s.Do == "next" || s.Do == "last" || s.Do == "complete" || s.Do == "empty"
	if theirs && kind != kChan && (payloads || s.Do == "error") {
		if kind == kStream {
			r.safe = true
		}
		return // there is no input
	}
	switch s.Do {
	case "cancel":
		switch {
		case kind == kChan && !theirs:
			r.ends()
		case theirs && kind == kStream:
			r.ends()
		case theirs && kind == kChan:
			if r.txDone && !r.rxDone {
				r.safe = true // it has ended already
				return
			}
			r.ends()
			if !r.rxDone {
				r.rxDone = true
				r.wantEv = append(r.wantEv, "end", "finally")
			}
		default:
			r.safe = true
		}
	case "request":
		if theirs && kind == kRR {
			return
		}
		if !theirs && kind != kChan {
			r.safe = true
			return
		}
		r.demand += int(s.N)
	case "empty":
	case "next", "last":
		if kind != kRR {
			if r.rxDone {
				return
			}
			if r.rxDemand == 0 {
				r.safe = true
			}
			r.rxDemand--
			r.wantEv = append(r.wantEv, "next "+item)
		} else if !r.rxDone {
			if s.Do == "next" {
				if !r.mayValue {
					r.wantEv = append(r.wantEv, "next "+item, "complete", "finally")
				}
				r.mayValue = true
				return
			}
			if !r.mayValue {
				r.wantEv = append(r.wantEv, "next "+item, "complete", "finally")
			}
			r.mayValue, r.rxDone = false, true
			return
		}
		if s.Do == "next" {
			return
		}
		fallthrough
	case "complete":
		if r.rxDone {
			return
		}
		r.rxDone = true
		if kind == kRR {
			if !r.mayValue {
				r.wantEv = append(r.wantEv, "error *", "finally")
			}
			r.mayValue = false
			return
		}
		r.wantEv = append(r.wantEv, "complete", "finally")
	case "error":
		if r.rxDone {
			if kind == kChan && !r.txDone {
				r.safe = true // may end the other direction
			}
			return
		}
		r.rxDone = true
		if kind == kRR && r.mayValue {
			r.safe = true // value or error
			return
		}
		r.wantEv = append(r.wantEv, "error "+item, "finally")
		if kind == kChan {
			if theirs {
				r.safe = r.safe || !r.txDone // may end the output
			} else {
				r.ends()
			}
		}
	}
}

func (r *peerRun) frame(s PeerStep, item string) rs.Frame {
	f := rs.Frame{ID: r.id, Type: rs.TPayload}
	switch s.Do {
	case "next":
		f.Next, f.Data = true, []byte(item)
	case "last":
		f.Next, f.Complete, f.Data = true, true, []byte(item)
	case "complete":
		f.Complete = true
	case "error":
		f.Type, f.Code, f.Data = rs.TError, 0x201, []byte(item)
	case "cancel":
		f.Type = rs.TCancel
	case "request":
		f.Type, f.N = rs.TRequestN, s.N
	}
	return f
}

func checkPeers(ctx *kit.Ctx, c PeerCase) error {
	exportPeers()
	mode := handler.ClientMode
	if c.Server {
		mode = handler.ServerMode
	}
	h := handler.New(context.Background(), mode)
	var mu sync.Mutex
	byID := map[uint32]*peerRun{}
	byKey := map[string]*peerRun{}
	failure := ""
	h.SetFrameSender(func(f frames.Frame) error {
		b := make([]byte, f.Size())
		f.Encode(b)
		fr, err := rs.Decode(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			failure = fmt.Sprintf("the endpoint sends %x, which is no frame: %v", clipb(b), err)
			return nil
		}
		r := byID[fr.ID]
		if fr.Type >= rs.TRequestResponse && fr.Type <= rs.TRequestChannel {
			if r = byKey[string(fr.Data)]; r == nil || r.spec.Theirs || byID[fr.ID] != nil {
				failure = fmt.Sprintf("the endpoint sends an unexpected request: %v", fr)
				return nil
			}
			r.id = fr.ID
			byID[fr.ID] = r
		}
		if r == nil {
			failure = fmt.Sprintf("the endpoint sends a frame on a stream there is not: %v", fr)
			return nil
		}
		r.mu.Lock()
		r.tx = append(r.tx, describeTx(fr))
		r.mu.Unlock()
		return nil
	})
	var runs []*peerRun
	for i := range c.Calls {
		r := &peerRun{spec: &c.Calls[i], idx: i, key: fmt.Sprintf("p%011d", keySeq.Add(1)), reply: mono.NewProcessor[payload.Payload]()}
		runs = append(runs, r)
		byKey[r.key] = r
		peerScripts.Store(r.key, r)
	}
	defer func() {
		for _, r := range runs {
			peerScripts.Delete(r.key)
		}
	}()
	theirID := uint32(2)
	if c.Server {
		theirID = 1
	}
	arrive := func(f rs.Frame) error {
		fr, err := decodeFrame(f.Encode())
		if err != nil {
			return fmt.Errorf("a frame of the peer is not decoded: %v", err)
		}
		if err := h.HandleFrame(fr); err != nil {
			return fmt.Errorf("handling %v of the peer fails: %v", f, err)
		}
		return nil
	}
	types := [4]int{kRR: rs.TRequestResponse, kFNF: rs.TRequestFNF, kStream: rs.TRequestStream, kChan: rs.TRequestChannel}
	settle := func() (error, bool) {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err), false
		}
		mu.Lock()
		f := failure
		mu.Unlock()
		if f != "" {
			return errors.New(f), false
		}
		for _, r := range runs {
			if err := r.verify(); err != nil {
				who := "made by the endpoint"
				if r.spec.Theirs {
					who = "made by the peer"
				}
				return fmt.Errorf("%s %d %s: %w", kindName[r.spec.Kind], r.idx, who, err), false
			}
		}
		return nil, true
	}
	meta := func(kind int, bad string) []byte {
		id := peerIDs[kind]
		switch bad {
		case "none":
			return nil
		case "short":
			return binary.BigEndian.AppendUint32(nil, id)[:3]
		case "unknown":
			id = 1 << 30
		}
		return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, id), 0)
	}
	for _, r := range runs {
		s := r.spec
		if s.Theirs {
			r.id, r.begun = theirID, true
			theirID += 2
			mu.Lock()
			byID[r.id] = r
			mu.Unlock()
			r.demand = int(s.N)
			if s.Kind == kChan && s.In > 0 && s.Bad == "" {
				r.wantTx = append(r.wantTx, fmt.Sprintf("demand %d", s.In))
				r.rxDemand = s.In
			}
			if s.Bad != "" {
				r.wantTx = append(r.wantTx, "error *")
			}
			f := rs.Frame{Type: types[s.Kind], ID: r.id, Data: []byte(r.key), N: s.N, Metadata: meta(s.Kind, s.Bad)}
			f.HasMetadata = s.Bad != "none"
			if err := arrive(f); err != nil {
				return err
			}
		} else {
			p := payload.New([]byte(r.key), meta(s.Kind, ""))
			switch s.Kind {
			case kRR:
				h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(p payload.Payload) { r.log.add("next %s", p.Data()); r.log.add("complete") },
					OnError:   func(err error) { r.log.add("error %s", errText(err)) },
					Finally:   func(rx.SignalType) { r.log.add("finally") },
				})
			case kFNF:
				h.FireAndForget(context.Background(), p)
			case kStream:
				h.RequestStream(context.Background(), p).Subscribe(r.subscriber(0))
			case kChan:
				h.RequestChannel(context.Background(), p, r.src.flux()).Subscribe(r.subscriber(0))
			}
			if s.Kind == kRR || s.Kind == kFNF {
				r.begun = true
				r.wantTx = append(r.wantTx, fmt.Sprintf("request %d %s", types[s.Kind], r.key))
			}
		}
		if err, ok := settle(); !ok {
			return err
		}
	}
	did := 0
	for i, s := range c.Steps {
		r := runs[s.Call]
		k := r.spec
		isPeers := false
		for _, p := range peerSteps {
			isPeers = isPeers || p == s.Do
		}
		if isPeers {
			if !r.begun {
				continue
			}
			item := fmt.Sprintf("%d.%d", r.idx, r.seq)
			r.seq++
			if s.Do == "next" || s.Do == "last" {
				r.sent = append(r.sent, item)
			}
			if !r.safe {
				r.arrive(s, item)
			}
			if err := arrive(r.frame(s, item)); err != nil {
				return err
			}
			did++
			if s.Hurry && i+1 < len(c.Steps) {
				next := c.Steps[i+1]
				hurry := false
				for _, p := range peerSteps {
					hurry = hurry || p == next.Do
				}
				if hurry {
					continue
				}
			}
		} else if r.safe || k.Bad != "" || k.Kind == kFNF {
			continue
		} else if !r.local(s) {
			continue
		} else {
			did++
		}
		if err, ok := settle(); !ok {
			return err
		}
	}
	if err, ok := settle(); !ok {
		return err
	}
	for _, r := range runs {
		if r.safe {
			ctx.Label("rules broken")
		}
		who := "ours"
		if r.spec.Theirs {
			who = "theirs"
		}
		ctx.Label("%s %s", kindName[r.spec.Kind], who)
	}
	ctx.NonTrivialIf(did >= 3)
	return nil
}

// local makes the application do something and says whether it could.
func (r *peerRun) local(s PeerStep) bool {
	k := r.spec
	sends := k.Kind == kChan || k.Kind == kStream && k.Theirs
	receives := k.Kind == kChan || k.Kind == kStream && !k.Theirs
	switch s.Do {
	case "demand", "indemand":
		sub := r.subscription()
		if !receives || sub == nil || (s.Do == "demand") == k.Theirs {
			return false
		}
		n := int(s.N)
		if !r.rxDone {
			r.rxDemand += n
			if r.begun {
				r.wantTx = append(r.wantTx, fmt.Sprintf("demand %d", n))
			} else {
				r.begun = true
				t := rs.TRequestStream
				if k.Kind == kChan {
					t = rs.TRequestChannel
				}
				r.wantTx = append(r.wantTx, fmt.Sprintf("request %d %s, demand %d", t, r.key, n))
			}
		}
		sub.Request(n)
	case "stop", "instop":
		sub := r.subscription()
		if !receives || sub == nil || (s.Do == "stop") == k.Theirs {
			return false
		}
		if !r.rxDone {
			r.rxDone, r.mayEnd = true, true
			if r.begun {
				r.wantTx = append(r.wantTx, "cancel")
			}
			if !k.Theirs {
				r.ends()
			}
		}
		sub.Cancel()
	case "emit", "finish", "fail":
		item := fmt.Sprintf("%d:%d", r.idx, r.seq)
		r.seq++
		if k.Kind == kRR && k.Theirs {
			if r.txDone {
				return false
			}
			r.txDone = true
			if s.Do == "fail" {
				r.wantTx = append(r.wantTx, "error "+item)
				r.reply.Error(errors.New(item))
			} else {
				r.wantTx = append(r.wantTx, "last "+item)
				r.reply.Success(payload.New([]byte(item)))
			}
			return true
		}
		sink, _, _ := r.src.get()
		if !sends || !r.begun || r.txDone || sink == nil {
			return false
		}
		switch s.Do {
		case "emit":
			if r.emitted >= r.demand {
				return false
			}
			r.emitted++
			r.wantTx = append(r.wantTx, "next "+item)
			sink.Next(payload.New([]byte(item)))
		case "finish":
			r.txDone = true
			r.wantTx = append(r.wantTx, "complete")
			sink.Complete()
		case "fail":
			r.txDone = true
			r.wantTx = append(r.wantTx, "error "+item)
			if k.Theirs {
				if k.Kind == kChan && !r.rxDone {
					r.rxDone = true
					r.wantEv = append(r.wantEv, "end", "finally")
				}
			} else if !r.rxDone {
				r.safe = true // may end what the peer sends as well
			}
			sink.Error(errors.New(item))
		}
	}
	return true
}

// eventsMatch compares what is seen with what is expected: "end" is a
// completion or an error.
func eventsMatch(got, want []string, mayEnd bool) bool {
	for i, w := range want {
		if i >= len(got) {
			return false
		}
		g := got[i]
		if g == w || strings.HasSuffix(w, " *") && strings.HasPrefix(g, w[:len(w)-1]) ||
			w == "end" && (g == "complete" || strings.HasPrefix(g, "error ")) {
			continue
		}
		return false
	}
	rest := got[len(want):]
	if len(rest) == 0 {
		return true
	}
	if !mayEnd {
		return false
	}
	if rest[0] == "complete" || strings.HasPrefix(rest[0], "error ") {
		rest = rest[1:]
	}
	return len(rest) == 0 || len(rest) == 1 && rest[0] == "finally"
}

func (r *peerRun) verify() error {
	r.mu.Lock()
	tx := append([]string(nil), r.tx...)
	calls := r.runs
	r.mu.Unlock()
	got := r.log.get()
	if r.spec.Theirs && r.begun {
		want := 1
		if r.spec.Bad != "" {
			want = 0
		}
		if calls != want {
			return fmt.Errorf("its handler has run %d times, want %d", calls, want)
		}
	}
	if r.safe {
		// At most one end, nothing behind it, no item twice or out of order.
		k := 0
		for i, e := range got {
			switch {
			case strings.HasPrefix(e, "next "):
				for k < len(r.sent) && "next "+r.sent[k] != e {
					k++
				}
				if k == len(r.sent) {
					return fmt.Errorf("the peer sent %q, the application sees %q", r.sent, got)
				}
				k++
			case e == "finally" && i+1 < len(got), e != "finally" && i+2 < len(got):
				return fmt.Errorf("the application sees %q", got)
			}
		}
		return nil
	}
	if len(tx) > 0 && r.spec.Kind == kFNF && r.spec.Theirs {
		if r.spec.Bad == "" {
			return fmt.Errorf("it is answered: %q", tx)
		}
		tx = r.wantTx
	}
	if r.spec.Kind == kFNF && r.spec.Bad != "" {
		return nil
	}
	if !eventsMatch(tx, r.wantTx, false) {
		return fmt.Errorf("the endpoint sends %q, want %q", tx, r.wantTx)
	}
	if !eventsMatch(got, r.wantEv, r.mayEnd) {
		return fmt.Errorf("the application sees %q, want %q", got, r.wantEv)
	}
	sink, demand, cancelled := r.src.get()
	if r.src.badN != 0 {
		return fmt.Errorf("its source is asked for %d items", r.src.badN)
	}
	if sink == nil {
		return nil
	}
	if !r.txDone && cancelled > 0 {
		return fmt.Errorf("its source is stopped while it is running")
	}
	if r.srcStopped && cancelled == 0 {
		return fmt.Errorf("its source is not stopped")
	}
	// Demand without bounds may be cut down to the most there can be.
	if !r.txDone && demand != r.demand && (demand < rx.RequestMax || demand > r.demand) {
		return fmt.Errorf("its source is asked for %d items, the peer asked for %d", demand, r.demand)
	}
	return nil
}
