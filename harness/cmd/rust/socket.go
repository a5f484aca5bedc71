package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// SockCall is a call and what its handler is asked to do.
type SockCall struct {
	Side, Kind int
	Items      int // the handler sends
	End        int // 0: completes, 1: fails, 2: goes on until it is cancelled
	Mode       int
	K, Pause   int
	MD, Pad    int // bytes of metadata, further bytes of data
}

// SockStep is one step of the script. Call counts the calls there are back
// from the newest.
type SockStep struct {
	Op      string
	Side    int
	Call, N int
	Frame   FrameCase
}

// SockCase is calls between two endpoints. A scripted case says when frames
// are taken from one to the other, when callers push, and when they lose
// interest; otherwise the runtime's threads do as they please.
type SockCase struct {
	Free  bool
	Calls []SockCall
	Steps []SockStep
}

type driverStep struct {
	Op    string  `json:"op"`
	Side  int     `json:"side"`
	Call  int     `json:"call"`
	Kind  int     `json:"kind"`
	N     int     `json:"n"`
	Data  hexed   `json:"data"`
	MD    hexed   `json:"md"`
	Frame rsFrame `json:"frame"`
}

// ask is the data of call i: what the handler is to do, then padding.
func (c SockCall) ask(i int) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(i))
	b = binary.BigEndian.AppendUint16(b, uint16(c.Items))
	b = append(b, byte(c.End), byte(c.Mode), byte(c.K), byte(c.Pause))
	return append(b, bytes.Repeat([]byte{byte(i) + 1}, c.Pad)...)
}

func (c SockCall) md(i int) []byte { return bytes.Repeat([]byte{byte(i) + 0x40}, c.MD) }

// item is what the handler of call i sends.
func (c SockCall) item(i, n int) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(i))
	b = binary.BigEndian.AppendUint16(b, uint16(n))
	for len(b) < 6+n*7%40 {
		b = append(b, byte(c.K))
	}
	return b
}

// input is item n a caller pushes to the input of call i.
func (c SockCall) input(i, n int) []byte {
	if n == 0 {
		return c.ask(i)
	}
	b := binary.BigEndian.AppendUint32(nil, uint32(i)|1<<31)
	b = binary.BigEndian.AppendUint16(b, uint16(n))
	return append(b, bytes.Repeat([]byte{byte(n)}, (c.Pad+n*3)%50)...)
}

// callState is what becomes of a call in the script.
type callState struct {
	SockCall
	pushes   int
	finish   int // 0: with the script, 1: fails, 2: completes
	finished bool
	dropped  bool
}

type sockEvent struct {
	What string
	Data hexed
}

type invocation struct {
	Side, Kind int
	MD, Data   hexed
	Events     []sockEvent
}

type sockAnswer struct {
	Calls   [][]sockEvent
	Handled []invocation
	Trace   []struct {
		Side  int
		Frame rsFrame
	}
}

// script turns the case into the driver's steps.
func (c SockCase) script() (steps []driverStep, calls []*callState, injected []SockStep, closed bool) {
	started := 0
	for i := range c.Calls {
		calls = append(calls, &callState{SockCall: c.Calls[i]})
	}
	// A handler that goes on forever needs a caller that loses interest.
	drops := map[int]bool{}
	live := 0
	for _, s := range c.Steps {
		switch {
		case s.Op == "call" && live < len(calls):
			live++
		case s.Op == "drop" && live > 0:
			drops[live-1-s.Call%live] = true
		}
	}
	forever := false
	for i, k := range calls {
		if k.End == 2 && (c.Free || !drops[i] || k.Kind < rs.TRequestStream || k.Kind == rs.TRequestChannel && k.Mode == 0) {
			k.End = 0
		}
		forever = forever || k.End == 2
	}
	push := func(i int) {
		k := calls[i]
		if k.Kind != rs.TRequestChannel || k.finished || k.dropped {
			return
		}
		steps = append(steps, driverStep{Op: "push", Call: i, Data: k.input(i, k.pushes)})
		k.pushes++
	}
	call := func() {
		k := calls[started]
		s := driverStep{Op: "call", Side: k.Side, Kind: k.Kind, MD: k.md(started)}
		if k.Kind != rs.TRequestChannel {
			s.Data = k.ask(started)
		}
		steps = append(steps, s)
		started++
	}
	for _, s := range c.Steps {
		i := -1
		if started > 0 {
			i = started - 1 - s.Call%started
		}
		switch s.Op {
		case "call":
			if started < len(calls) {
				call()
			}
		case "push":
			for n := 0; n < s.N && i >= 0; n++ {
				push(i)
			}
		case "finish":
			if i >= 0 && calls[i].Kind == rs.TRequestChannel && !calls[i].finished && !c.Free {
				calls[i].finished = true
				calls[i].finish = 1 + s.N&1
				steps = append(steps, driverStep{Op: "finish", Call: i, N: calls[i].finish})
			}
		case "drop":
			if i >= 0 && !calls[i].dropped && !c.Free {
				calls[i].dropped = true
				steps = append(steps, driverStep{Op: "drop", Call: i})
			}
		case "settle":
			if forever {
				steps = append(steps, driverStep{Op: "yield", N: 10})
			} else {
				steps = append(steps, driverStep{Op: "settle"})
			}
		case "close":
			closed = true
			steps = append(steps, driverStep{Op: "close", Side: s.Side})
		case "inject":
			injected = append(injected, s)
			f := toRust(s.Frame.ref())
			steps = append(steps, driverStep{Op: "inject", Side: s.Side, Frame: f})
		default:
			steps = append(steps, driverStep{Op: s.Op, Side: s.Side, N: s.N})
		}
	}
	for started < len(calls) {
		call()
	}
	return
}

// expected is what the caller of call i is to see: every run of events it may
// see begins like this one.
func (k *callState) expected(i int) (out []sockEvent) {
	fails := sockEvent{"fails", []byte(fmt.Sprintf("error %d", i))}
	switch k.Kind {
	case rs.TRequestFNF:
		return []sockEvent{{What: "completes"}}
	case rs.TRequestResponse:
		if k.End == 1 {
			return []sockEvent{fails}
		}
		return []sockEvent{{"item", k.ask(i)}}
	case rs.TRequestChannel:
		if k.pushes == 0 {
			return []sockEvent{{What: "completes"}}
		}
		if k.Mode == 0 {
			for n := 0; n < k.pushes; n++ {
				out = append(out, sockEvent{"item", k.input(i, n)})
			}
			break
		}
		fallthrough
	default:
		for n := 0; n < k.Items; n++ {
			out = append(out, sockEvent{"item", k.item(i, n)})
		}
	}
	if k.End == 1 {
		out = append(out, fails)
	}
	return append(out, sockEvent{What: "completes"})
}

func (e sockEvent) String() string {
	if e.What == "fails" {
		return fmt.Sprintf("fails(%q)", []byte(e.Data))
	}
	return fmt.Sprintf("%s(%x)", e.What, clip(e.Data))
}

// judge compares what the caller of call i sees with what it is to see.
func (k *callState) judge(i int, got []sockEvent) error {
	if k.Kind == rs.TRequestChannel && k.pushes == 0 && k.finish == 1 && len(got) > 0 && got[0].What == "fails" {
		got = got[1:] // the failure of the input may be handed on
	}
	want := k.expected(i)
	if k.End == 2 && (k.Kind == rs.TRequestStream || k.pushes > 0) {
		for n := k.Items; n <= len(got); n++ {
			want = append(want[:n:n], sockEvent{"item", k.item(i, n)})
		}
	}
	for n, e := range got {
		if n >= len(want) {
			return fmt.Errorf("the caller sees %v after all of %d events", e, len(want))
		}
		if e.What != want[n].What || !bytes.Equal(e.Data, want[n].Data) {
			return fmt.Errorf("event %d at the caller is %v, expected %v", n, e, want[n])
		}
	}
	missing := want[len(got):]
	if len(missing) == 1 && len(got) > 0 && got[len(got)-1].What == "fails" {
		missing = nil // nothing needs to follow an error
	}
	if len(missing) > 0 && !k.dropped {
		return fmt.Errorf("the caller sees %d of %d events, %v is missing", len(got), len(want), missing[0])
	}
	return nil
}

// judgeHandler compares what the handler of call i sees of its input with
// what the caller pushes.
func (k *callState) judgeHandler(i int, h invocation, free bool) error {
	var heard []sockEvent
	last := ""
	for _, e := range h.Events {
		switch e.What {
		case "item", "fails", "completes":
			heard = append(heard, e)
		default:
			last = e.What
		}
		if e.What == "never cancelled" {
			return fmt.Errorf("the handler is never told that its caller has lost interest")
		}
	}
	if k.End == 2 && last != "cancelled" && k.Kind == rs.TRequestStream {
		return fmt.Errorf("the handler sends forever, but has not been cancelled")
	}
	if k.Kind != rs.TRequestChannel {
		if len(heard) > 0 {
			return fmt.Errorf("the handler hears %v", heard[0])
		}
		return nil
	}
	var want []sockEvent
	for n := 1; n < k.pushes; n++ {
		want = append(want, sockEvent{"item", k.input(i, n)})
	}
	if k.finish == 1 {
		want = append(want, sockEvent{"fails", nil})
	} else {
		want = append(want, sockEvent{What: "completes"})
	}
	if k.Mode == 2 {
		want = want[:min(k.K, len(want))]
	}
	all := !free && !k.dropped && !(k.Mode == 1 && k.End == 1)
	for n, e := range heard {
		if n < len(want) && e.What == want[n].What && (e.What == "fails" || bytes.Equal(e.Data, want[n].Data)) {
			continue
		}
		if !all && n == len(heard)-1 && e.What != "item" {
			return nil // the call has ended before
		}
		if n >= len(want) {
			return fmt.Errorf("the handler hears %v after all of %d items", e, len(want))
		}
		return fmt.Errorf("event %d of the input at the handler is %v, expected %v", n, e, want[n])
	}
	if len(heard) < len(want) && all {
		return fmt.Errorf("the handler hears %d of %d events of its input, %v is missing", len(heard), len(want), want[len(heard)])
	}
	return nil
}

const roguesFrom = 1 << 20 // stream ids no call of a case gets to

func checkSock(ctx *kit.Ctx, c SockCase) error {
	steps, calls, injected, closed := c.script()
	var a sockAnswer
	if _, err := ask("socket", map[string]any{"steps": steps, "single": !c.Free}, &a); err != nil {
		return fmt.Errorf("%d calls: %v", len(calls), err)
	}
	ctx.NonTrivialIf(len(calls) > 1)
	if closed {
		ctx.Label("closed")
		return nil
	}
	// Which call a stream is for: its request says.
	ids := map[uint32]int{}
	known := map[int]bool{}
	for _, t := range a.Trace {
		f := t.Frame
		if t.Side == 9 {
			return fmt.Errorf("a call does not end")
		}
		if f.Kind > rs.TRequestChannel || len(f.Data) < 4 {
			continue
		}
		i := int(binary.BigEndian.Uint32(f.Data))
		if i >= len(calls) {
			return fmt.Errorf("a request for call %#x, which there is not", i)
		}
		if j, ok := ids[f.ID]; ok {
			return fmt.Errorf("calls %d and %d have the same stream id %d", i, j, f.ID)
		}
		if known[i] {
			return fmt.Errorf("call %d is requested twice", i)
		}
		k := calls[i]
		if t.Side != k.Side || f.Kind != k.Kind {
			return fmt.Errorf("call %d of side %d and type %d is requested by side %d as type %d", i, k.Side, k.Kind, t.Side, f.Kind)
		}
		if int(f.ID&1) == k.Side {
			return fmt.Errorf("side %d makes stream %d, an id of the other side", k.Side, f.ID)
		}
		if f.Kind >= rs.TRequestStream && (f.N == 0 || f.N > 1<<31-1) {
			return fmt.Errorf("call %d requests %d items", i, f.N)
		}
		ids[f.ID], known[i] = i, true
	}
	disturbed := map[int]bool{}
	rogues := map[int]bool{}
	for _, s := range injected {
		ctx.Label("stray-%d", s.Frame.Type)
		if s.Frame.ID >= roguesFrom {
			if s.Frame.Type <= rs.TRequestChannel {
				rogues[s.Frame.Type] = true
			}
			continue
		}
		if i, ok := ids[s.Frame.ID]; ok {
			disturbed[i] = true
			continue
		}
		for i := range calls {
			if !known[i] {
				disturbed[i] = true
			}
		}
	}
	// No direction of a stream goes on after its end.
	type end struct {
		side int
		id   uint32
	}
	ended := map[end]string{}
	cancels := map[end]int{}
	for n, t := range a.Trace {
		f := t.Frame
		i, ok := ids[f.ID]
		if !ok || disturbed[i] {
			continue
		}
		e := end{t.Side, f.ID}
		switch {
		case f.Kind == rs.TCancel:
			cancels[e]++
			if cancels[e] > 1 {
				return fmt.Errorf("call %d: side %d cancels twice", i, t.Side)
			}
			if t.Side == calls[i].Side {
				ended[e] = "its cancellation"
			}
		case f.Kind == rs.TPayload || f.Kind == rs.TError:
			if by := ended[e]; by != "" {
				return fmt.Errorf("call %d: frame %d, %v of side %d, follows %s", i, n, f, t.Side, by)
			}
			if f.Kind == rs.TError {
				ended[e] = "an error"
			} else if f.Complete {
				ended[e] = "completion"
			}
		}
	}
	invoked := map[int][]invocation{}
	for _, h := range a.Handled {
		if rogues[h.Kind] && (len(h.Data) < 4 || int(binary.BigEndian.Uint32(h.Data)) >= len(calls)) {
			continue
		}
		i := len(calls)
		if len(h.Data) >= 4 {
			i = int(binary.BigEndian.Uint32(h.Data))
		}
		if i >= len(calls) {
			if len(disturbed) > 0 {
				continue
			}
			return fmt.Errorf("a handler of type %d is invoked with %x, which no call sent", h.Kind, clip(h.Data))
		}
		invoked[i] = append(invoked[i], h)
	}
	for i, k := range calls {
		ctx.Label("type-%d", k.Kind)
		if disturbed[i] {
			ctx.Label("disturbed")
			continue
		}
		if k.dropped {
			ctx.Label("dropped")
		}
		if err := k.judge(i, a.Calls[i]); err != nil {
			return fmt.Errorf("call %d (%+v, %d items pushed): %v", i, k.SockCall, k.pushes, err)
		}
		n := len(invoked[i])
		switch {
		case n > 1:
			return fmt.Errorf("call %d (%+v) invokes its handler %d times", i, k.SockCall, n)
		case n == 0 && k.Kind == rs.TRequestChannel && (k.pushes == 0 || k.dropped):
			continue
		case n == 0 && c.Free && k.Kind == rs.TRequestFNF:
			continue // it may still be under way
		case n == 0:
			return fmt.Errorf("call %d (%+v) does not invoke its handler", i, k.SockCall)
		}
		h := invoked[i][0]
		if h.Side == k.Side || h.Kind != k.Kind || !bytes.Equal(h.Data, k.ask(i)) || !bytes.Equal(h.MD, k.md(i)) {
			return fmt.Errorf("call %d (%+v): the handler of side %d for type %d is invoked with metadata %x, data %x", i, k.SockCall, h.Side, h.Kind, clip(h.MD), clip(h.Data))
		}
		if err := k.judgeHandler(i, h, c.Free); err != nil {
			return fmt.Errorf("call %d (%+v, %d items pushed): %v", i, k.SockCall, k.pushes, err)
		}
	}
	return nil
}

func genCall(t *rapid.T) SockCall {
	return SockCall{
		Side:  rapid.IntRange(0, 1).Draw(t, "side"),
		Kind:  rapid.SampledFrom([]int{rs.TRequestResponse, rs.TRequestFNF, rs.TRequestStream, rs.TRequestStream, rs.TRequestChannel, rs.TRequestChannel, rs.TRequestChannel}).Draw(t, "kind"),
		Items: rapid.IntRange(0, 12).Draw(t, "items"),
		End:   rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "end"),
		Mode:  rapid.IntRange(0, 3).Draw(t, "mode"),
		K:     rapid.IntRange(0, 4).Draw(t, "k"),
		Pause: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "pause"),
		MD:    rapid.SampledFrom([]int{0, 8, 8, 8, 300}).Draw(t, "md"),
		Pad:   rapid.SampledFrom([]int{0, 0, 1, 20, 300, 70000}).Draw(t, "pad"),
	}
}

var sockOps = []string{"yield", "call", "call", "push", "push", "push", "push", "finish", "drop", "deliver", "deliver", "deliver", "deliver", "yield", "yield", "settle"}

func genSock(ops []string, extra string) func(*rapid.T) SockCase {
	return func(t *rapid.T) SockCase {
		step := rapid.Custom(func(t *rapid.T) SockStep {
			s := SockStep{Op: rapid.SampledFrom(ops).Draw(t, "op"), Side: rapid.IntRange(0, 1).Draw(t, "side"), Call: max(rapid.IntRange(-3, 5).Draw(t, "call"), 0), N: rapid.IntRange(1, 5).Draw(t, "n")}
			if s.Op == "inject" {
				s.Frame = genFrame(smallBlob)(t)
				f := &s.Frame
				f.MD.Rep %= 20
				if rapid.Bool().Draw(t, "live") && f.Type >= rs.TRequestN {
					f.ID = uint32(rapid.IntRange(0, 12).Draw(t, "live-id"))
				} else {
					f.ID = roguesFrom + f.ID&0xffff<<1 | uint32(s.Side)
					if f.Type <= rs.TRequestChannel {
						// The peer makes streams with ids of its own.
						f.Data = gen.Blob{Head: append([]byte{0xff, 0xff, 0, 0, 0, byte(s.N), 0, byte(s.N & 3)}, f.Data.Head...)}
					}
				}
			}
			return s
		})
		c := SockCase{Calls: rapid.SliceOfN(rapid.Custom(genCall), 1, 8).Draw(t, "calls")}
		c.Steps = rapid.SliceOfN(step, rapid.SampledFrom([]int{0, 10, 30}).Draw(t, "least"), 50).Draw(t, "steps")
		if extra != "" {
			i := rapid.IntRange(0, len(c.Steps)).Draw(t, "at")
			c.Steps = append(c.Steps[:i:i], append([]SockStep{{Op: extra, Side: rapid.IntRange(0, 1).Draw(t, "closed")}}, c.Steps[i:]...)...)
		}
		return c
	}
}

func genFree(t *rapid.T) SockCase {
	c := SockCase{Free: true, Calls: rapid.SliceOfN(rapid.Custom(genCall), 1, 24).Draw(t, "calls")}
	for i := range c.Calls {
		c.Steps = append(c.Steps, SockStep{Op: "call"})
		if c.Calls[i].Kind == rs.TRequestChannel {
			c.Steps = append(c.Steps, SockStep{Op: "push", N: rapid.IntRange(0, 12).Draw(t, "pushes")})
		}
	}
	return c
}

var X05 = &kit.Property{
	ID:   "X05",
	Rule: "a case is calls of all kinds in both directions between two sockets, with a script of what happens when (deliveries of frames, pushes, ends of inputs, callers that lose interest, stray frames), or left to the threads of the runtime; non-trivial when there is more than one call",
	Assumptions: []string{
		"requests are one frame each and streams have ids their maker may use, each once",
		"a caller that loses interest in a request/response is not told about to its handler: there is no frame for it in the Rust side",
		"calls whose stream a stray frame names are not judged, nor are calls after a side's frames are no longer taken; nothing may panic",
	},
	Facets: []kit.Facet{
		kit.F("script", 12000, 200000, genSock(sockOps, ""), checkSock).WithBatch(1000).WithList("Steps"),
		kit.F("stray", 6000, 100000, genSock(append([]string{"inject", "inject", "inject", "inject"}, sockOps...), ""), checkSock).WithBatch(500).WithList("Steps"),
		kit.F("close", 1500, 20000, genSock(sockOps, "close"), checkSock).WithBatch(250),
		kit.F("free", 3000, 50000, genFree, checkSock).WithBatch(250),
	},
}
