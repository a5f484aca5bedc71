package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// CallSpec is a call one side makes, several times.
type CallSpec struct {
	play.Call
	From  int // 0: the host, 1: the guest
	Times int
	Edge  int // the request's frame is so much larger than what fits (0: as it is; 1000: exactly fits)
}

// Step is one step of the driver.
type Step struct {
	Do     string // go, settle, push, pushin, req, reqin, cancel, cancelin
	Call   int
	N      int
	NoWait bool
}

// Calls is a case.
type Calls struct {
	Calls []CallSpec
	Steps []Step
	Renew int // how often the host's handlers are set anew while calls are made
}

// frameLen is the encoded size of a frame.
func frameLen(kind int, data, meta int) int {
	f := rs.Frame{ID: 1, Type: rs.TPayload, Data: make([]byte, data), Next: true, N: 1}
	switch kind {
	case play.RR:
		f.Type = rs.TRequestResponse
	case play.FNF:
		f.Type = rs.TRequestFNF
	case play.Stream:
		f.Type = rs.TRequestStream
	case play.Channel:
		f.Type = rs.TRequestChannel
	}
	if meta > 0 {
		f.HasMetadata, f.Metadata = true, make([]byte, meta)
	}
	return len(f.Encode())
}

func fits(n int) bool { return n+3 <= bufSize }

func requestLen(c *play.Call) int { return frameLen(c.Kind, len(c.Data()), 8+c.Meta.N) }

func itemFits(p *play.Prod, key uint32, i int) bool {
	d, m := p.Item(key, i)
	return fits(frameLen(-1, len(d), len(m)))
}

// edge pads a request so that its frame is off bytes larger than what fits.
func edge(c *play.Call, off int) {
	for i := 0; i < 6; i++ {
		c.Pad.N = max(0, c.Pad.N+bufSize-3+off-requestLen(c))
	}
}

// --- generators ---

type profile struct {
	from    []int
	kinds   []int
	maxCall int
	relay   bool
	burst   bool
	edges   bool
	hurry   bool
	long    bool
	renew   bool
}

func genBlob(t *rapid.T, p profile) play.Blob {
	switch rapid.IntRange(0, 9).Draw(t, "blob") {
	case 0:
		if p.edges {
			return play.Blob{N: bufSize - 3 - rapid.IntRange(-2, 40).Draw(t, "short of"), F: 5}
		}
		return play.Blob{N: rapid.SampledFrom([]int{255, 256, 1000, 4000, 8000}).Draw(t, "size"), F: 9}
	case 1, 2:
		return play.Blob{}
	case 3:
		return play.Blob{N: rapid.IntRange(0, 600).Draw(t, "size"), F: 1}
	}
	return play.Blob{N: rapid.IntRange(0, 20).Draw(t, "size"), F: rapid.Byte().Draw(t, "fill")}
}

// genErrPad makes some errors as long as a frame can be, or longer.
func genErrPad(t *rapid.T, p profile) int {
	if !p.edges || rapid.IntRange(0, 2).Draw(t, "long error") > 0 {
		return 0
	}
	return bufSize - rapid.IntRange(-10, 50).Draw(t, "error short of")
}

func genProd(t *rapid.T, p profile) play.Prod {
	r := play.Prod{Kind: rapid.SampledFrom([]string{"slice", "slice", "resp", "ondemand", "ondemand", "push", "push", "map", "error"}).Draw(t, "source")}
	if r.Kind == "error" {
		r.ErrPad = genErrPad(t, p)
		return r
	}
	n := rapid.IntRange(0, 5).Draw(t, "items")
	for i := 0; i < n; i++ {
		r.Items = append(r.Items, genBlob(t, p))
	}
	if p.long && rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		r.Many = rapid.SampledFrom([]int{20, 99, 120, 300, 700}).Draw(t, "many")
	}
	if rapid.IntRange(0, 2).Draw(t, "with metadata") == 0 {
		r.Meta = rapid.IntRange(1, 300).Draw(t, "metadata")
	}
	if r.Err = rapid.IntRange(0, 3).Draw(t, "bad end") == 0; r.Err || r.Kind == "map" {
		r.ErrPad = genErrPad(t, p)
	}
	if r.Kind == "map" {
		r.FailAt = rapid.IntRange(0, n).Draw(t, "fail at")
	}
	return r
}

func genWant(t *rapid.T, p profile, input bool) play.Want {
	pol := []string{"max", "max", "refill", "manual"}
	if input {
		pol = append(pol, "never")
	}
	w := play.Want{Policy: rapid.SampledFrom(pol).Draw(t, "policy")}
	switch w.Policy {
	case "refill":
		w.N = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 100}).Draw(t, "refill")
	case "manual":
		w.N = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 7}).Draw(t, "first")
	}
	if rapid.IntRange(0, 7).Draw(t, "stops") == 0 {
		w.Stop = rapid.IntRange(1, 4).Draw(t, "stop")
	}
	return w
}

func genCall(t *rapid.T, p profile, from, depth int) play.Call {
	c := play.Call{
		Kind: rapid.SampledFrom(p.kinds).Draw(t, "kind"),
		Op:   rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 2, 2, play.Bare, play.Bare, -1, play.Free}).Draw(t, "op"),
		Pad:  genBlob(t, p),
	}
	return finishCall(t, p, c, from, depth)
}

func finishCall(t *rapid.T, p profile, c play.Call, from, depth int) play.Call {
	if c.Op == play.Free && from == 0 {
		c.Op = -1
	}
	if c.Op < 0 {
		// In its lower bits the id may be one that is bound.
		c.Far = 1<<rapid.SampledFrom([]int{20, 12, 16, 24, 31}).Draw(t, "far") + uint32(rapid.IntRange(0, 5).Draw(t, "like"))
	}
	if rapid.IntRange(0, 2).Draw(t, "with metadata") == 0 {
		c.Meta = genBlob(t, p)
	}
	if p.edges && rapid.Bool().Draw(t, "large metadata") {
		c.Meta.N /= 2
	}
	if from == 0 && depth == 0 && rapid.IntRange(0, 4).Draw(t, "blocks") == 0 {
		c.How = "block"
	}
	if c.Kind == play.Channel {
		c.In = genProd(t, p)
	}
	if c.Kind >= play.Stream && depth == 0 {
		c.Want = genWant(t, p, false)
	}
	if c.Op >= 0 && c.Op < play.Ops && p.relay && depth < 3 && rapid.IntRange(0, 2*depth+1).Draw(t, "relay") == 0 {
		y := play.Call{Kind: c.Kind, Op: rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, -1, play.Free}).Draw(t, "relay to"), Pad: play.Blob{N: rapid.IntRange(0, 200).Draw(t, "relay pad")}}
		y = finishCall(t, p, y, 1-from, depth+1)
		y.In = play.Prod{}
		c.Relay = &y
		return c
	}
	switch c.Kind {
	case play.RR:
		c.Answer = rapid.SampledFrom([]string{"just", "just", "error", "later", "later", "laterfail", "mapfail"}).Draw(t, "answer")
		c.Resp = genBlob(t, p)
		c.ErrPad = genErrPad(t, p)
		if rapid.IntRange(0, 2).Draw(t, "answer with metadata") == 0 {
			c.RespMeta = genBlob(t, p)
		}
	case play.Stream:
		c.Out = genProd(t, p)
	case play.Channel:
		c.Out = genProd(t, p)
		c.InWant = genWant(t, p, true)
		if c.Echo = rapid.IntRange(0, 3).Draw(t, "echo") == 0; c.Echo {
			if c.InWant.Policy == "never" {
				c.InWant.Policy = "max"
			}
			c.Out = play.Prod{}
		}
	}
	return c
}

func number(c *play.Call, key uint32) {
	c.Key = key
	if c.Relay != nil {
		number(c.Relay, key+1)
	}
}

// slots is the number of keys of a call.
const slots = 1 << 13

func genCalls(p profile) func(t *rapid.T) Calls {
	return func(t *rapid.T) Calls {
		var cs Calls
		n := rapid.IntRange(1, p.maxCall).Draw(t, "calls")
		for i := 0; i < n; i++ {
			c := CallSpec{From: rapid.SampledFrom(p.from).Draw(t, "from"), Times: 1}
			c.Call = genCall(t, p, c.From, 0)
			if p.burst && rapid.IntRange(0, 1).Draw(t, "burst") == 0 {
				c.Times = rapid.SampledFrom([]int{2, 10, 40, 98, 99, 100, 101, 102, 130, 250}).Draw(t, "times")
			}
			if p.edges && c.Op != play.Bare && rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
				c.Edge = 1000 + rapid.IntRange(-2, 3).Draw(t, "off")
			}
			cs.Calls = append(cs.Calls, c)
		}
		ops := []string{"go", "go", "go", "settle", "push", "pushin", "req", "reqin", "cancel", "cancelin"}
		for i, k := 0, rapid.IntRange(0, 4+4*n).Draw(t, "steps"); i < k; i++ {
			s := Step{Do: rapid.SampledFrom(ops).Draw(t, "do"), Call: rapid.IntRange(0, n-1).Draw(t, "call")}
			if s.Do == "req" || s.Do == "reqin" {
				s.N = rapid.SampledFrom([]int{1, 1, 2, 3, 9, rx.RequestMax}).Draw(t, "n")
			}
			s.NoWait = p.hurry || rapid.IntRange(0, 2).Draw(t, "hurry") == 0
			cs.Steps = append(cs.Steps, s)
		}
		if p.renew {
			cs.Renew = rapid.SampledFrom([]int{0, 30, 300, 3000}).Draw(t, "renew")
		}
		return cs
	}
}

// --- running ---

type callRun struct {
	spec    *CallSpec
	started bool
	tooBig  bool // for a command that starts it in the guest
}

func (c *callRun) times() int { return max(1, c.spec.Times) }

// server is the side that serves the innermost call.
func (c *callRun) server() (side int, inner *play.Call) {
	side, inner = 1-c.spec.From, &c.spec.Call
	for inner.Relay != nil {
		side, inner = 1-side, inner.Relay
	}
	return
}

var runBase uint32 = slots

func checkCalls(ctx *kit.Ctx, cs Calls) error {
	e, err := theEnv()
	if err != nil {
		return err
	}
	healthy := false
	defer func() {
		if !healthy {
			current = nil // whatever state it is in
		}
	}()
	err = e.run(ctx, cs)
	if err != nil && errors.Is(err, errNotQuiet) {
		return ctx.Inconclusive("%v", err)
	}
	healthy = err == nil && ctx.Inconcl == ""
	return err
}

func (e *env) run(ctx *kit.Ctx, cs Calls) error {
	for side := 0; side < 2; side++ {
		if _, err := e.at(side, play.Cmd{Do: "reset"}); err != nil {
			return err
		}
	}
	var calls []*callRun
	cs.Calls = append([]CallSpec{}, cs.Calls...)
	for i := range cs.Calls {
		c := &cs.Calls[i]
		number(&c.Call, runBase+uint32(i)*slots)
		if c.Edge != 0 {
			edge(&c.Call, c.Edge-1000)
		}
		calls = append(calls, &callRun{spec: c})
	}
	runBase += uint32(len(calls)) * slots
	if runBase > 1<<31 {
		runBase = slots
	}
	quiet := func() error {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return fmt.Errorf("%w: %v", errNotQuiet, err)
		}
		return nil
	}
	start := func(c *callRun) error {
		if c.started {
			return nil
		}
		c.started = true
		_, err := e.at(c.spec.From, play.Cmd{Do: "start", Calls: []play.Call{c.spec.Call}, Times: c.times()})
		return err
	}
	if cs.Renew > 0 {
		renewed := make(chan struct{})
		go func() {
			defer close(renewed)
			e.handle(cs.Renew)
		}()
		defer func() { <-renewed }()
	}
	for _, s := range cs.Steps {
		c := calls[s.Call%len(calls)]
		if s.Do == "go" || !c.started {
			if err := start(c); err != nil {
				return err
			}
		} else {
			side, inner := c.server()
			key := inner.Key
			if s.Do == "pushin" || s.Do == "req" || s.Do == "cancel" {
				side, key = c.spec.From, c.spec.Key
			}
			r, err := e.at(side, play.Cmd{Do: s.Do, Key: key, N: s.N})
			if err != nil {
				return err
			}
			if r.OK {
				ctx.Label("%s", s.Do)
			}
		}
		if !s.NoWait {
			if err := quiet(); err != nil {
				return err
			}
		}
	}
	for _, c := range calls {
		if err := start(c); err != nil {
			return err
		}
	}
	for i := 0; i < 4; i++ {
		for side := 0; side < 2; side++ {
			if err := quiet(); err != nil {
				return err
			}
			if i < 3 {
				if _, err := e.at(side, play.Cmd{Do: "finish"}); err != nil {
					return err
				}
			}
		}
	}
	var seen [2]*seenBy
	for side := 0; side < 2; side++ {
		ev, err := e.logs(side)
		if err != nil {
			return err
		}
		seen[side] = sortEvents(ev)
		r, err := e.at(side, play.Cmd{Do: "kept"})
		if err != nil {
			return err
		}
		if len(r.Events) > 0 {
			k := r.Events[0]
			return fmt.Errorf("the %d bytes of the %s of call %s have changed since they arrived at the %s", k.N, k.What, where(calls, k.Key), sideName[side])
		}
	}
	v := &verdict{ctx: ctx, seen: seen}
	served, relayed, inFlight := 0, 0, 0
	for i, c := range calls {
		for k := 0; k < c.times(); k++ {
			call := c.spec.Call.Times(k)
			if err := v.judge(call, c.spec.From); err != nil {
				return fmt.Errorf("%s %d (copy %d of %d) from the %s to operation %d: %v", play.KindName[call.Kind], i, k, c.times(), sideName[c.spec.From], call.Op, err)
			}
		}
		ctx.Label("%s from the %s", play.KindName[c.spec.Kind], sideName[c.spec.From])
		if c.times() > 1 {
			ctx.Label("burst")
			inFlight += c.times()
		}
		if c.spec.Relay != nil {
			ctx.Label("relayed")
			relayed++
		}
		if c.spec.Op >= 0 && c.spec.Op != play.Free {
			served++
		}
	}
	ctx.NonTrivialIf(served > 1 || relayed > 0 || inFlight > 0)
	return v.strays()
}

var sideName = []string{"host", "guest"}

func where(calls []*callRun, key uint32) string {
	for i, c := range calls {
		if key >= c.spec.Key && key < c.spec.Key+slots {
			return fmt.Sprint(i)
		}
	}
	return fmt.Sprintf("key %d", key)
}
