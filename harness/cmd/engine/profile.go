package main

import (
	"fmt"
	"runtime"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

var (
	pRR    = []int{kRR, kRR, kRR, kRR, kRR, kRR, kRR, kFNF, kStream, kChan}
	pStr   = []int{kStream, kStream, kStream, kStream, kStream, kStream, kRR, kChan, kFNF}
	pDem   = []int{kStream, kStream, kStream, kChan, kChan}
	pChan  = []int{kChan, kChan, kChan, kChan, kChan, kStream, kRR}
	pAll   = []int{kRR, kFNF, kStream, kChan}
	pFNF   = []int{kFNF, kFNF, kFNF, kFNF, kRR, kStream, kChan}
	mWrong = mRobust | mCalls | mStreams | mChan | mFNF
)

func sessions(name string, quick, thorough int, p profile, mask int) kit.Facet {
	return kit.F(name, quick, thorough, genSession(p), checkSession(mask)).WithBatch(max(50, quick/40))
}

const sessAssume = "ids of calls stay below the colliding range; requests are not fragmented; the peers are two endpoints of this library unless frames are injected"

var S01 = &kit.Property{
	ID:          "S01",
	Rule:        "at least two calls are made and handlers of at least two requests run (sessions); at least three steps are taken (scripted peers)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		sessions("in order", 6000, 150000, profile{mode: "mem", kinds: pRR, maxCall: 10, calls: true, big: true}, mCalls),
		sessions("stepwise", 6000, 150000, profile{mode: "step", kinds: pRR, maxCall: 6, calls: true}, mCalls),
		sessions("transport", 3000, 60000, profile{mode: "tcp", kinds: pRR, maxCall: 10, calls: true, big: true}, mCalls),
		sessions("in a hurry", 6000, 150000, profile{mode: "mem", kinds: pRR, maxCall: 16, calls: true, hurry: true}, mCalls),
		faults("held handlers", 2000, 40000, false, true, pRR),
		faults("held handlers over the transport", 1000, 20000, true, true, pRR),
		faults("held sources", 3000, 60000, false, true, []int{kRR, kStream, kStream, kChan, kChan}),
		peers("scripted peers", 6000, 150000, pRR),
		kit.F("awaited calls", 3000, 80000, genAwait([]int{kRR}), checkAwait).WithBatch(250),
		kit.F("started at once", 1500, 30000, genStart, checkStart).WithBatch(50),
		kit.F("crowds", 120, 2000, genCrowd(false), checkCrowd).WithBatch(15),
	},
}

var S02 = &kit.Property{
	ID:          "S02",
	Rule:        "at least two streams, and at least two items delivered (sessions); at least three steps are taken (scripted peers)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		kit.F("crowds", 120, 2000, genCrowd(true), checkCrowd).WithBatch(15),
		kit.F("long streams", 400, 6000, genLong(10000), checkLongCall).WithBatch(25),
		sessions("in order", 5000, 120000, profile{mode: "mem", kinds: pStr, maxCall: 7, long: true, big: true}, mStreams),
		sessions("stepwise", 4000, 100000, profile{mode: "step", kinds: pStr, maxCall: 4}, mStreams),
		sessions("transport", 2500, 60000, profile{mode: "tcp", kinds: pStr, maxCall: 7, long: true, big: true}, mStreams),
		sessions("in a hurry", 6000, 150000, profile{mode: "mem", kinds: pStr, maxCall: 8, hurry: true}, mStreams),
		faults("held sources", 3000, 60000, false, true, pStr),
		peers("scripted peers", 6000, 150000, pStr),
		kit.F("awaited streams", 3000, 80000, genAwait([]int{kStream, kStream, kChan}), checkAwait).WithBatch(250),
	},
}

var S03 = &kit.Property{
	ID:          "S03",
	Rule:        "a subscriber that limits its demand gets at least two items (sessions); at least three steps are taken (scripted peers); at least two sides race (races)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		sessions("in order", 5000, 120000, profile{mode: "mem", kinds: pDem, maxCall: 4, long: true, demand: true, starve: true}, mDemand),
		sessions("stepwise", 5000, 120000, profile{mode: "step", kinds: pDem, maxCall: 3, demand: true, starve: true}, mDemand),
		sessions("transport", 2500, 60000, profile{mode: "tcp", kinds: pDem, maxCall: 4, long: true, demand: true, starve: true}, mDemand),
		sessions("in a hurry", 6000, 150000, profile{mode: "mem", kinds: pDem, maxCall: 5, demand: true, hurry: true}, mDemand),
		kit.F("races", 1500, 15000, genStreamRace(false), checkStreamRace(raceDemand)).WithBatch(50),
		peers("scripted peers", 6000, 150000, pDem),
	},
}

var S04 = &kit.Property{
	ID:          "S04",
	Rule:        "a channel carries items in both directions (sessions); at least three steps are taken (scripted peers); at least two sides race (races)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		sessions("in order", 5000, 120000, profile{mode: "mem", kinds: pChan, maxCall: 5, long: true, big: true}, mChan),
		sessions("stepwise", 5000, 120000, profile{mode: "step", kinds: pChan, maxCall: 3}, mChan),
		sessions("transport", 2500, 60000, profile{mode: "tcp", kinds: pChan, maxCall: 5, long: true, big: true}, mChan),
		sessions("in a hurry", 10000, 250000, profile{mode: "mem", kinds: pChan, maxCall: 6, hurry: true}, mChan),
		kit.F("races", 1500, 15000, genStreamRace(true), checkStreamRace(raceItems)).WithBatch(50),
		peers("scripted peers", 6000, 150000, pChan),
	},
}

var S05 = &kit.Property{
	ID:          "S05",
	Rule:        "frames no well-behaved peer sends arrive, and requests of others are handled (sessions); at least three steps are taken (scripted peers)",
	Assumptions: []string{sessAssume, "sessions: injected frames do not use the ids of calls that are still running; scripted peers: a peer that breaks the rules of a stream forfeits what that stream promises"},
	Facets: []kit.Facet{
		sessions("in order", 6000, 150000, profile{mode: "mem", kinds: pAll, maxCall: 4, attack: true}, mWrong),
		sessions("stepwise", 5000, 120000, profile{mode: "step", kinds: pAll, maxCall: 3, attack: true}, mWrong),
		sessions("transport", 3000, 60000, profile{mode: "tcp", kinds: pAll, maxCall: 4, attack: true}, mWrong),
		sessions("in a hurry", 6000, 150000, profile{mode: "mem", kinds: pAll, maxCall: 5, attack: true, hurry: true}, mWrong),
		peers("scripted peers", 20000, 400000, pAll),
	},
}

var S06 = &kit.Property{
	ID:          "S06",
	Rule:        "a stream is cancelled, or frames arrive for a call that has ended (histories); several calls end on the same connections (records) (sessions); at least three steps are taken (scripted peers); at least two sides race (races)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		sessions("in order", 5000, 120000, profile{mode: "mem", kinds: pAll, maxCall: 4, cancel: true, late: true}, mEnd|mCalls),
		sessions("stepwise", 5000, 120000, profile{mode: "step", kinds: pAll, maxCall: 3, cancel: true, late: true}, mEnd|mCalls),
		sessions("transport", 2500, 60000, profile{mode: "tcp", kinds: pDem, maxCall: 4, cancel: true}, mEnd),
		kit.F("records", 400, 10000, genSession(profile{mode: "mem", kinds: pAll, maxCall: 5, cancel: true}), checkKept).WithBatch(50),
		kit.F("records of the transport", 200, 5000, genSession(profile{mode: "tcp", kinds: pAll, maxCall: 5, cancel: true}), checkKept).WithBatch(25),
		sessions("in a hurry", 8000, 200000, profile{mode: "mem", kinds: pAll, maxCall: 6, cancel: true, late: true, hurry: true}, mEnd|mCalls),
		kit.F("races", 1500, 15000, genStreamRace(false), checkStreamRace(raceEnds)).WithBatch(50),
		peers("scripted peers", 6000, 150000, pDem),
	},
}

var S12 = &kit.Property{
	ID:          "S12",
	Rule:        "a connection ends while a call whose handler has been invoked is under way over it (connections end); items arrive behind the one that the receiver is busy with (what has arrived)",
	Assumptions: []string{sessAssume, "the connections are in-memory pipes below the real transports"},
	Facets: []kit.Facet{
		kit.F("connections end", 6000, 150000, genEnds, checkEnds).WithBatch(50),
		kit.F("what has arrived", 3000, 60000, genBacklog, checkBacklog).WithBatch(50),
	},
}

var W09 = &kit.Property{
	ID:          "W09",
	Rule:        "at least four steps are taken, among them a call and the end of a connection",
	Assumptions: []string{"calls that are under way when their connection ends may or may not end; connections of the system are watched for up to 30 s"},
	Facets: []kit.Facet{
		kit.F("in memory", 15000, 400000, genServer([]string{"pipe"}), checkServer).WithBatch(100),
		kit.F("of the system", 800, 16000, genServer([]string{"tcp", "tls"}), checkServer).WithBatch(25),
	},
}

var S10 = &kit.Property{
	ID:          "S10",
	Rule:        "fire-and-forget requests are sent and the handlers of at least two requests run (sessions); at least three steps are taken (scripted peers)",
	Assumptions: []string{sessAssume},
	Facets: []kit.Facet{
		sessions("in order", 5000, 120000, profile{mode: "mem", kinds: pFNF, maxCall: 10, big: true}, mFNF|mCalls|mStreams|mChan),
		sessions("stepwise", 4000, 100000, profile{mode: "step", kinds: pFNF, maxCall: 6}, mFNF|mCalls|mStreams|mChan),
		sessions("transport", 2500, 60000, profile{mode: "tcp", kinds: pFNF, maxCall: 10, big: true}, mFNF|mCalls|mStreams|mChan),
		sessions("in a hurry", 6000, 150000, profile{mode: "mem", kinds: pFNF, maxCall: 16, hurry: true}, mFNF|mCalls|mStreams|mChan),
		faults("held handlers", 2000, 40000, false, true, pFNF),
		faults("held handlers over the transport", 1000, 20000, true, true, pFNF),
		peers("scripted peers", 6000, 150000, pFNF),
	},
}

var S11 = &kit.Property{
	ID:          "S11",
	Rule:        "a part of some call cannot be sent",
	Assumptions: []string{sessAssume, "in memory, frames beyond 1000 bytes are refused; over the real transport, those beyond its limit"},
	Facets: []kit.Facet{
		faults("in memory", 6000, 150000, false, false, pAll),
		faults("transport", 60, 1200, true, false, pAll).WithBatch(10),
	},
}

func faults(name string, quick, thorough int, tcp, held bool, kinds []int) kit.Facet {
	return kit.F(name, quick, thorough, genFaults(tcp, held, kinds), checkFaults).WithBatch(max(50, quick/40))
}

// profile says which sessions are wanted.
type profile struct {
	mode    string // mem, step, tcp
	kinds   []int
	maxCall int
	long    bool // long streams
	demand  bool // emphasis on demand patterns
	starve  bool
	cancel  bool
	late    bool
	attack  bool
	calls   bool // emphasis on answers
	hurry   bool // no waiting between the steps
	big     bool // payloads beyond 64 KiB
}

func peers(name string, quick, thorough int, kinds []int) kit.Facet {
	return kit.F(name, quick, thorough, genPeers(kinds), checkPeers).WithBatch(max(50, quick/40)).WithList("Steps")
}

func genProd(t *rapid.T, p profile) Prod {
	kinds := []string{"slice", "resp", "ondemand", "push", "hot", "map", "error"}
	if p.demand {
		kinds = []string{"slice", "resp", "resp", "ondemand", "ondemand", "ondemand", "map", "push"}
	}
	if p.cancel {
		kinds = append(kinds, "ondemand", "resp", "push", "push", "push")
	}
	r := Prod{Kind: rapid.SampledFrom(kinds).Draw(t, "source")}
	if r.Kind == "error" {
		return r
	}
	n := rapid.IntRange(0, 8).Draw(t, "items")
	if p.long && rapid.IntRange(0, 9).Draw(t, "long") == 0 {
		n = rapid.IntRange(20, 400).Draw(t, "more")
	}
	r.Bare = rapid.IntRange(0, 5).Draw(t, "bare") == 0
	for i := 0; i < n; i++ {
		if n > 12 {
			r.Items = append(r.Items, gen.Blob{})
			continue
		}
		r.Items = append(r.Items, genData(t, p.big && n < 4))
	}
	r.Meta = rapid.IntRange(0, 2).Draw(t, "meta") == 0
	r.Err = rapid.IntRange(0, 3).Draw(t, "bad end") == 0
	if r.Kind == "map" {
		r.FailAt = rapid.IntRange(0, n).Draw(t, "fail at")
	}
	return r
}

func genData(t *rapid.T, big bool) gen.Blob {
	switch m := rapid.IntRange(0, 11).Draw(t, "data"); {
	case m == 0 && big:
		return gen.Blob{Rep: rapid.SampledFrom([]int{65520, 65535, 65536, 70000, 200000}).Draw(t, "size"), Fill: 3}
	case m < 3:
		return gen.Blob{Rep: rapid.SampledFrom([]int{0, 100, 255, 256, 2047, 2048, 4096, 8192}).Draw(t, "size"), Fill: byte(m)}
	}
	return gen.Blob{Head: rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "bytes")}
}

func genWant(t *rapid.T, p profile, input bool) Want {
	pol := []string{"max", "max", "refill", "manual"}
	if p.demand {
		pol = []string{"max", "refill", "refill", "manual", "manual", "manual"}
	}
	if input {
		pol = append(pol, "never")
	}
	w := Want{Policy: rapid.SampledFrom(pol).Draw(t, "policy")}
	switch w.Policy {
	case "refill":
		w.N = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 100}).Draw(t, "refill")
	case "manual":
		w.N = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 7, 1 << 20}).Draw(t, "first")
	}
	return w
}

func genSCall(t *rapid.T, p profile) SCall {
	c := SCall{
		Kind: rapid.SampledFrom(p.kinds).Draw(t, "kind"),
		Side: rapid.IntRange(0, 1).Draw(t, "side"),
		Op:   rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, -1, -2, -3, -4, -5, -6}).Draw(t, "op"),
		Data: genData(t, p.big),
		How:  rapid.SampledFrom([]string{"sub", "sub", "sub", "block", "async"}).Draw(t, "how"),
	}
	if p.mode == "tcp" {
		c.Link = rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "link")
	}
	if rapid.IntRange(0, 2).Draw(t, "with metadata") == 0 {
		c.Meta = genData(t, p.big)
	}
	switch c.Kind {
	case kRR:
		c.Answer = rapid.SampledFrom([]string{"just", "error", "later", "later", "go", "go", "callback", "mapfail"}).Draw(t, "answer")
		c.Fail = rapid.IntRange(0, 3).Draw(t, "fail") == 0
		c.Bare = rapid.IntRange(0, 5).Draw(t, "bare answer") == 0
		c.Resp = genData(t, p.big)
		if rapid.IntRange(0, 2).Draw(t, "answer with metadata") == 0 {
			c.RespMeta = genData(t, p.big)
		}
	case kStream:
		c.Out = genProd(t, p)
		c.Want = genWant(t, p, false)
	case kChan:
		c.Out = genProd(t, p)
		c.Want = genWant(t, p, false)
		c.In = genProd(t, p)
		c.InWant = genWant(t, p, true)
		if c.Echo = rapid.IntRange(0, 4).Draw(t, "echo") == 0; c.Echo {
			if c.InWant.Policy == "never" {
				c.InWant.Policy = "max"
			}
			c.Out = Prod{}
		}
		if p.cancel && rapid.IntRange(0, 4).Draw(t, "stop input") == 0 {
			c.StopIn = rapid.IntRange(1, 4).Draw(t, "stop after")
		}
	}
	return c
}

func genAttack(t *rapid.T, tcp bool) *Attack {
	a := &Attack{
		Link: rapid.IntRange(0, 1).Draw(t, "link"), Side: rapid.IntRange(0, 1).Draw(t, "to"),
		Type:  rapid.IntRange(rs.TRequestResponse, rs.TError).Draw(t, "type"),
		Ended: rapid.IntRange(0, 3).Draw(t, "ended") == 0,
		ID:    rapid.SampledFrom([]uint32{1001, 1001, 1002, 1002, 1003, 1004, 0, 1<<31 - 1, 1<<31 - 2}).Draw(t, "id"),
		Op:    rapid.SampledFrom([]int{0, 1, 1, -1}).Draw(t, "op"), ShortMeta: -1,
		N:    rapid.SampledFrom([]uint32{0, 0, 1, 2, 3, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "n"),
		Next: rapid.Bool().Draw(t, "next"), Complete: rapid.Bool().Draw(t, "complete"),
		Follows: rapid.IntRange(0, 5).Draw(t, "follows") == 0,
	}
	if rapid.IntRange(0, 2).Draw(t, "short") == 0 {
		a.ShortMeta = rapid.IntRange(0, 8).Draw(t, "metadata")
	}
	if rapid.Bool().Draw(t, "with data") {
		a.Data = genData(t, false)
	}
	if a.Garbage = tcp && rapid.IntRange(0, 3).Draw(t, "garbage") == 0; a.Garbage {
		a.Data = gen.Blob{Head: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")}
	}
	return a
}

func genSession(p profile) func(t *rapid.T) Session {
	return func(t *rapid.T) Session {
		s := Session{TCP: p.mode == "tcp", Step: p.mode == "step"}
		n := rapid.IntRange(1, p.maxCall).Draw(t, "calls")
		for i := 0; i < n; i++ {
			s.Calls = append(s.Calls, genSCall(t, p))
		}
		s.Starve = p.starve && rapid.IntRange(0, 3).Draw(t, "starve") == 0
		if p.hurry || rapid.IntRange(0, 3).Draw(t, "yielding") == 0 {
			s.Yields = uint(rapid.IntRange(0, 1000).Draw(t, "yields"))
		}
		if !s.TCP {
			s.Wire = rapid.SampledFrom([]int{0, 0, 0, wireJoin, wireSplit, wireJoin | wireSplit}).Draw(t, "wire")
		}
		ops := []string{"go", "go", "go", "settle", "push", "pushin", "req", "reqin"}
		if p.calls {
			ops = []string{"go", "go", "go", "settle", "settle"}
		}
		if p.demand {
			ops = append(ops, "req", "reqin", "req", "reqin")
		}
		if p.cancel {
			ops = append(ops, "cancel", "cancelin", "push", "pushin", "push")
		}
		if p.late {
			ops = append(ops, "late", "late")
		}
		if p.attack {
			ops = append(ops, "attack", "attack", "attack", "attack", "attack")
		}
		if s.Step {
			ops = append(ops, "deliver", "deliver", "deliver", "deliver", "deliver", "deliver")
		}
		k := rapid.IntRange(0, 6+5*n).Draw(t, "steps")
		for i := 0; i < k; i++ {
			o := SOp{Op: rapid.SampledFrom(ops).Draw(t, "step")}
			switch o.Op {
			case "attack":
				o.Attack = genAttack(t, s.TCP)
				o.NoWait = p.hurry || rapid.Bool().Draw(t, "hurry")
				s.Ops = append(s.Ops, o)
				continue
			case "deliver":
				o.N = rapid.IntRange(0, 9).Draw(t, "n")
			case "req", "reqin":
				o.N = rapid.SampledFrom([]int{1, 1, 2, 3, 4, 9, 1<<31 - 1}).Draw(t, "n")
			case "late":
				o.N = rapid.IntRange(0, 4).Draw(t, "n")
			}
			o.Call = rapid.IntRange(0, n-1).Draw(t, "call")
			o.NoWait = p.hurry || rapid.IntRange(0, 2).Draw(t, "hurry") == 0
			s.Ops = append(s.Ops, o)
		}
		return s
	}
}

// rule says whether a session counts as non-trivial for what it is judged on.
func (s *session) rule(mask int) bool {
	n := map[int]int{}
	cancelled, items, served := 0, 0, 0
	for _, c := range s.calls {
		if c.invokedNow() {
			served++
		}
		n[c.spec.Kind]++
		if c.spec.Kind >= kStream {
			items += len(c.sub.items)
			if c.sub.cancelled || c.insub.cancelled {
				cancelled++
			}
		}
	}
	switch {
	case mask&mRobust != 0:
		return s.attacks > 0 && served > 0
	case mask&mEnd != 0:
		return cancelled > 0 || s.lates > 0
	case mask&mFNF != 0:
		return n[kFNF] > 0 && served > 1
	case mask&mDemand != 0:
		for _, c := range s.calls {
			if c.spec.Kind >= kStream && c.spec.Want.Policy != "max" && len(c.sub.items) > 1 {
				return true
			}
		}
		return false
	case mask&mChan != 0:
		for _, c := range s.calls {
			if c.spec.Kind == kChan && len(c.sub.items) > 0 && len(c.insub.items) > 0 {
				return true
			}
		}
		return false
	case mask&mStreams != 0:
		return items > 1 && n[kStream]+n[kChan] > 1
	}
	return n[kRR] > 1 && served > 1
}

func checkSession(mask int) func(ctx *kit.Ctx, c Session) error {
	return func(ctx *kit.Ctx, spec Session) error {
		s, err := openSession(&spec, mask, false)
		if err != nil {
			return ctx.Inconclusive("%v", err)
		}
		defer s.stop()
		done, err := s.run(ctx)
		if err != nil || !done {
			return err
		}
		ctx.NonTrivialIf(s.rule(mask))
		for _, c := range s.calls {
			ctx.Label("%s", kindName[c.spec.Kind])
		}
		return nil
	}
}

// checkKept runs a session several times over the same connections and sees
// that what belongs to calls that have ended is let go of.
func checkKept(ctx *kit.Ctx, spec Session) error {
	for i := range spec.Calls {
		if c := &spec.Calls[i]; c.InWant.Policy == "never" {
			c.InWant.Policy = "max" // or the channel never ends
		}
	}
	s, err := openSession(&spec, 0, true)
	if err != nil {
		return ctx.Inconclusive("%v", err)
	}
	defer s.stop()
	const rounds = 4
	for i := 0; i < rounds; i++ {
		if i > 0 {
			s.prepare()
		}
		if done, err := s.run(ctx); err != nil || !done {
			return err
		}
		// Those that have not ended by themselves are cancelled.
		for _, c := range s.calls {
			if c.reqFlux != nil && !c.over() {
				if sub := c.reqFlux.Subscription(); sub != nil {
					sub.Cancel()
				}
			}
		}
		if err := s.flush(); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		for _, c := range s.calls {
			if !c.over() && c.sentReq > 0 {
				return fmt.Errorf("%s has not ended", c.name())
			}
		}
		s.forget()
	}
	ctx.NonTrivialIf(len(s.canaries) > 2*rounds)
	// A connection may hold on to the call it dealt with last.
	var kept map[string]int
	for try := 0; try < 5; try++ {
		runtime.GC()
		runtime.GC()
		kept = map[string]int{}
		for _, k := range s.canaries {
			if k.ref.Value() != nil {
				kept[k.what]++
			}
		}
		if len(kept) == 0 {
			break
		}
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
	}
	runtime.KeepAlive(s)
	for what, n := range kept {
		if n >= rounds {
			return fmt.Errorf("all calls have ended, but %d of %d %s objects of their %ss are still reachable from the endpoints", n, len(s.canaries), what, what)
		}
	}
	return nil
}

// forget drops all references to the calls.
func (s *session) forget() {
	for k := range s.byKey {
		scripts.Delete(k)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = nil
	s.byKey = map[string]*call{}
	for i := range s.byID {
		s.byID[i] = map[uint32]*call{}
	}
}
