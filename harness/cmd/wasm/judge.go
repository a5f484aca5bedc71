package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
)

// seenBy is what one side has seen, by end of call.
type seenBy struct {
	ends map[string][]play.Event // "made 7"
	odd  []play.Event
	bare map[uint64]int // unscripted fire-and-forget requests
	used map[string]bool
}

func endKey(role string, key uint32) string { return fmt.Sprintf("%s %d", role, key) }

func sortEvents(ev []play.Event) *seenBy {
	s := &seenBy{ends: map[string][]play.Event{}, bare: map[uint64]int{}, used: map[string]bool{}}
	for _, e := range ev {
		switch {
		case e.What == "bare":
			s.bare[e.D]++
		case e.Key == 0:
			s.odd = append(s.odd, e)
		default:
			k := endKey(e.Role, e.Key)
			s.ends[k] = append(s.ends[k], e)
		}
	}
	return s
}

func (s *seenBy) of(role string, key uint32) []play.Event {
	k := endKey(role, key)
	s.used[k] = true
	return s.ends[k]
}

func pick(ev []play.Event, what string) []play.Event {
	var out []play.Event
	for _, e := range ev {
		if e.What == what {
			out = append(out, e)
		}
	}
	return out
}

type verdict struct {
	ctx      *kit.Ctx
	seen     [2]*seenBy
	wantBare [2]map[uint64]int
}

func (v *verdict) strays() error {
	for side, s := range v.seen {
		for _, e := range s.odd {
			return fmt.Errorf("the %s sees a request of %d bytes that nobody has sent", sideName[side], e.N)
		}
		for k := range s.ends {
			if !s.used[k] {
				return fmt.Errorf("the %s sees an end of a call (%s) that nobody has made", sideName[side], k)
			}
		}
		for d, n := range s.bare {
			if v.wantBare[side][d] != n {
				return fmt.Errorf("the %s sees %d unscripted requests with the data %x, %d were sent", sideName[side], n, d, v.wantBare[side][d])
			}
		}
		for d, n := range v.wantBare[side] {
			if s.bare[d] != n {
				return fmt.Errorf("the %s sees %d unscripted requests with the data %x, %d were sent", sideName[side], s.bare[d], d, n)
			}
		}
	}
	return nil
}

// judge compares what both sides have seen of a call with what it is to do.
func (v *verdict) judge(c *play.Call, from int) error {
	made := v.seen[from].of("made", c.Key)
	if len(pick(made, "starts")) != 1 {
		return fmt.Errorf("it has not been made")
	}
	// Follow the request to the innermost handler.
	inner, side := c, from
	refused := "" // why it gets no further
	ctxOf := int64(0)
	if from == 0 {
		ctxOf = int64(c.Key)
	}
	for {
		side = 1 - side
		ev := v.seen[side].of("served", inner.Key)
		inv := pick(ev, "invoked")
		reached := true
		switch {
		case !fits(requestLen(inner)):
			refused, reached = "the request is too large", false
		case inner.Op < 0 || inner.Op == play.Free:
			refused, reached = "nobody exports the operation", false
		case inner.Op == play.Bare:
			reached = false
		}
		if !reached {
			if len(inv) > 0 {
				return fmt.Errorf("a handler of the %s runs for it (%s)", sideName[side], refused)
			}
			if len(ev) > 0 {
				return fmt.Errorf("the %s sees %v", sideName[side], ev[0])
			}
			break
		}
		if len(ev) == 0 && has(made, "output cancels") {
			return nil // cancelled before it was sent
		}
		if len(inv) != 1 {
			return fmt.Errorf("%d handlers of the %s run for it", len(inv), sideName[side])
		}
		if inv[0].Text != "" {
			return errors.New(inv[0].Text)
		}
		if inner.Kind == play.RR && side == 0 && from == 0 {
			for _, e := range pick(ev, "context") {
				if e.N != ctxOf {
					return fmt.Errorf("the handler the guest calls back has the context of call %d instead of the one it is made for (%d)", e.N, ctxOf)
				}
			}
		}
		if inner.Relay == nil {
			break
		}
		if n := len(pick(v.seen[side].of("made", inner.Relay.Key), "relays")); n != 1 {
			return fmt.Errorf("it is relayed %d times", n)
		}
		inner = inner.Relay
	}
	switch c.Kind {
	case play.FNF:
		if inner.Op == play.Bare && refused == "" {
			if v.wantBare[side] == nil {
				v.wantBare[side] = map[uint64]int{}
			}
			v.wantBare[side][play.Digest(inner.Data())]++
		}
		return nil
	case play.RR:
		return v.judgeAnswer(c, inner, made, refused)
	}
	return v.judgeStream(c, inner, made, from, side, refused)
}

// errFits is whether an error fits into one frame.
func errFits(text string) bool { return fits(6 + 4 + len(text)) }

func bare(d []byte) (data, meta []byte) {
	if len(d) == 0 {
		return nil, nil
	}
	return d, []byte{byte(len(d)), byte(len(d) >> 8)}
}

func (v *verdict) judgeAnswer(c, inner *play.Call, made []play.Event, refused string) error {
	ans, fail, final := pick(made, "answer"), pick(made, "error"), pick(made, "final")
	if len(ans)+len(fail) != 1 || c.How != "block" && len(final) != 1 {
		return fmt.Errorf("it ends with %d answers and %d errors %v (%d final notifications)", len(ans), len(fail), texts(fail), len(final))
	}
	data, meta := inner.Resp.Bytes(), inner.RespMeta.Bytes()
	wantErr := ""
	if inner.Answer == "error" || inner.Answer == "mapfail" || inner.Answer == "laterfail" {
		wantErr = inner.ErrWant()
	}
	if inner.Op == play.Bare {
		wantErr = ""
		data, meta = bare(inner.Data())
	}
	switch {
	case refused != "":
		if len(ans) > 0 {
			return fmt.Errorf("it is answered, though %s", refused)
		}
	case wantErr != "" && !errFits(wantErr):
		if len(fail) == 0 {
			return fmt.Errorf("it ends with %d answers instead of an error", len(ans))
		}
	case wantErr != "":
		if len(fail) == 0 || fail[0].Text != play.Brief(wantErr) {
			return fmt.Errorf("it ends with %d answers and the errors %v, want the error %q", len(ans), texts(fail), wantErr)
		}
	case !fits(frameLen(-1, len(data), len(meta))):
		if len(ans) > 0 {
			return fmt.Errorf("it is answered with an answer that is too large")
		}
	case len(ans) == 0:
		return fmt.Errorf("it fails with %v instead of being answered", texts(fail))
	case ans[0].D != play.Digest(data) || ans[0].M != play.Digest(meta):
		return fmt.Errorf("the answer differs from the handler's (%d bytes and %d bytes of metadata)", len(data), len(meta))
	}
	return nil
}

func texts(ev []play.Event) []string {
	var out []string
	for _, e := range ev {
		out = append(out, e.Text)
	}
	return out
}

// itemSpec is what a stream is to carry.
type itemSpec struct {
	d, m []uint64
	end  string // "" completes, "*" any error
	dem  bool   // on demand only
}

func prodItems(p *play.Prod, key uint32) itemSpec {
	var s itemSpec
	n := p.Len()
	if p.Kind == "error" {
		n = 0
	}
	if p.Kind == "map" {
		n = min(n, p.FailAt)
	}
	for i := 0; i < n; i++ {
		if !itemFits(p, key, i) {
			s.end = "*"
			return s
		}
		d, m := p.Item(key, i)
		s.d, s.m = append(s.d, play.Digest(d)), append(s.m, play.Digest(m))
	}
	s.end = p.EndErr(key)
	if !errFits(s.end) {
		s.end = "*"
	} else {
		s.end = play.Brief(s.end)
	}
	s.dem = p.Kind != "push" && p.Kind != "error"
	return s
}

// check judges what a subscriber has seen.
func (s itemSpec) check(what string, ev []play.Event, cut bool) error {
	asked, n := int64(0), 0
	var terms []string
	finals := 0
	cancelled := false
	for _, e := range ev {
		switch strings.TrimPrefix(e.What, what+" ") {
		case "asks":
			asked = min(asked+e.N, rx.RequestMax)
		case "cancels":
			cancelled = true
		case "item":
			if (len(terms) > 0 || finals > 0) && !cancelled {
				return fmt.Errorf("item %d of the %s arrives after the end", n, what)
			}
			if n >= len(s.d) {
				return fmt.Errorf("the %s carries more than %d items", what, len(s.d))
			}
			if e.D != s.d[n] || e.M != s.m[n] {
				return fmt.Errorf("item %d of the %s is not the one produced", n, what)
			}
			n++
			if s.dem && int64(n) > asked {
				return fmt.Errorf("item %d of the %s arrives, only %d were asked for", n, what, asked)
			}
		case "completes":
			terms = append(terms, "")
		case "fails":
			terms = append(terms, e.Text)
		case "final":
			finals++
		}
	}
	if len(terms) > 1 || finals > 1 {
		return fmt.Errorf("the %s ends more than once: %q, %d final notifications", what, terms, finals)
	}
	if cancelled || cut {
		return nil
	}
	if n != len(s.d) {
		return fmt.Errorf("the %s carries %d of %d items, it ends with %q", what, n, len(s.d), terms)
	}
	if len(terms) != 1 || finals != 1 {
		return fmt.Errorf("the %s does not end (%q, %d final notifications)", what, terms, finals)
	}
	if s.end == "*" && terms[0] == "" || s.end != "*" && terms[0] != s.end {
		return fmt.Errorf("the %s ends with %q, want %q", what, terms[0], s.end)
	}
	return nil
}

func has(ev []play.Event, what string) bool { return len(pick(ev, what)) > 0 }

func (v *verdict) judgeStream(c, inner *play.Call, made []play.Event, from, side int, refused string) error {
	served := v.seen[side].of("served", inner.Key)
	in := prodItems(&c.In, c.Key)
	out := prodItems(&inner.Out, inner.Key)
	echo := c.Kind == play.Channel && (inner.Echo || inner.Op == play.Bare)
	switch {
	case refused != "":
		out = itemSpec{end: "*"}
	case echo:
		out = in
		out.dem = false
	case inner.Op == play.Bare:
		d, m := bare(inner.Data())
		out = itemSpec{dem: true}
		for i, x := range [][2][]byte{{d, m}, {}, {d, m}} {
			_ = i
			if !fits(frameLen(-1, len(x[0]), len(x[1]))) {
				out.end = "*"
				break
			}
			out.d, out.m = append(out.d, play.Digest(x[0])), append(out.m, play.Digest(x[1]))
		}
	}
	cancelled, inCancelled := has(made, "output cancels"), has(served, "input cancels")
	inFails, outFails := c.Kind == play.Channel && in.end != "", out.end != ""
	outCut := cancelled || inFails && !echo || echo && inCancelled
	inCut := cancelled || inCancelled || outFails || refused != ""
	if echo && inFails && !inCancelled && !cancelled && refused == "" {
		inCut = false
	}
	if err := out.check("output", made, outCut); err != nil {
		return err
	}
	if c.Kind == play.Channel && refused == "" && inner.Op != play.Bare && inner.InWant.Policy != "never" {
		if err := in.check("input", served, inCut); err != nil {
			return err
		}
	}
	if c.How == "block" {
		n := len(pick(made, "returns"))
		if n > 1 || n == 0 && (has(made, "output final") || !outCut) {
			return fmt.Errorf("the blocking call returns %d times", n)
		}
	}
	if refused != "" {
		if has(made, "input starts") && !stopped(made, "input") && (c.In.Kind == "ondemand" || c.In.Kind == "push") {
			return fmt.Errorf("it is refused, but the source of its input is not stopped")
		}
		return nil
	}
	if cancelled && (inner.Out.Kind == "ondemand" || inner.Out.Kind == "push") && !echo && has(served, "output starts") && !stopped(served, "output") {
		return fmt.Errorf("it is cancelled, but its source is not stopped")
	}
	if (cancelled || inCancelled) && (c.In.Kind == "ondemand" || c.In.Kind == "push") && has(made, "input starts") && !stopped(made, "input") {
		return fmt.Errorf("it or its input is cancelled, but the source of the input is not stopped")
	}
	// Sources are asked for no more than their subscribers have asked for.
	if err := demand(made, served, "output"); err != nil && !echo {
		return err
	}
	if inner.Op == play.Bare {
		return nil // it does not log
	}
	return demand(served, made, "input")
}

func stopped(ev []play.Event, what string) bool {
	return has(ev, what+" ends") || has(ev, what+" stopped")
}

func demand(sub, src []play.Event, what string) error {
	asks, asked := int64(0), int64(0)
	for _, e := range pick(sub, what+" asks") {
		asks += e.N
	}
	for _, e := range pick(src, what+" asked") {
		asked += e.N
		if e.N <= 0 {
			return fmt.Errorf("the source of the %s is asked for %d items", what, e.N)
		}
	}
	if asked > asks {
		return fmt.Errorf("the source of the %s is asked for %d items, its subscriber has asked for %d", what, asked, asks)
	}
	return nil
}
