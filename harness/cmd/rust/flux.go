package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// FluxStep is one step of a history. A and B say which of the senders,
// receivers or pending receptions it is about, counted back from the newest
// in a case.
type FluxStep struct {
	Op   string `json:"op"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	V    uint32 `json:"v"`
	want []string
	wake int // a step whose waker this step has to wake; -1 for none
}

type signal struct {
	err bool
	v   uint32
}

// stream is a channel as the model sees it.
type stream struct {
	senders   int
	done      bool // completed
	queue     []signal
	ended     bool // the receiver has seen the end
	waiting   int  // the step of the last poll that was pending; -1 for none
	receiving int  // pending reception; -1 for none
	at        *slot
}

// slot holds the receiving end of a channel; handles may share it.
type slot struct {
	ch      *stream
	holders int
}

type rxHandle struct {
	at    *slot
	other bool // piped or mapped
	xor   bool // mapped an odd number of times
}

type fluxHandle struct {
	ch   *stream
	at   *slot
	gone bool
}

type recvHandle struct {
	at   *slot
	gone bool
}

type fluxModel struct {
	fluxes []fluxHandle
	rxs    []*rxHandle
	recvs  []*recvHandle
}

func (m *fluxModel) release(s *slot) {
	s.holders--
	if s.holders == 0 && s.ch != nil {
		s.ch.at = nil
		s.ch = nil
	}
}

func (s *slot) busy() bool { return s.ch != nil && s.ch.receiving >= 0 }

// wakes says which poll has to be woken because the channel has news.
func (c *stream) wakes() int {
	w := c.waiting
	c.waiting = -1
	if c.at == nil {
		return -1
	}
	return w
}

func (c *stream) poll(step int, xor bool) string {
	if c == nil || c.ended {
		return "end"
	}
	if len(c.queue) > 0 {
		s := c.queue[0]
		c.queue = c.queue[1:]
		c.waiting = -1
		switch {
		case s.err && xor:
			return fmt.Sprintf("error %d", s.v^0xaaaa)
		case s.err:
			return fmt.Sprintf("error %d", s.v)
		case xor:
			return fmt.Sprintf("item %d", s.v^0x5555)
		}
		return fmt.Sprintf("item %d", s.v)
	}
	if c.done || c.senders == 0 {
		c.ended = true
		c.waiting = -1
		return "end"
	}
	c.waiting = step
	return "pending"
}

func (m *fluxModel) push(h fluxHandle, s signal) (want []string, wake int) {
	c := h.ch
	wake = -1
	switch {
	case c.at == nil:
		return []string{"refused"}, -1
	case c.done:
		// It must never arrive.
		return []string{"ok", "refused"}, -1
	}
	c.queue = append(c.queue, s)
	return []string{"ok"}, c.wakes()
}

// apply runs a step on the model. It says whether the step makes sense.
func (m *fluxModel) apply(i int, s *FluxStep) bool {
	s.wake = -1
	s.want = []string{"ok"}
	flux := func() *fluxHandle {
		if s.A < 0 || s.A >= len(m.fluxes) || m.fluxes[s.A].gone {
			return nil
		}
		return &m.fluxes[s.A]
	}
	rx := func() *rxHandle {
		if s.A < 0 || s.A >= len(m.rxs) {
			return nil
		}
		return m.rxs[s.A]
	}
	switch s.Op {
	case "new", "channels":
		c := &stream{senders: 1, waiting: -1, receiving: -1}
		at := &slot{ch: c, holders: 1}
		c.at = at
		if s.Op == "new" {
			m.fluxes = append(m.fluxes, fluxHandle{ch: c, at: at})
			return true
		}
		m.fluxes = append(m.fluxes, fluxHandle{ch: c, at: &slot{holders: 1}})
		m.rxs = append(m.rxs, &rxHandle{at: at})
	case "none":
		m.rxs = append(m.rxs, &rxHandle{at: &slot{holders: 1}})
	case "clone flux":
		f := flux()
		if f == nil {
			return false
		}
		f.ch.senders++
		f.at.holders++
		m.fluxes = append(m.fluxes, *f)
	case "take", "eject":
		var at *slot
		if s.Op == "take" {
			f := flux()
			if f == nil {
				return false
			}
			at = f.at
		} else {
			r := rx()
			if r == nil || r.other {
				return false
			}
			at = r.at
		}
		if at.busy() {
			return false
		}
		if at.ch == nil {
			s.want = []string{"gone"}
			m.rxs = append(m.rxs, nil)
			return true
		}
		n := &slot{ch: at.ch, holders: 1}
		n.ch.at = n
		at.ch = nil
		m.rxs = append(m.rxs, &rxHandle{at: n})
	case "clone rx":
		r := rx()
		if r == nil || r.other {
			return false
		}
		r.at.holders++
		m.rxs = append(m.rxs, &rxHandle{at: r.at})
	case "pipe":
		r := rx()
		if r == nil || s.B < 0 || s.B >= len(m.fluxes) || m.fluxes[s.B].gone || m.fluxes[s.B].ch == r.at.ch {
			return false
		}
		// The driver hands the other sender over, who knows when it goes:
		// nothing is asked of its channel any more.
		for j := range m.fluxes {
			if j != s.B && !m.fluxes[j].gone && m.fluxes[j].ch == m.fluxes[s.B].ch {
				return false
			}
		}
		to := &m.fluxes[s.B]
		to.gone = true
		for j, x := range m.rxs {
			if x != nil && x.at == to.ch.at && x.at != nil {
				m.rxs[j] = nil // not touched any more
			}
		}
		for j, x := range m.recvs {
			if x != nil && x.at == to.ch.at {
				m.recvs[j] = nil
			}
		}
		r.other = true
		n := *r
		m.rxs[s.A] = nil
		m.rxs = append(m.rxs, &n)
	case "map":
		r := rx()
		if r == nil {
			return false
		}
		n := *r
		n.other, n.xor = true, !r.xor
		m.rxs[s.A] = nil
		m.rxs = append(m.rxs, &n)
	case "send", "error", "send result", "send signal":
		f := flux()
		if f == nil {
			return false
		}
		if s.Op == "send signal" && s.B >= 2 {
			return m.complete(f, s)
		}
		isErr := s.Op == "error" || s.Op != "send" && s.B == 1
		s.want, s.wake = m.push(*f, signal{isErr, s.V})
	case "complete":
		f := flux()
		if f == nil {
			return false
		}
		m.complete(f, s)
		s.want = []string{"ok"}
	case "closed":
		f := flux()
		if f == nil {
			return false
		}
		switch {
		case f.ch.at == nil:
			s.want = []string{"true"}
		case f.ch.done:
			s.want = []string{"true", "false"}
		default:
			s.want = []string{"false"}
		}
	case "drop flux":
		f := flux()
		if f == nil {
			return false
		}
		f.gone = true
		c := f.ch
		c.senders--
		m.release(f.at)
		if c.senders == 0 && !c.done {
			s.wake = c.wakes()
		}
	case "drop rx":
		r := rx()
		if r == nil {
			return false
		}
		m.release(r.at)
		m.rxs[s.A] = nil
	case "poll":
		r := rx()
		if r == nil || r.at.busy() {
			return false
		}
		s.want = []string{r.at.ch.poll(i, r.xor)}
	case "poll flux":
		f := flux()
		if f == nil || f.at.busy() {
			return false
		}
		s.want = []string{f.at.ch.poll(i, false)}
	case "recv", "recv flux":
		var at *slot
		if s.Op == "recv" {
			r := rx()
			if r == nil || r.other {
				return false
			}
			at = r.at
		} else {
			f := flux()
			if f == nil {
				return false
			}
			at = f.at
		}
		if at.busy() {
			return false
		}
		at.holders++
		if at.ch != nil {
			at.ch.receiving = len(m.recvs)
		}
		m.recvs = append(m.recvs, &recvHandle{at: at})
	case "poll recv":
		if s.A < 0 || s.A >= len(m.recvs) || m.recvs[s.A] == nil {
			return false
		}
		r := m.recvs[s.A]
		switch {
		case r.at.ch == nil:
			s.want = []string{"gone"}
		case r.at.ch.ended:
			s.want = []string{"end", "gone"}
		default:
			s.want = []string{r.at.ch.poll(i, false)}
		}
		if s.want[0] != "pending" {
			m.finish(s.A)
		}
	case "drop recv":
		if s.A < 0 || s.A >= len(m.recvs) || m.recvs[s.A] == nil {
			return false
		}
		if c := m.recvs[s.A].at.ch; c != nil {
			c.waiting = -1
		}
		m.finish(s.A)
	default:
		kit.Bug("step %q", s.Op)
	}
	return true
}

func (m *fluxModel) finish(i int) {
	r := m.recvs[i]
	m.recvs[i] = nil
	if r.at.ch != nil && r.at.ch.receiving == i {
		r.at.ch.receiving = -1
	}
	m.release(r.at)
}

func (m *fluxModel) complete(f *fluxHandle, s *FluxStep) bool {
	c := f.ch
	switch {
	case c.at == nil:
		s.want = []string{"refused"}
	case c.done:
		s.want = []string{"ok", "refused"}
	default:
		c.done = true
		s.wake = c.wakes()
	}
	return true
}

// FluxCase is a history of senders and receivers.
type FluxCase struct{ Steps []FluxStep }

var fluxOps = []string{"new", "channels", "channels", "none", "clone flux", "take", "take", "clone rx", "eject", "pipe", "map",
	"send", "send", "send", "send", "send", "send", "send", "send", "error", "error", "send result", "send signal", "complete", "closed", "closed", "drop flux", "drop rx",
	"poll", "poll", "poll", "poll", "poll", "poll", "poll flux", "poll flux", "recv", "recv", "recv flux", "poll recv", "poll recv", "poll recv", "drop recv"}

func genFlux(t *rapid.T) FluxCase {
	step := rapid.Custom(func(t *rapid.T) FluxStep {
		return FluxStep{Op: rapid.SampledFrom(fluxOps).Draw(t, "op"), A: back(t), B: back(t), V: gen.U32().Draw(t, "v")}
	})
	return FluxCase{rapid.SliceOfN(step, rapid.SampledFrom([]int{1, 10, 30, 50}).Draw(t, "least"), 60).Draw(t, "steps")}
}

func back(t *rapid.T) int { return max(rapid.IntRange(-4, 4).Draw(t, "back"), 0) }

// normal is the history with the steps that make no sense left out, each
// with what is to come of it.
func (c FluxCase) normal() []FluxStep {
	var m fluxModel
	var out []FluxStep
	for _, s := range append([]FluxStep{{Op: "channels"}}, c.Steps...) {
		// Only what is there can be chosen.
		var fluxes, rxs, recvs []int
		for i, f := range m.fluxes {
			if !f.gone {
				fluxes = append(fluxes, i)
			}
		}
		for i, r := range m.rxs {
			if r != nil && !(r.at.busy() && s.Op != "drop rx") && !(r.other && s.Op != "poll" && s.Op != "map" && s.Op != "drop rx") {
				rxs = append(rxs, i)
			}
		}
		for i, r := range m.recvs {
			if r != nil {
				recvs = append(recvs, i)
			}
		}
		pick := func(l []int, i int) int {
			if len(l) == 0 {
				return -1
			}
			return l[len(l)-1-i%len(l)]
		}
		switch s.Op {
		case "new", "channels":
			if len(fluxes) > 4 {
				continue
			}
		case "clone flux", "take", "send", "error", "send result", "send signal", "complete", "closed", "drop flux", "poll flux", "recv flux":
			s.A = pick(fluxes, s.A)
		case "poll recv", "drop recv":
			s.A = pick(recvs, s.A)
		default:
			s.A = pick(rxs, s.A)
		}
		switch s.Op {
		case "pipe":
			s.B = pick(fluxes, s.B)
		case "send result":
			s.B &= 1
		}
		if m.apply(len(out), &s) {
			s.A, s.B = max(s.A, 0), max(s.B, 0)
			out = append(out, s)
		}
	}
	return out
}

func checkFlux(ctx *kit.Ctx, c FluxCase) error {
	steps := c.normal()
	if len(steps) == 0 {
		return nil
	}
	var a struct {
		Results []string
		Wakes   []int
	}
	if _, err := ask("flux", steps, &a); err != nil {
		return fmt.Errorf("a history of %d steps: %v", len(steps), err)
	}
	items, ends := 0, 0
	for i, s := range steps {
		ok := false
		for _, w := range s.want {
			ok = ok || w == a.Results[i]
		}
		if !ok {
			return fmt.Errorf("step %d (%s %d): the result is %q, expected %q", i, s.Op, s.A, a.Results[i], s.want)
		}
		if s.wake >= 0 && a.Wakes[s.wake] == 0 {
			return fmt.Errorf("step %d (%s %d): the receiver waiting since step %d is not woken", i, s.Op, s.A, s.wake)
		}
		switch s.Op {
		case "poll", "poll flux", "poll recv":
			switch {
			case a.Results[i] == "end":
				ends++
			case a.Results[i] != "pending" && a.Results[i] != "gone":
				items++
			}
		}
	}
	ctx.NonTrivialIf(items > 1)
	ctx.Label("items-%d", min(items, 4))
	ctx.Label("end-%v", ends > 0)
	return nil
}

// MonoCase is a publisher of one value.
type MonoCase struct {
	How   string `json:"how"`
	OK    bool   `json:"ok"`
	V     uint32 `json:"v"`
	After int    `json:"after"`
}

func checkMono(ctx *kit.Ctx, c MonoCase) error {
	var a struct {
		Pending int
		Result  string
	}
	ctx.NonTrivialIf(c.After > 0)
	ctx.Label("%s", c.How)
	if _, err := ask("mono", c, &a); err != nil {
		return fmt.Errorf("a mono: %v", err)
	}
	want := fmt.Sprintf("item %d", c.V)
	if !c.OK {
		want = fmt.Sprintf("error %d", c.V)
	}
	if a.Result != want {
		return fmt.Errorf("a mono given %s (%s, %d polls before) resolves to %s", want, c.How, c.After, a.Result)
	}
	if a.Pending != c.After {
		return fmt.Errorf("a mono that has its value after %d polls is pending %d times", c.After, a.Pending)
	}
	return nil
}

func genMono(t *rapid.T) MonoCase {
	c := MonoCase{How: rapid.SampledFrom([]string{"ready", "future", "later"}).Draw(t, "how"), OK: rapid.Bool().Draw(t, "ok"), V: gen.U32().Draw(t, "v")}
	if c.How != "ready" {
		c.After = rapid.IntRange(0, 6).Draw(t, "after")
	}
	return c
}

// ThreadsCase is several threads pushing to one stream.
type ThreadsCase struct {
	Senders  []int `json:"senders"`
	Complete bool  `json:"complete"`
}

func checkThreads(ctx *kit.Ctx, c ThreadsCase) error {
	ctx.NonTrivialIf(len(c.Senders) > 1)
	var a struct {
		Got     []uint32
		Refused int
	}
	if _, err := ask("threads", c, &a); err != nil {
		return fmt.Errorf("%d threads: %v", len(c.Senders), err)
	}
	if a.Refused > 0 {
		return fmt.Errorf("%d items of %v are refused", a.Refused, c.Senders)
	}
	next := make([]int, len(c.Senders))
	for i, v := range a.Got {
		failed := v>>31 == 1
		s, k := int(v&0x7fffffff>>16), int(v&0xffff)
		if s >= len(next) {
			return fmt.Errorf("item %d (%#x) is made up", i, v)
		}
		if k != next[s] {
			return fmt.Errorf("thread %d of %d: item %d arrives where %d is due", s, len(next), k, next[s])
		}
		if failed != (k%7 == 3) {
			return fmt.Errorf("thread %d: item %d is an error: %v", s, k, failed)
		}
		next[s]++
	}
	for s, n := range next {
		if n != c.Senders[s] {
			return fmt.Errorf("thread %d: %d of %d items arrive", s, n, c.Senders[s])
		}
	}
	return nil
}

func genThreads(t *rapid.T) ThreadsCase {
	return ThreadsCase{rapid.SliceOfN(rapid.IntRange(0, 400), 1, 5).Draw(t, "senders"), rapid.Bool().Draw(t, "complete")}
}

var X04 = &kit.Property{
	ID:   "X04",
	Rule: "a case is a history of pushes, completions, clones, hand-overs, transformations and receptions of several streams, a single-value publisher, or threads that push to one stream; non-trivial when more than one item arrives, the value comes late, there is more than one thread",
	Assumptions: []string{
		"one party at a time waits on a stream: clones of a receiver share it",
	},
	Facets: []kit.Facet{
		kit.F("history", 60000, 900000, genFlux, checkFlux).WithBatch(5000).WithList("Steps"),
		kit.F("mono", 3000, 20000, genMono, checkMono).WithBatch(1000),
		kit.F("threads", 1500, 20000, genThreads, checkThreads).WithBatch(200),
	},
}
