package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// Connections end while calls are under way over them. Their callers are told,
// what feeds them is stopped, and nothing of them stays behind, while the
// calls of other connections carry on.

// EndCase makes the calls in order and ends the connections one by one.
type EndCase struct {
	Yields uint
	Calls  []FaultCall
	Ends   []string // how each connection ends: closed, peer closed, broken, cancelled, garbage, server closed (the last one only)
	Cut    int      // the first connection to end
	At     int      // for broken: how many bytes the client still sends
	Hurry  bool     // the first connection ends while the calls are being made
	Delay  int
	Before bool // handlers are released before the connection ends
	Which  []bool
}

func genEnds(t *rapid.T) EndCase {
	c := EndCase{Hurry: rapid.IntRange(0, 2).Draw(t, "hurry") == 0}
	if rapid.Bool().Draw(t, "yields") {
		c.Yields = uint(rapid.IntRange(1, 1000).Draw(t, "yield seed"))
	}
	n := rapid.IntRange(1, 2).Draw(t, "connections")
	ways := []string{"closed", "peer closed", "broken", "cancelled", "garbage", "peer garbage"}
	for i := 0; i < n; i++ {
		c.Ends = append(c.Ends, rapid.SampledFrom(ways).Draw(t, "end"))
	}
	c.Cut = rapid.IntRange(0, n-1).Draw(t, "cut")
	if rapid.IntRange(0, 4).Draw(t, "stop") == 0 {
		c.Ends[n-1-c.Cut%n] = "server closed"
		if n == 1 {
			c.Ends[0] = "server closed"
		}
	}
	c.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FaultCall {
		f := FaultCall{
			Kind: rapid.SampledFrom([]int{kRR, kRR, kFNF, kStream, kStream, kChan, kChan}).Draw(t, "kind"),
			From: rapid.IntRange(0, 1).Draw(t, "from"),
			Link: rapid.IntRange(0, n-1).Draw(t, "link"), Fail: rapid.IntRange(0, 4).Draw(t, "fail") == 0,
		}
		srcs := []string{"slice", "ondemand", "ondemand", "hot"}
		what := []string{"", "invoked"}
		if f.Kind >= kStream {
			f.Src, f.Items = rapid.SampledFrom(srcs).Draw(t, "source"), rapid.IntRange(0, 5).Draw(t, "items")
			f.Refill = rapid.IntRange(0, 3).Draw(t, "refill")
			if f.Refill > 0 {
				f.Stall = rapid.IntRange(0, 3).Draw(t, "stall")
			}
			f.Open = f.Src != "slice" && rapid.Bool().Draw(t, "open")
			what = append(what, "", "produce", "asked")
		}
		if f.Kind == kChan {
			f.InSrc, f.In = rapid.SampledFrom(srcs).Draw(t, "input source"), rapid.IntRange(0, 5).Draw(t, "input items")
			f.InRefill = rapid.IntRange(0, 3).Draw(t, "input refill")
			if f.InRefill > 0 {
				f.InStall = rapid.IntRange(0, 3).Draw(t, "input stall")
			}
			f.InOpen = f.InSrc != "slice" && rapid.Bool().Draw(t, "input open")
		}
		if f.Src == "slice" {
			f.Fail = false
		}
		f.Held = rapid.SampledFrom(what).Draw(t, "held")
		if f.Held == "asked" {
			f.Src = "ondemand"
			if f.Kind == kChan {
				f.InSrc = "ondemand"
			}
			f.At = rapid.IntRange(0, 2).Draw(t, "asked before")
		}
		return f
	}), 1, 6).Draw(t, "calls")
	c.At = rapid.IntRange(0, 60).Draw(t, "bytes")
	c.Delay = rapid.IntRange(0, 30).Draw(t, "delay")
	c.Before = rapid.Bool().Draw(t, "released before")
	c.Which = rapid.SliceOfN(rapid.Bool(), 6, 6).Draw(t, "which")
	return c
}

func checkEnds(ctx *kit.Ctx, c EndCase) error {
	exportFaults()
	faultLimit.Store(1 << 24)
	srv, err := newTCPServer()
	if err != nil {
		return ctx.Inconclusive("%v", err)
	}
	defer srv.srv.Close()
	var links []*link
	var ended []bool
	for range c.Ends {
		links = append(links, newTCPLink(srv, c.Yields, func(int, rs.Frame) {}, func(int, rs.Frame) {}))
		ended = append(ended, false)
	}
	var runs []*faultRun
	defer func() {
		for _, r := range runs {
			faultScripts.Delete(r.key)
			r.open()
		}
		kit.Quiesce(quiesceLimit)
		for _, l := range links {
			l.close()
		}
		kit.Quiesce(quiesceLimit)
	}()
	type held struct {
		what string
		ref  weak.Pointer[canary]
	}
	var canaries []held
	for i := range c.Calls {
		spec := &c.Calls[i]
		r := &faultRun{spec: spec, idx: i, key: fmt.Sprintf("e%011d", keySeq.Add(1))}
		if spec.Held != "" {
			r.gate = make(chan struct{})
		}
		r.out = &faultSrc{kind: spec.Src, open: spec.Open}
		for k := 0; k < spec.Items; k++ {
			r.out.items = append(r.out.items, fmt.Sprintf("item %d.%d", i, k))
		}
		if spec.Fail {
			r.out.fail = r.failText()
		}
		if spec.Held == "produce" {
			r.out.gate = r.gate
		}
		r.in = &faultSrc{kind: spec.InSrc, open: spec.InOpen}
		if spec.Held == "asked" {
			r.out.asked, r.in.asked = r.gate, r.gate
			r.out.free.Store(int32(spec.At))
			r.in.free.Store(int32(spec.At))
		}
		for k := 0; k < spec.In; k++ {
			r.in.items = append(r.in.items, fmt.Sprintf("input %d.%d", i, k))
		}
		faultScripts.Store(r.key, r)
		runs = append(runs, r)
	}
	unsure := false
	quiet := func() bool {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			unsure = true
			ctx.Inconclusive("%v", err)
			return false
		}
		return true
	}
	call := func(r *faultRun) {
		s := r.spec
		h := links[s.Link].h[s.From]
		p := payload.New([]byte(r.key), binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, faultIDs[s.Kind]), 0))
		p = payload.New(p.Data(), append(p.Metadata(), "m"+r.key...))
		keep := &canary{}
		canaries = append(canaries, held{kindName[s.Kind], weak.Make(keep)})
		bg := context.Background()
		switch s.Kind {
		case kFNF:
			h.FireAndForget(bg, p)
		case kRR:
			h.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					runtime.KeepAlive(keep)
					r.got.add("next %s", short1(string(p.Data())))
					r.got.add("complete")
				},
				OnError: func(err error) { r.got.add("error %s", short1(errText(err))) },
				Finally: func(rx.SignalType) { r.got.add("finally") },
			})
		case kStream:
			h.RequestStream(bg, p).Subscribe(faultSub(&r.got, s.Refill, s.Stall, keep))
		case kChan:
			h.RequestChannel(bg, p, r.in.flux()).Subscribe(faultSub(&r.got, s.Refill, s.Stall, keep))
		}
	}
	on := func(link int) (rs []*faultRun) {
		for _, r := range runs {
			if r.spec.Link == link {
				rs = append(rs, r)
			}
		}
		return
	}
	sort.SliceStable(runs, func(i, j int) bool { return runs[i].spec.Link != c.Cut && runs[j].spec.Link == c.Cut })
	order := []int{c.Cut}
	for i := range c.Ends {
		if i != c.Cut {
			order = append(order, i)
		}
	}
	type seen struct{ got, input []string }
	before := map[*faultRun]seen{}
	snap := func() {
		for _, r := range runs {
			before[r] = seen{r.got.get(), r.input.get()}
		}
	}
	// See that the calls of a connection that is up are as they should be.
	up := func(rs []*faultRun) error {
		for _, r := range rs {
			if err := r.partial(false, r.isOpen()); err != nil {
				return fmt.Errorf("%s %d, whose connection is up: %w", kindName[r.spec.Kind], r.idx, err)
			}
		}
		return nil
	}
	failure := func() error {
		for _, l := range links {
			if m := l.failure(); m != "" {
				return errors.New(m)
			}
		}
		return nil
	}
	pending := 0
	cut := func(i int) error {
		l := links[i]
		if c.Ends[i] == "server closed" {
			for k, o := range links {
				o.mu.Lock()
				o.closed = true
				o.mu.Unlock()
				ended[k] = true
			}
		}
		endLink(l, srv, c.Ends[i], c.At, !c.Hurry || i != c.Cut)
		ended[i] = true
		return nil
	}
	for turn, i := range order {
		if ended[i] {
			break
		}
		if turn == 0 {
			hurried := on(i)
			for _, r := range runs {
				if r.spec.Link != i {
					call(r)
				}
			}
			if !c.Hurry {
				for _, r := range hurried {
					call(r)
				}
			}
			if !quiet() {
				return nil
			}
			if err := failure(); err != nil {
				return err
			}
			if c.Before {
				for _, r := range runs {
					if c.Which[r.idx%len(c.Which)] {
						r.open()
					}
				}
			}
			if !c.Hurry || c.Before {
				if !quiet() {
					return nil
				}
			}
			snap()
			if c.Hurry {
				if err := up(others(runs, hurried)); err != nil {
					return err
				}
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < c.Delay; k++ {
						runtime.Gosched()
					}
					cut(i)
				}()
				for _, r := range hurried {
					call(r)
				}
				wg.Wait()
				// Bytes that never come do not end it.
				links[i].tap.Conn.Close()
			} else if err := up(runs); err != nil {
				return err
			}
		} else {
			snap()
		}
		if turn > 0 || !c.Hurry {
			cut(i)
		}
		if !quiet() {
			return nil
		}
		for _, r := range runs {
			if ended[r.spec.Link] && r.started() && !finished(before[r].got) && r.spec.Kind != kFNF {
				pending++
			}
		}
		check := func(when string) error {
			if err := failure(); err != nil {
				return err
			}
			for _, r := range runs {
				if !ended[r.spec.Link] {
					if err := r.partial(false, r.isOpen()); err != nil {
						return fmt.Errorf("%s: %s %d, whose connection is up: %w", when, kindName[r.spec.Kind], r.idx, err)
					}
					continue
				}
				if err := r.partial(true, r.isOpen()); err != nil {
					return fmt.Errorf("%s: %s %d, whose connection has ended (%s): %w", when, kindName[r.spec.Kind], r.idx, c.Ends[r.spec.Link], err)
				}
				if b := before[r]; r.spec.Kind != kFNF && (turn > 0 || !c.Hurry || r.spec.Link != i) {
					if got := r.got.get(); !endedFrom(b.got, got) {
						return fmt.Errorf("%s: %s %d, whose connection has ended (%s): its caller had seen %q, but then sees %q", when, kindName[r.spec.Kind], r.idx, c.Ends[r.spec.Link], b.got, got)
					}
				}
			}
			return nil
		}
		when := "after connection " + fmt.Sprint(i) + " ended"
		if err := check(when); err != nil {
			return err
		}
		for _, r := range runs {
			if r.spec.Link == i {
				r.open()
			}
		}
		if !quiet() {
			return nil
		}
		if err := check(when + " and its handlers were released"); err != nil {
			return err
		}
		// Calls that come too late fail, those of other connections do not.
		for k, l := range links {
			for from := 0; from < 2; from++ {
				if err := probe(l, from, ended[k], quiet); err != nil {
					return fmt.Errorf("%s: connection %d: %w", when, k, err)
				}
				if unsure {
					return nil
				}
			}
		}
	}
	for _, r := range runs {
		ctx.Label("%s %s", kindName[r.spec.Kind], r.spec.Held)
	}
	for _, e := range c.Ends {
		ctx.Label("%s", e)
	}
	ctx.NonTrivialIf(pending > 0)
	for i := range runs {
		faultScripts.Delete(runs[i].key)
		runs[i].open()
	}
	if !quiet() {
		return nil
	}
	clear(runs)
	clear(before)
	runs = nil
	left := map[string]int{}
	for try := 0; try < 3; try++ {
		runtime.GC()
		runtime.GC()
		clear(left)
		for _, k := range canaries {
			if k.ref.Value() != nil {
				left[k.what]++
			}
		}
		if len(left) == 0 {
			break
		}
		if !quiet() {
			return nil
		}
	}
	runtime.KeepAlive(links)
	var msgs []string
	total := 0
	for what, n := range left {
		total += n
		msgs = append(msgs, fmt.Sprintf("%d subscribers of %ss", n, what))
	}
	if sort.Strings(msgs); total > 2*len(links) {
		return fmt.Errorf("all connections have ended, but %s of %d calls are still reachable from the endpoints", strings.Join(msgs, " and "), len(canaries))
	}
	return nil
}

// endLink ends a connection.
func endLink(l *link, srv *tcpServer, how string, at int, now bool) {
	l.mu.Lock()
	l.closed = true
	l.mu.Unlock()
	switch how {
	case "closed":
		l.close()
	case "peer closed":
		l.server.Close()
	case "broken":
		l.tap.breakAfter(at)
		if now {
			// It is noticed by the peer when the bytes end.
			l.tap.Conn.Close()
		}
	case "cancelled":
		l.cancel()
	case "garbage":
		l.tap.Conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
		l.tap.Conn.Write([]byte{0, 0, 2, 0, 0})
	case "peer garbage":
		l.server.SetWriteDeadline(time.Now().Add(5 * time.Second))
		l.server.Write([]byte{0, 0, 2, 0, 0})
	case "server closed":
		srv.srv.Close()
	}
}

// probe makes new calls of all kinds over a connection.
func probe(l *link, from int, ended bool, quiet func() bool) error {
	for kind := kRR; kind <= kChan; kind++ {
		if kind == kFNF {
			continue
		}
		r := &faultRun{spec: &FaultCall{Kind: kind, From: from, Src: "ondemand", InSrc: "ondemand"}, key: fmt.Sprintf("p%011d", keySeq.Add(1))}
		r.out, r.in = &faultSrc{kind: "ondemand", items: []string{"a", "b"}}, &faultSrc{kind: "ondemand", items: []string{"c", "d"}}
		faultScripts.Store(r.key, r)
		p := payload.New([]byte(r.key), binary.BigEndian.AppendUint64(nil, uint64(faultIDs[kind])<<32))
		h, bg := l.h[from], context.Background()
		switch kind {
		case kRR:
			h.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { r.got.add("complete") },
				OnError:   func(err error) { r.got.add("error %s", short1(errText(err))) },
				Finally:   func(rx.SignalType) { r.got.add("finally") },
			})
		case kStream:
			h.RequestStream(bg, p).Subscribe(faultSub(&r.got, 0, 0, nil))
		case kChan:
			h.RequestChannel(bg, p, r.in.flux()).Subscribe(faultSub(&r.got, 0, 0, nil))
		}
		if !quiet() {
			return nil
		}
		faultScripts.Delete(r.key)
		got := r.got.get()
		switch {
		case ended && !sameEvents(got, []string{"error *", "finally"}):
			return fmt.Errorf("a %s made after its end comes to %q", kindName[kind], got)
		case ended && (r.in.running() || r.out.running()):
			return fmt.Errorf("a %s made after its end leaves its source running", kindName[kind])
		case !ended && (len(got) < 2 || got[len(got)-2] != "complete"):
			return fmt.Errorf("it is up, but a %s comes to %q", kindName[kind], got)
		}
	}
	return nil
}

func others(all, not []*faultRun) (rs []*faultRun) {
	for _, r := range all {
		found := false
		for _, n := range not {
			found = found || n == r
		}
		if !found {
			rs = append(rs, r)
		}
	}
	return
}

func finished(events []string) bool {
	return len(events) > 0 && events[len(events)-1] == "finally"
}

// endedFrom says whether a caller who had seen some of a call when its
// connection ended has been told of that, and of nothing else.
func endedFrom(before, after []string) bool {
	if finished(before) {
		return sameEvents(after, before)
	}
	return sameEvents(after, append(append([]string{}, before...), "error *", "finally"))
}

// open releases the handler.
func (r *faultRun) open() {
	if r.gate != nil && !r.isOpen() {
		close(r.gate)
	}
}

func (r *faultRun) isOpen() bool {
	if r.gate == nil {
		return true
	}
	select {
	case <-r.gate:
		return true
	default:
		return false
	}
}

func (r *faultRun) started() bool { return r.calls.Load() > 0 }

// through says whether events are the beginning of what is wanted, all of it,
// or, if the connection has ended, the beginning of it and an error.
func through(got, want []string, ended bool) error {
	for i, e := range got {
		if i < len(want) && sameEvents([]string{e}, want[i:i+1]) {
			continue
		}
		if ended && i == len(got)-2 && strings.HasPrefix(e, "error ") && e != "error " && got[i+1] == "finally" {
			return nil
		}
		return fmt.Errorf("%q, of %q", got, want)
	}
	if ended && len(got) < len(want) {
		return fmt.Errorf("%q, of %q, but not its end", got, want)
	}
	return nil
}

// partial judges a call as far as it has come.
func (r *faultRun) partial(ended, free bool) error {
	s := r.spec
	calls := int(r.calls.Load())
	if calls > 1 {
		return fmt.Errorf("its handler has run %d times", calls)
	}
	got, input := r.got.get(), r.input.get()
	if s.Kind == kFNF {
		return nil
	}
	want := []string{"next " + short1(r.answer()), "complete", "finally"}
	switch {
	case s.Kind >= kStream:
		want = faultItems(r.out, false, 0)
	case s.Fail:
		want = []string{"error " + short1(r.failText()), "finally"}
	}
	if r.out.open {
		want = want[:s.Items]
		if ended {
			want = append(want, "error *", "finally")
		}
	}
	if err := through(got, want, ended); err != nil {
		return fmt.Errorf("the caller sees %w", err)
	}
	if s.Kind == kRR {
		return nil
	}
	if ended && r.out.running() {
		return fmt.Errorf("the source of its output is not stopped")
	}
	if s.Kind == kStream {
		return nil
	}
	if ended && r.in.running() {
		return fmt.Errorf("the source of its input is not stopped")
	}
	want = faultItems(r.in, false, 0)
	if r.in.open {
		want = want[:s.In]
	}
	if ended && (calls == 0 || !free && s.Held == "invoked") {
		return nil // it has not subscribed
	}
	if s.Fail && finished(got) {
		ended = true // the input ends with the output
	}
	if ended && r.in.open {
		want = append(want, "error *", "finally")
	}
	if err := through(input, want, ended); err != nil {
		return fmt.Errorf("the handler's input is %w", err)
	}
	return nil
}

// BacklogCase is a stream whose receiver is busy with an item when the
// connection ends: what has arrived by then is still received.
type BacklogCase struct {
	Yields  uint
	From    int
	Input   bool // the input of a channel, rather than the output of a stream
	Src     string
	Items   int
	At      int
	Fail    bool
	End     string
	Answers int // calls whose answers arrive after that
}

func genBacklog(t *rapid.T) BacklogCase {
	c := BacklogCase{From: rapid.IntRange(0, 1).Draw(t, "from"), Input: rapid.Bool().Draw(t, "input"),
		Src:   rapid.SampledFrom([]string{"ondemand", "hot"}).Draw(t, "source"),
		Items: rapid.IntRange(1, 8).Draw(t, "items"), Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0,
		End:     rapid.SampledFrom([]string{"closed", "peer closed", "broken", "cancelled", "garbage", "peer garbage", "server closed"}).Draw(t, "end"),
		Answers: rapid.IntRange(0, 3).Draw(t, "answers")}
	c.At = rapid.IntRange(0, c.Items-1).Draw(t, "at")
	if rapid.Bool().Draw(t, "yields") {
		c.Yields = uint(rapid.IntRange(1, 1000).Draw(t, "yield seed"))
	}
	return c
}

func checkBacklog(ctx *kit.Ctx, c BacklogCase) error {
	exportFaults()
	srv, err := newTCPServer()
	if err != nil {
		return ctx.Inconclusive("%v", err)
	}
	defer srv.srv.Close()
	l := newTCPLink(srv, c.Yields, func(int, rs.Frame) {}, func(int, rs.Frame) {})
	var runs []*faultRun
	busy := make(chan struct{})
	var once sync.Once
	release := func() { once.Do(func() { close(busy) }) }
	defer func() {
		release()
		for _, r := range runs {
			faultScripts.Delete(r.key)
			r.open()
		}
		kit.Quiesce(quiesceLimit)
		l.close()
		kit.Quiesce(quiesceLimit)
	}()
	bg := context.Background()
	start := func(spec *FaultCall) *faultRun {
		r := &faultRun{spec: spec, idx: len(runs), key: fmt.Sprintf("b%011d", keySeq.Add(1))}
		r.out, r.in = &faultSrc{kind: "ondemand"}, &faultSrc{kind: "ondemand"}
		faultScripts.Store(r.key, r)
		runs = append(runs, r)
		return r
	}
	request := func(r *faultRun) payload.Payload {
		return payload.New([]byte(r.key), binary.BigEndian.AppendUint64(nil, uint64(faultIDs[r.spec.Kind])<<32))
	}
	h := l.h[c.From]
	s := &FaultCall{Kind: kStream, From: c.From}
	if c.Input {
		s.Kind = kChan
	}
	r := start(s)
	src := &faultSrc{kind: c.Src}
	for i := 0; i < c.Items; i++ {
		src.items = append(src.items, fmt.Sprintf("item %d", i))
	}
	if c.Fail {
		src.fail = "the source fails"
	}
	log := &r.got
	if c.Input {
		r.in, log = src, &r.input
		r.out.open = true
	} else {
		r.out = src
	}
	log.on = func(e string) {
		if e == fmt.Sprintf("next item %d", c.At) {
			<-busy
		}
	}
	// The answers come to the side that is busy.
	asker := l.h[c.From]
	if c.Input {
		asker = l.h[1-c.From]
	}
	var answers []*faultRun
	for i := 0; i < c.Answers; i++ {
		a := start(&FaultCall{Kind: kRR, From: c.From, Held: "invoked"})
		a.gate = make(chan struct{})
		answers = append(answers, a)
		asker.RequestResponse(bg, request(a)).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { a.got.add("next %s", short1(string(p.Data()))); a.got.add("complete") },
			OnError:   func(err error) { a.got.add("error %s", short1(errText(err))) },
			Finally:   func(rx.SignalType) { a.got.add("finally") },
		})
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	if c.Input {
		h.RequestChannel(bg, request(r), r.in.flux()).Subscribe(faultSub(&r.got, 0, 0, nil))
	} else {
		h.RequestStream(bg, request(r)).Subscribe(faultSub(&r.got, 0, 0, nil))
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	for _, a := range answers {
		a.open()
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	if m := l.failure(); m != "" {
		return errors.New(m)
	}
	if got := log.get(); len(got) != c.At+1 || src.running() {
		// It is slow to ask, or the source has not got to send everything.
		return fmt.Errorf("the receiver of a stream is busy with item %d, but has seen %q (source running: %v)", c.At, got, src.running())
	}
	endLink(l, srv, c.End, 0, true)
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	release()
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	ctx.NonTrivialIf(c.At < c.Items-1)
	ctx.Label("%s", c.End)
	if got, want := log.get(), faultItems(src, false, 0); !sameEvents(got, want) {
		return fmt.Errorf("all of a stream had arrived when the connection ended (%s), but its receiver, busy until then, sees %q, want %q", c.End, got, want)
	}
	for _, a := range answers {
		if got, want := a.got.get(), []string{"next " + a.answer(), "complete", "finally"}; !sameEvents(got, want) {
			return fmt.Errorf("an answer had arrived when the connection ended (%s), but its caller sees %q, want %q", c.End, got, want)
		}
	}
	return nil
}
