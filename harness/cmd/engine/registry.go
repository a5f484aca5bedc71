package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ S07

// fakeStream stands in for a registered stream.
type fakeStream struct {
	id  uint32
	gen int
}

func (s *fakeStream) Context() context.Context { return context.Background() }
func (s *fakeStream) StreamID() uint32         { return s.id }
func (s *fakeStream) OnNext(payload.Payload)   {}
func (s *fakeStream) OnComplete()              {}
func (s *fakeStream) OnError(error)            {}

// LookOp is one operation on the registry.
type LookOp struct {
	Op string // add, remove, get
	ID int    // index into the ids of the worker
}

// LookCase is a history of registry operations, per worker. Worker w uses the
// ids w+1, w+1+n, w+1+2n ... so that their streams interleave in the registry.
type LookCase struct {
	Wide    bool // spread the ids over all 32 bits
	Workers [][]LookOp
}

func genLook(max int) func(t *rapid.T) LookCase {
	return func(t *rapid.T) LookCase {
		c := LookCase{Wide: rapid.Bool().Draw(t, "wide")}
		n := rapid.IntRange(1, max).Draw(t, "workers")
		if max > 1 && n < 2 {
			n = 2
		}
		k := rapid.IntRange(1, 8).Draw(t, "ids")
		for i := 0; i < n; i++ {
			c.Workers = append(c.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) LookOp {
				return LookOp{
					Op: rapid.SampledFrom([]string{"add", "add", "add", "remove", "remove", "get"}).Draw(t, "op"),
					ID: rapid.IntRange(0, k-1).Draw(t, "id"),
				}
			}), 1, 40).Draw(t, "ops"))
		}
		return c
	}
}

func (c *LookCase) id(w, i int) uint32 {
	id := uint32(w + 1 + i*len(c.Workers))
	if c.Wide {
		id *= 0x9e3779b1 // odd, so still one to one
	}
	return id
}

func checkLook(ctx *kit.Ctx, c LookCase) error {
	var l proxy.Lookup
	models := make([]map[uint32]*fakeStream, len(c.Workers))
	sweep := func(w int) error {
		for i := 0; i < 8; i++ {
			id := c.id(w, i)
			got, ok := l.Get(id)
			want := models[w][id]
			switch {
			case want == nil && ok:
				return fmt.Errorf("stream %d is found (as the stream added as %+v) although it is not in the registry", id, got)
			case want != nil && !ok:
				return fmt.Errorf("stream %d is not found although it was added and not removed", id)
			case want != nil && got != proxy.Stream(want):
				return fmt.Errorf("looking up stream %d finds another stream: %+v, want %+v", id, got, want)
			}
		}
		return nil
	}
	removals := make([]int, len(c.Workers))
	work := func(w int) error {
		m := map[uint32]*fakeStream{}
		models[w] = m
		for n, o := range c.Workers[w] {
			id := c.id(w, o.ID)
			switch o.Op {
			case "add":
				if m[id] == nil { // ids are not shared by live streams
					m[id] = &fakeStream{id: id, gen: n}
					l.Add(m[id])
				}
			case "remove":
				if m[id] != nil {
					removals[w]++
				}
				l.Remove(id)
				delete(m, id)
			}
			if err := sweep(w); err != nil {
				return fmt.Errorf("worker %d, step %d (%s %d): %w", w, n, o.Op, id, err)
			}
		}
		return nil
	}
	errs := make([]error, len(c.Workers))
	if len(c.Workers) == 1 {
		errs[0] = work(0)
	} else {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range c.Workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				// A panic is handed to the case's own goroutine.
				if err := kit.Catch(func() { errs[w] = work(w) }); err != nil {
					errs[w] = err
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	total := 0
	for w := range c.Workers {
		if errs[w] != nil {
			return errs[w]
		}
		if err := sweep(w); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		total += removals[w]
	}
	ctx.NonTrivialIf(total > 0)
	return nil
}

var S07 = &kit.Property{
	ID:          "S07",
	Rule:        "at least one stream that was in the registry was removed",
	Assumptions: []string{"the ids of streams registered at the same time are distinct, as stream ids are", "concurrent histories rely on the Go scheduler; every worker checks its own streams, which interleave in the registry with those of the others"},
	Facets: []kit.Facet{
		kit.F("histories", 400000, 8000000, genLook(1), checkLook),
		kit.F("concurrent histories", 150000, 3000000, genLook(6), checkLook),
	},
}

// ------------------------------------------------------------------ S08

// QOp is one operation on the queue: put, take (and load), takeonly, load or
// dispose.
type QOp struct{ Op string }

// QueueCase is a single-goroutine history.
type QueueCase struct{ Ops []string }

func genQueue(t *rapid.T) QueueCase {
	ops := []string{"put", "put", "put", "take", "take", "takeonly", "load"}
	return QueueCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 24).Draw(t, "dispose") == 0 {
			return "dispose"
		}
		return rapid.SampledFrom(ops).Draw(t, "op")
	}), 1, 80).Draw(t, "ops")}
}

func checkQueue(ctx *kit.Ctx, c QueueCase) error {
	q := buffer.NewUnbounded[int]()
	var want []int // accepted and not yet taken
	next, owed, most := 0, 0, 0
	disposed, closed := false, false
	take := func(when string) error {
		select {
		case v, ok := <-q.Get():
			if !ok {
				closed = true
				if !disposed {
					return fmt.Errorf("%s: the queue is closed but nobody closed it", when)
				}
				if len(want) > 0 {
					return fmt.Errorf("%s: the queue is closed with %d values not delivered (%v)", when, len(want), want)
				}
				return nil
			}
			if len(want) == 0 {
				return fmt.Errorf("%s: the queue yields %d, but everything put has been taken", when, v)
			}
			if v != want[0] {
				return fmt.Errorf("%s: the queue yields %d, want %d", when, v, want[0])
			}
			want = want[1:]
			owed++
		default:
			if len(want) > 0 && owed == 0 {
				return fmt.Errorf("%s: the queue yields nothing although it holds %v", when, want)
			}
			if disposed && len(want) == 0 && owed == 0 {
				return fmt.Errorf("%s: a reader of the closed and empty queue would wait forever", when)
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("step %d (%s)", i, op)
		switch op {
		case "put":
			ok := q.Put(next)
			if ok == disposed {
				return fmt.Errorf("%s: Put returns %v, closed is %v", when, ok, disposed)
			}
			if ok {
				want = append(want, next)
			}
			next++
		case "take", "takeonly":
			if closed {
				continue
			}
			if err := take(when); err != nil {
				return err
			}
			if op == "take" {
				q.Load()
				owed = 0
			}
		case "load":
			q.Load()
			owed = 0
		case "dispose":
			q.Dispose()
			disposed = true
		}
		most = max(most, len(want))
	}
	ctx.NonTrivialIf(most > 1)
	if disposed {
		ctx.Label("closed")
	}
	q.Load()
	owed = 0
	for len(want) > 0 || disposed && !closed {
		n := len(want)
		if err := take("draining"); err != nil {
			return err
		}
		if closed {
			break
		}
		q.Load()
		owed = 0
		if len(want) == n && n > 0 {
			return fmt.Errorf("draining stops with %v left", want)
		}
	}
	return nil
}

// QRaceCase is a queue under concurrent use.
type QRaceCase struct {
	Producers []int // puts of each
	Readers   int
	Dispose   int // -1: after all puts; otherwise by a goroutine of its own, after that many observed deliveries
	Pre       int // values put before the readers start
}

func genQRace(t *rapid.T) QRaceCase {
	return QRaceCase{
		Producers: rapid.SliceOfN(rapid.IntRange(1, 60), 1, 6).Draw(t, "producers"),
		Readers:   rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "readers"),
		Dispose:   rapid.SampledFrom([]int{-1, -1, 0, 1, 5, 20}).Draw(t, "dispose"),
		Pre:       rapid.IntRange(0, 5).Draw(t, "pre"),
	}
}

type qPut struct {
	before, after int64
	ok            bool
}

func checkQRace(ctx *kit.Ctx, c QRaceCase) error {
	q := buffer.NewUnbounded[[2]int]()
	var clock, delivered atomic.Int64
	puts := make([][]qPut, len(c.Producers)+1)
	var disposedAt atomic.Int64
	put := func(p, n int) {
		b := clock.Add(1)
		ok := q.Put([2]int{p, n})
		puts[p] = append(puts[p], qPut{b, clock.Add(1), ok})
	}
	for n := 0; n < c.Pre; n++ {
		put(len(c.Producers), n)
	}
	var mu sync.Mutex
	var got [][2]int
	readers, late := 0, 0
	start := make(chan struct{})
	var wg sync.WaitGroup
	for r := 0; r < c.Readers; r++ {
		go func() {
			<-start
			for v := range q.Get() {
				mu.Lock()
				got = append(got, v)
				mu.Unlock()
				delivered.Add(1)
				q.Load()
			}
			mu.Lock()
			readers++
			mu.Unlock()
		}()
	}
	for p, n := range c.Producers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < n; i++ {
				put(p, i)
			}
		}()
	}
	dispose := func() {
		q.Dispose()
		disposedAt.Store(clock.Add(1))
	}
	if c.Dispose >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; delivered.Load() < int64(c.Dispose) && i < 2000; i++ {
				runtime.Gosched()
			}
			dispose()
		}()
	}
	close(start)
	wg.Wait()
	if c.Dispose < 0 {
		dispose()
	}
	if q.Put([2]int{-1, -1}) {
		late++
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	mu.Lock()
	defer mu.Unlock()
	if late > 0 {
		return fmt.Errorf("a value put after the queue was closed is accepted")
	}
	if readers != c.Readers {
		return fmt.Errorf("%d of %d readers still wait after the queue was closed", c.Readers-readers, c.Readers)
	}
	pos := map[[2]int]int{}
	for i, v := range got {
		if v[0] < 0 {
			return fmt.Errorf("a value put after the queue was closed is delivered")
		}
		if _, dup := pos[v]; dup {
			return fmt.Errorf("value %v is delivered twice", v)
		}
		pos[v] = i
	}
	type accepted struct {
		qPut
		pos int
	}
	var acc []accepted
	for p := range puts {
		for n, o := range puts[p] {
			at, ok := pos[[2]int{p, n}]
			switch {
			case o.ok && !ok:
				return fmt.Errorf("value %d of producer %d was accepted but never delivered", n, p)
			case !o.ok && ok:
				return fmt.Errorf("value %d of producer %d was refused but is delivered", n, p)
			case o.ok && disposedAt.Load() > 0 && o.before > disposedAt.Load():
				return fmt.Errorf("value %d of producer %d is accepted after the queue was closed", n, p)
			}
			if o.ok {
				acc = append(acc, accepted{o, at})
			}
		}
	}
	if c.Readers == 1 {
		// A put that returned before another began comes out first.
		sort.Slice(acc, func(i, j int) bool { return acc[i].pos < acc[j].pos })
		least := int64(math.MaxInt64)
		for i := len(acc) - 1; i >= 0; i-- {
			if least < acc[i].before {
				return fmt.Errorf("a value comes out although another, put before it, is still in the queue (positions %v)", acc[i].pos)
			}
			least = min(least, acc[i].after)
		}
	}
	ctx.NonTrivialIf(len(got) > 2 && (len(c.Producers) > 1 || c.Dispose >= 0))
	ctx.Label("readers %d", c.Readers)
	return nil
}

var S08 = &kit.Property{
	ID:   "S08",
	Rule: "at least two values were held at once (histories); more than two values went through with several producers or a concurrent close (races)",
	Assumptions: []string{
		"readers call Load after every value they take, as documented; until they do, an empty read is allowed",
		"order is judged with one reader: a put that returned before another began must come out first",
	},
	Facets: []kit.Facet{
		kit.F("histories", 400000, 8000000, genQueue, checkQueue),
		kit.F("races", 100000, 2000000, genQRace, checkQRace),
		kit.F("backlogs", 300, 5000, genFill, checkFill).WithBatch(50),
	},
}

// ------------------------------------------------------------------ S09

// RegOp is one registration.
type RegOp struct {
	Import bool
	Kind   int // 0 request/response, 1 fire and forget, 2 stream, 3 channel
	NS, Op string
}

// RegCase is a history of registrations followed by dispatched requests.
type RegCase struct {
	Ops   []RegOp
	Calls []RegCall
}

// RegCall addresses an operation by id: the (Pick modulo n)-th exported one of
// its kind, or an id nobody has.
type RegCall struct {
	Kind    int
	Pick    int
	Unknown uint32 // if not zero: that far above the last id
	Top     bool   // the largest id there is
	Data    []byte
}

var (
	regNS = []string{"", "a", "ab", "a.b", "a\x00"}
	regOp = []string{"", "c", "bc", "b.c", "b", "\x00c"}
)

func genReg(t *rapid.T) RegCase {
	return RegCase{
		Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RegOp {
			return RegOp{
				Import: rapid.Bool().Draw(t, "import"),
				Kind:   rapid.IntRange(0, 3).Draw(t, "kind"),
				NS:     rapid.SampledFrom(regNS).Draw(t, "ns"),
				Op:     rapid.SampledFrom(regOp).Draw(t, "op"),
			}
		}), 1, 30).Draw(t, "ops"),
		Calls: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RegCall {
			c := RegCall{
				Kind: rapid.IntRange(0, 3).Draw(t, "kind"),
				Pick: rapid.IntRange(0, 30).Draw(t, "pick"),
				Data: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "data"),
			}
			switch rapid.IntRange(0, 5).Draw(t, "unknown") {
			case 0:
				c.Unknown = uint32(rapid.IntRange(1, 5).Draw(t, "above"))
			case 1:
				c.Top = true
			}
			return c
		}), 0, 8).Draw(t, "calls"),
	}
}

var regCase atomic.Int64

func checkReg(ctx *kit.Ctx, c RegCase) error {
	// The registries belong to the process; names of this case are its own.
	uniq := fmt.Sprintf("case%d|", regCase.Add(1))
	type key struct {
		kind   int
		ns, op string
	}
	var mu sync.Mutex
	ran := map[string]int{} // handler name+data
	note := func(k key, p payload.Payload) {
		mu.Lock()
		defer mu.Unlock()
		ran[fmt.Sprintf("%d %q %q %x", k.kind, k.ns, k.op, p.Data())]++
	}
	lists := func(h invoke.Handlers) [][]invoke.HandlerInfo {
		return [][]invoke.HandlerInfo{h.RequestResponse, h.FireAndForget, h.RequestStream, h.RequestChannel}
	}
	base := lists(invoke.GetOperations().Exported)
	imports := map[key]uint32{}
	exports := make([][]key, 4)
	exported := map[key]bool{}
	registerImport := []func(ns, op string) uint32{invoke.ImportRequestResponse, invoke.ImportFireAndForget, invoke.ImportRequestStream, invoke.ImportRequestChannel}
	registerExport := []func(k key){
		func(k key) {
			invoke.ExportRequestResponse(k.ns, k.op, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				note(k, p)
				return mono.Just[payload.Payload](payload.New([]byte("answer of " + k.ns + "/" + k.op)))
			})
		},
		func(k key) {
			invoke.ExportFireAndForget(k.ns, k.op, func(_ context.Context, p payload.Payload) { note(k, p) })
		},
		func(k key) {
			invoke.ExportRequestStream(k.ns, k.op, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				note(k, p)
				return flux.FromSlice([]payload.Payload{payload.New([]byte("answer of " + k.ns + "/" + k.op))})
			})
		},
		func(k key) {
			invoke.ExportRequestChannel(k.ns, k.op, func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				note(k, p)
				in.Subscribe(flux.Subscribe[payload.Payload]{})
				return flux.FromSlice([]payload.Payload{payload.New([]byte("answer of " + k.ns + "/" + k.op))})
			})
		},
	}
	verify := func(when string) error {
		ops := invoke.GetOperations()
		imp, exp := lists(ops.Imported), lists(ops.Exported)
		ids := map[[2]uint32]key{}
		for k, id := range imports {
			if other, dup := ids[[2]uint32{uint32(k.kind), id}]; dup {
				return fmt.Errorf("%s: the imports %q/%q and %q/%q have the same id %d", when, k.ns, k.op, other.ns, other.op, id)
			}
			ids[[2]uint32{uint32(k.kind), id}] = k
			if int64(id) >= int64(len(imp[k.kind])) {
				return fmt.Errorf("%s: import %q/%q has id %d, the table lists %d imports", when, k.ns, k.op, id, len(imp[k.kind]))
			}
			if info := imp[k.kind][id]; info.Namespace != k.ns || info.Operation != k.op {
				return fmt.Errorf("%s: import %q/%q has id %d, at which the table lists %q/%q", when, k.ns, k.op, id, info.Namespace, info.Operation)
			}
			if again := registerImport[k.kind](k.ns, k.op); again != id {
				return fmt.Errorf("%s: importing %q/%q again gives id %d instead of %d", when, k.ns, k.op, again, id)
			}
		}
		for kind := range exports {
			if len(exp[kind]) != len(base[kind])+len(exports[kind]) {
				return fmt.Errorf("%s: the table lists %d exports of kind %d, want %d", when, len(exp[kind]), kind, len(base[kind])+len(exports[kind]))
			}
			for n, k := range exports[kind] {
				if info := exp[kind][len(base[kind])+n]; info.Namespace != k.ns || info.Operation != k.op {
					return fmt.Errorf("%s: export %d of kind %d is listed as %q/%q, want %q/%q", when, n, kind, info.Namespace, info.Operation, k.ns, k.op)
				}
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		k := key{o.Kind, uniq + o.NS, o.Op}
		if o.Import {
			id := registerImport[o.Kind](k.ns, k.op)
			if was, ok := imports[k]; ok && was != id {
				return fmt.Errorf("step %d: importing %q/%q again gives id %d instead of %d", i, k.ns, k.op, id, was)
			}
			imports[k] = id
		} else if !exported[k] {
			exported[k] = true
			exports[o.Kind] = append(exports[o.Kind], k)
			registerExport[o.Kind](k)
		}
		if err := verify(fmt.Sprintf("step %d", i)); err != nil {
			return err
		}
	}
	// Dispatch through the protocol engine.
	h := handler.New(context.Background(), handler.ServerMode)
	var sent []frames.Frame
	h.SetFrameSender(func(f frames.Frame) error {
		mu.Lock()
		defer mu.Unlock()
		sent = append(sent, f)
		return nil
	})
	dispatched := 0
	for i, call := range c.Calls {
		n := len(exports[call.Kind])
		id := uint32(len(base[call.Kind]) + n)
		var want *key
		switch {
		case call.Top:
			id = math.MaxUint32
		case call.Unknown > 0:
			id += call.Unknown - 1
		case n > 0:
			id -= uint32(n - call.Pick%n)
			want = &exports[call.Kind][call.Pick%n]
			dispatched++
		}
		mu.Lock()
		sent, ran = nil, map[string]int{}
		mu.Unlock()
		stream := uint32(2*i + 1)
		f := &frames.RequestPayload{
			FrameType: []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}[call.Kind],
			StreamID:  stream,
			Data:      call.Data,
			Metadata:  binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, id), 0),
			InitialN:  10,
			Complete:  call.Kind == 3,
		}
		if err := h.HandleFrame(f); err != nil {
			return fmt.Errorf("dispatching id %d of kind %d fails: %v", id, call.Kind, err)
		}
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return ctx.Inconclusive("%v", err)
		}
		mu.Lock()
		var answers, errs []string
		for _, f := range sent {
			if f.GetStreamID() != stream {
				mu.Unlock()
				return fmt.Errorf("a request on stream %d is answered on stream %d", stream, f.GetStreamID())
			}
			switch f := f.(type) {
			case *frames.Payload:
				if f.Next {
					answers = append(answers, string(f.Data))
				}
			case *frames.Error:
				errs = append(errs, f.Data)
			}
		}
		got := fmt.Sprint(ran)
		mu.Unlock()
		if want == nil {
			if got != "map[]" {
				return fmt.Errorf("id %d of kind %d names no operation, but runs %s", id, call.Kind, got)
			}
			if len(errs) != 1 || errs[0] != "not_found" || len(answers) > 0 {
				return fmt.Errorf("id %d of kind %d names no operation, but is answered with %q and the errors %q", id, call.Kind, answers, errs)
			}
			ctx.Label("unknown id")
			continue
		}
		exp := fmt.Sprint(map[string]int{fmt.Sprintf("%d %q %q %x", want.kind, want.ns, want.op, call.Data): 1})
		if got != exp {
			return fmt.Errorf("dispatching id %d of kind %d runs %s, want %s", id, call.Kind, got, exp)
		}
		if call.Kind != 1 && (len(errs) > 0 || len(answers) != 1 || answers[0] != "answer of "+want.ns+"/"+want.op) {
			return fmt.Errorf("dispatching id %d (%q/%q) is answered with %q and the errors %q", id, want.ns, want.op, answers, errs)
		}
		if call.Kind == 1 && len(sent) > 0 {
			return fmt.Errorf("a fire-and-forget request is answered with %v", sent)
		}
	}
	ctx.NonTrivialIf(len(imports) > 1 && dispatched > 0)
	return nil
}

var S09 = &kit.Property{
	ID:   "S09",
	Rule: "at least two operations were imported and one exported operation was dispatched",
	Assumptions: []string{
		"an operation is exported once per interaction kind",
		"registration happens in one goroutine, as generated code does it at start-up",
		"the registries are global to the process; each case uses names of its own",
	},
	Facets: []kit.Facet{kit.F("registrations", 100000, 1500000, genReg, checkReg).WithBatch(200)},
}

// ------------------------------------------------------------------ M02

// HandleOp is one operation on a handle table.
type HandleOp struct {
	Op    string // put, encode, get, remove, gc
	Table int
	Pick  int // which handle of the history
	Delta int // added to it: handles never issued
}

// HandleCase is a history of operations, per worker.
type HandleCase struct {
	Workers [][]HandleOp
}

func genHandles(max int) func(t *rapid.T) HandleCase {
	return func(t *rapid.T) HandleCase {
		n := 1
		if max > 1 {
			n = rapid.IntRange(2, max).Draw(t, "workers")
		}
		c := HandleCase{}
		for i := 0; i < n; i++ {
			c.Workers = append(c.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) HandleOp {
				o := HandleOp{
					Op:    rapid.SampledFrom([]string{"put", "put", "put", "encode", "get", "get", "remove", "remove"}).Draw(t, "op"),
					Table: rapid.IntRange(0, 1).Draw(t, "table"),
					Pick:  rapid.IntRange(0, 40).Draw(t, "pick"),
				}
				if rapid.IntRange(0, 5).Draw(t, "offset") == 0 {
					o.Delta = rapid.SampledFrom([]int{1, -1, 8, 16, 1000, 1 << 32}).Draw(t, "delta")
				}
				if rapid.IntRange(0, 30).Draw(t, "gc") == 0 {
					o.Op = "gc"
				}
				return o
			}), 1, 40).Draw(t, "ops"))
		}
		return c
	}
}

type thing struct{ name int }

func checkHandles(ctx *kit.Ctx, c HandleCase) error {
	tables := []*invoke.LiveInstances[*thing]{invoke.NewLiveInstances[*thing](), invoke.NewLiveInstances[*thing]()}
	enc := []func(*thing) (payload.Payload, error){transform.InterfaceEncode(tables[0]), transform.InterfaceEncode(tables[1])}
	var issuedMu sync.Mutex
	issued := map[uint64]string{}
	names := 0
	issue := func(h uint64, by string) error {
		issuedMu.Lock()
		defer issuedMu.Unlock()
		if was, dup := issued[h]; dup {
			return fmt.Errorf("handle %d, issued for %s, is issued again for %s", h, was, by)
		}
		issued[h] = by
		return nil
	}
	wasIssued := func(h uint64) bool {
		issuedMu.Lock()
		defer issuedMu.Unlock()
		_, ok := issued[h]
		return ok
	}
	newThing := func() *thing {
		issuedMu.Lock()
		defer issuedMu.Unlock()
		names++
		return &thing{names}
	}
	stale := make([]int, len(c.Workers))
	work := func(w int) error {
		type entry struct {
			table int
			h     uint64
		}
		var hist []entry
		live := map[entry]*thing{}
		for i, o := range c.Workers[w] {
			when := fmt.Sprintf("worker %d, step %d (%s)", w, i, o.Op)
			t := tables[o.Table]
			pick := func() (entry, bool) {
				if len(hist) == 0 {
					return entry{o.Table, uint64(o.Delta)}, o.Delta == 0
				}
				e := hist[o.Pick%len(hist)]
				return entry{o.Table, e.h + uint64(o.Delta)}, o.Delta == 0
			}
			switch o.Op {
			case "put", "encode":
				x := newThing()
				var h uint64
				if o.Op == "put" {
					h = t.Put(x)
				} else {
					p, err := enc[o.Table](x)
					if err != nil {
						return fmt.Errorf("%s: %v", when, err)
					}
					d := msgpack.NewDecoder(p.Data())
					if h, err = d.ReadUint64(); err != nil {
						return fmt.Errorf("%s: the payload %x holds no handle: %v", when, p.Data(), err)
					}
				}
				if err := issue(h, fmt.Sprintf("instance %d", x.name)); err != nil {
					return err
				}
				hist = append(hist, entry{o.Table, h})
				live[entry{o.Table, h}] = x
			case "get", "remove":
				e, own := pick()
				if !own && wasIssued(e.h) && live[e] == nil && len(c.Workers) > 1 {
					continue // perhaps a live one of another worker
				}
				var got *thing
				var ok bool
				if o.Op == "get" {
					got, ok = t.Get(e.h)
				} else if !own && len(c.Workers) > 1 {
					continue
				} else {
					got, ok = t.Remove(e.h)
				}
				want := live[e]
				switch {
				case want == nil && ok && len(c.Workers) > 1 && !own:
					// Issued by another worker in between.
				case want == nil && ok:
					return fmt.Errorf("%s: handle %d resolves to instance %d, but is not live", when, e.h, got.name)
				case want != nil && (!ok || got != want):
					return fmt.Errorf("%s: handle %d of the live instance %d resolves to %v, %v", when, e.h, want.name, got, ok)
				}
				if want == nil {
					stale[w]++
				}
				if o.Op == "remove" {
					delete(live, e)
				}
			case "gc":
				runtime.GC()
			}
		}
		// Everything that is live resolves, everything else of the history does not.
		for _, e := range hist {
			for ti := range tables {
				got, ok := tables[ti].Get(e.h)
				want := live[entry{ti, e.h}]
				if ok != (want != nil) || ok && got != want {
					return fmt.Errorf("worker %d: at the end handle %d resolves to %v, %v in table %d, want %v", w, e.h, got, ok, ti, want)
				}
			}
		}
		return nil
	}
	errs := make([]error, len(c.Workers))
	if len(c.Workers) == 1 {
		errs[0] = work(0)
	} else {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range c.Workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if err := kit.Catch(func() { errs[w] = work(w) }); err != nil {
					errs[w] = err
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	n := 0
	for w, err := range errs {
		if err != nil {
			return err
		}
		n += stale[w]
	}
	ctx.NonTrivialIf(n > 0 && len(issued) > 0)
	return nil
}

var M02 = &kit.Property{
	ID:          "M02",
	Rule:        "at least one instance was stored, and a handle that is stale, never issued or of another table was looked up",
	Assumptions: []string{"concurrent histories rely on the Go scheduler; each worker uses the handles it was issued"},
	Facets: []kit.Facet{
		kit.F("histories", 10000, 150000, genHandles(1), checkHandles),
		kit.F("concurrent histories", 10000, 150000, genHandles(6), checkHandles),
	},
}

// ------------------------------------------------------------------ M03

// PortCase is a port message.
type PortCase struct {
	Port           string
	Fill           int // length of a long port name instead of Port
	Data           []byte
	Complete, Next bool
	Dirty          bool // decode into a value already in use
}

func genPort(t *rapid.T) PortCase {
	c := PortCase{
		Port:     rapid.SampledFrom([]string{"", "in", "out", "\x00", "port é", strings.Repeat("p", 255), strings.Repeat("p", 256)}).Draw(t, "port"),
		Data:     rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data"),
		Complete: rapid.Bool().Draw(t, "complete"),
		Next:     rapid.Bool().Draw(t, "next"),
		Dirty:    rapid.Bool().Draw(t, "dirty"),
	}
	switch rapid.IntRange(0, 5).Draw(t, "long") {
	case 0:
		c.Fill = rapid.IntRange(1, 65535).Draw(t, "fill")
	case 1:
		c.Port = rapid.String().Draw(t, "name")
	}
	return c
}

func checkPort(ctx *kit.Ctx, c PortCase) error {
	port := c.Port
	if c.Fill > 0 {
		port = strings.Repeat("q", c.Fill)
	}
	in := invoke.PortIO{Port: port, Data: c.Data, Complete: c.Complete, Next: c.Next}
	b := in.Encode()
	var out invoke.PortIO
	if c.Dirty {
		out = invoke.PortIO{Port: "old", Data: []byte("old"), Complete: !c.Complete, Next: !c.Next}
	}
	orig := bytes.Clone(b)
	if err := out.Decode(b); err != nil {
		return fmt.Errorf("decoding an encoded message fails: %v", err)
	}
	if out.Port != port || !bytes.Equal(out.Data, c.Data) || out.Complete != c.Complete || out.Next != c.Next {
		return fmt.Errorf("port %q data %x complete %v next %v is decoded as port %q data %x complete %v next %v", clip(port), c.Data, c.Complete, c.Next, clip(out.Port), out.Data, out.Complete, out.Next)
	}
	if !bytes.Equal(orig, b) {
		return fmt.Errorf("decoding changes its input")
	}
	// Any cut before the data loses part of the header or the name.
	head := 3 + len(port)
	step := max(1, head/300)
	for n := 0; n < head; n += step {
		var p invoke.PortIO
		if err := p.Decode(b[:n:n]); err == nil {
			return fmt.Errorf("the first %d bytes of a message whose header and name take %d are accepted as %+v", n, head, p)
		}
	}
	ctx.NonTrivialIf(len(port) > 0 && (c.Complete != c.Next || len(c.Data) > 0))
	ctx.Label("complete %v next %v", c.Complete, c.Next)
	return nil
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// PortBytes is arbitrary input of the decoder.
type PortBytes struct{ Data []byte }

func genPortBytes(t *rapid.T) PortBytes {
	b := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
	if len(b) >= 3 && rapid.Bool().Draw(t, "fits") {
		binary.BigEndian.PutUint16(b[1:], uint16(rapid.IntRange(0, len(b)).Draw(t, "len")))
	}
	return PortBytes{b}
}

func checkPortBytes(ctx *kit.Ctx, c PortBytes) error {
	var p invoke.PortIO
	err := p.Decode(c.Data)
	ok := len(c.Data) >= 3 && len(c.Data)-3 >= int(binary.BigEndian.Uint16(c.Data[1:]))
	if ok != (err == nil) {
		return fmt.Errorf("decoding %x returns the error %v, well-formed is %v", c.Data, err, ok)
	}
	ctx.NonTrivialIf(len(c.Data) >= 3)
	if !ok {
		ctx.Label("malformed")
		return nil
	}
	n := int(binary.BigEndian.Uint16(c.Data[1:]))
	if p.Port != string(c.Data[3:3+n]) || !bytes.Equal(p.Data, c.Data[3+n:]) {
		return fmt.Errorf("%x is decoded as port %q data %x", c.Data, p.Port, p.Data)
	}
	// What was understood survives another trip.
	var q invoke.PortIO
	if err := q.Decode(p.Encode()); err != nil || q.Port != p.Port || !bytes.Equal(q.Data, p.Data) || q.Complete != p.Complete || q.Next != p.Next {
		return fmt.Errorf("%x is decoded as %+v, which comes back as %+v (%v)", c.Data, p, q, err)
	}
	return nil
}

var M03 = &kit.Property{
	ID:          "M03",
	Rule:        "the message has a port name and one flag or data (round trips); the input has at least a header (arbitrary bytes)",
	Assumptions: []string{"port names are at most 65535 bytes long, as the format can express"},
	Facets: []kit.Facet{
		kit.F("round trips", 200000, 5000000, genPort, checkPort),
		kit.F("arbitrary bytes", 400000, 10000000, genPortBytes, checkPortBytes),
	},
}
