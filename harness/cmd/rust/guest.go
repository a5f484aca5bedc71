package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// The kinds of operations.
const (
	kRR = 1 + iota
	kFNF
	kRS
	kRC
)

var requestType = map[byte]int{kRR: rs.TRequestResponse, kFNF: rs.TRequestFNF, kRS: rs.TRequestStream, kRC: rs.TRequestChannel}

const manyItems = 0x7fffffff

// GuestHandler is a handler of the guest.
//
//	fail     it returns an error
//	reply    its output is Items and, for channels, its input is dropped
//	echo     its output is its input
//	collect  (channels) its output is all of its input as one item
//	forward  it calls the host and passes on what comes of that
type GuestHandler struct {
	Kind  byte
	Mode  string
	Items []gen.Blob
	Error string // how its output ends, if not well
	Task  bool   // whether its output comes from a task of its own
}

// GuestOp is something that the host does. A, counted from the newest, says
// with which call.
type GuestOp struct {
	Op       string
	A        int
	Data     gen.Blob
	Kind     byte // of what is called
	Bare     bool // without metadata
	Complete bool
	N        uint32
	Send     bool // the frames there are are handed to the guest now
}

// GuestCase is the life of a guest.
type GuestCase struct {
	Guest, Host int // sizes of the buffers
	Handlers    []GuestHandler
	Ops         []GuestOp
}

func genGuest(t *rapid.T) GuestCase {
	c := GuestCase{
		Guest: rapid.SampledFrom([]int{200, 256, 600, 2000}).Draw(t, "guest"),
		Host:  rapid.SampledFrom([]int{64, 64, 100, 256, 256, 1000}).Draw(t, "host"),
	}
	blob := func(n string) gen.Blob {
		if rapid.IntRange(0, 6).Draw(t, n+"-edge") == 0 { // about what fits
			return gen.Blob{Head: []byte{7}, Rep: max(0, c.Host-6-3-1-rapid.IntRange(-4, 24).Draw(t, n)), Fill: 'f'}
		}
		return gen.Blob{Head: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, n)}
	}
	c.Handlers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) GuestHandler {
		h := GuestHandler{Kind: byte(rapid.SampledFrom([]int{kRR, kFNF, kRS, kRS, kRC, kRC, kRC}).Draw(t, "kind")), Mode: "reply"}
		h.Mode = rapid.SampledFrom([]string{"forward", "forward", "forward", "forward", "echo", "collect", "reply", "fail"}).Draw(t, "mode")
		if h.Mode == "collect" && h.Kind != kRC {
			h.Mode = "echo"
		}
		for range rapid.IntRange(0, 3).Draw(t, "items") {
			h.Items = append(h.Items, blob("item"))
		}
		if h.Mode == "fail" || rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			h.Error = rapid.SampledFrom([]string{"broken", "x", "no such thing"}).Draw(t, "error")
		}
		h.Task = rapid.Bool().Draw(t, "task")
		return h
	}), 1, 5).Draw(t, "handlers")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) GuestOp {
		o := GuestOp{Op: rapid.SampledFrom([]string{"open", "open", "open", "item", "item", "item", "end", "error", "cancel", "demand",
			"answer", "answer", "answer", "answer-end", "answer-error", "answer-cancel", "answer-demand", "answer-demand", "stray"}).Draw(t, "op")}
		o.A = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 5}).Draw(t, "a")
		o.Kind = byte(rapid.IntRange(kRR, kRC).Draw(t, "kind"))
		if len(o.Op) > 5 && o.Op[:6] == "answer" || o.Op == "open" || o.Op == "item" {
			o.Data = blob("data")
		}
		o.Bare = rapid.IntRange(0, 2).Draw(t, "bare") == 0
		if o.Op == "open" {
			o.Bare = rapid.IntRange(0, 19).Draw(t, "bare-open") == 0
		}
		o.Complete = rapid.IntRange(0, 6).Draw(t, "complete") == 0
		o.N = uint32(rapid.SampledFrom([]int{1, 1, 2, 3, 1000, manyItems}).Draw(t, "n"))
		o.Send = rapid.IntRange(0, 2).Draw(t, "send") > 0
		return o
	}), 3, 30).Draw(t, "ops")
	for i := range rapid.IntRange(1, 3).Draw(t, "opens") {
		o := GuestOp{Op: "open", A: rapid.IntRange(0, len(c.Handlers)-1).Draw(t, "first"), Data: blob("first"), N: 1, Send: rapid.Bool().Draw(t, "first-send")}
		c.Ops = slices.Insert(c.Ops, min(i, len(c.Ops)), o)
	}
	return c
}

type driverHandler struct {
	Kind  byte    `json:"kind"`
	NS    string  `json:"ns"`
	Name  string  `json:"name"`
	Mode  string  `json:"mode"`
	Items []hexed `json:"items"`
	Error *string `json:"error"`
	Task  bool    `json:"task"`
}

type guestEvent struct {
	Kind    byte
	Handler int
	Call    int
	What    string
	Index   uint32
	Data    hexed
}

type guestOutcome struct {
	Sent     []hexed
	Overflow *int
	Table    *hexed
	Log      []guestEvent
}

// A wanted is a frame that the guest is to send.
type wanted struct {
	rs.Frame
	any bool // of the frame, only type and flags matter
}

// A gcall is a call between the host and the guest, as the host sees it.
type gcall struct {
	id   uint32
	tag  uint16
	kind byte
	own  bool // the guest's
	h    int  // the handler's index among those of its kind
	hand *GuestHandler

	out  bool // the guest may still send
	in   bool // the host may still send
	lax  bool // what there is to come is open
	more bool // frames beyond those wanted may come: the call has been cut off, or the guest tells that it does not listen
	want []wanted
	got  int // frames that came

	collected []byte
	saw       []string // what the handler observes
	did       []string // what the handler observed
	sawLax    bool

	// Calls of the guest.
	origin *gcall
	call   *gcall // what the handler calls
	seen   bool
	unsent bool // the request does not fit the host's buffer
	demand uint64
	queue  []wanted // input that waits for demand
	first  bool
}

type guestModel struct {
	c     GuestCase
	calls []*gcall // the host's
	owns  []*gcall // the guest's
	next  uint32
	batch []byte
	fresh map[*gcall]bool // calls that the batch concerns
	by    [5][]*GuestHandler
	ids   map[uint32]*gcall
	call  map[int]*gcall // by the driver's numbers

	opened, answered, refused, interacted int
}

func (m *guestModel) fits(f rs.Frame) bool { return len(f.Encode())+3 <= m.c.Host }

// emit has the guest send a frame.
func (m *guestModel) emit(s *gcall, w wanted) {
	if !s.out {
		return
	}
	if !w.any && !m.fits(w.Frame) {
		m.refuse(s, w)
		return
	}
	s.want = append(s.want, w)
	if w.Type == rs.TError || w.Complete {
		s.out = false
		if w.Type == rs.TError && !s.own { // the end, in both directions
			s.in = false
			s.more = true
			s.sawLax = true
		}
	}
}

// refuse ends a call of which a frame does not fit the host's buffer.
func (m *guestModel) refuse(s *gcall, w wanted) {
	m.refused++
	s.more, s.sawLax = true, true
	if s.own {
		request := w.Type != rs.TPayload
		if !request {
			s.want = append(s.want, wanted{rs.Frame{Type: rs.TError}, true})
		} else {
			s.seen, s.unsent = true, true
		}
		s.out, s.in = false, false
		if s.origin.kind != kFNF {
			m.outError(s.origin, "", true)
		}
		return
	}
	m.emit(s, wanted{rs.Frame{Type: rs.TError}, true})
	if s.call != nil {
		s.call.lax, s.call.more = true, true
	}
}

// The output of a handler.

func (m *guestModel) outItem(s *gcall, md, data []byte) {
	f := rs.Frame{Type: rs.TPayload, Next: true, HasMetadata: len(md) > 0, Metadata: md, Data: data, Complete: s.kind == kRR}
	m.emit(s, wanted{f, false})
}

func (m *guestModel) outEnd(s *gcall) {
	m.emit(s, wanted{rs.Frame{Type: rs.TPayload, Complete: true}, false})
}

func (m *guestModel) outError(s *gcall, msg string, any bool) {
	m.emit(s, wanted{rs.Frame{Type: rs.TError, Data: []byte(msg)}, any})
}

func (m *guestModel) items(s *gcall) {
	for _, i := range s.hand.Items {
		m.outItem(s, nil, i.Bytes())
	}
	if s.hand.Error != "" {
		m.outError(s, s.hand.Error, false)
	} else {
		m.outEnd(s)
	}
}

func (s *gcall) see(what string, index uint32, data []byte) {
	s.saw = append(s.saw, fmt.Sprintf("%s of operation %d, %d bytes %x", what, index, len(data), data))
}

func (s *gcall) listens() bool {
	return s.hand != nil && slices.Contains([]string{"echo", "collect", "forward"}, s.hand.Mode)
}

// forward has the guest call the host.
func (m *guestModel) forward(s *gcall, data []byte) {
	c := &gcall{tag: s.tag, kind: s.kind, own: true, origin: s, out: true, in: s.kind != kFNF, demand: 1, first: true}
	s.call = c
	m.owns = append(m.owns, c)
	m.fresh[c] = true
	if s.kind == kRC {
		m.feed(c, wanted{rs.Frame{Type: rs.TPayload, Next: true, Data: data}, false})
		return
	}
	m.emit(c, wanted{m.request(c, data), false})
	if c.out { // nothing but the request
		c.out = false
	}
}

func (m *guestModel) request(c *gcall, data []byte) rs.Frame {
	md := binary.BigEndian.AppendUint32(nil, uint32(1000+c.origin.h))
	f := rs.Frame{Type: requestType[c.kind], HasMetadata: true, Metadata: append(md, 0, 0, 0, 0), Data: data}
	if c.kind == kRS || c.kind == kRC {
		f.N = manyItems
	}
	return f
}

// feed adds to the input of a channel that the guest opened.
func (m *guestModel) feed(c *gcall, w wanted) {
	c.queue = append(c.queue, w)
	m.pump(c)
}

func (m *guestModel) pump(c *gcall) {
	for len(c.queue) > 0 && c.out {
		w := c.queue[0]
		if w.Next {
			if c.demand == 0 {
				return
			}
			c.demand--
			if c.first {
				w.Frame = m.request(c, w.Data)
				c.first = false
			}
		}
		c.queue = c.queue[1:]
		m.emit(c, w)
	}
}

// The input of a channel's handler.

func (m *guestModel) inItem(s *gcall, index uint32, data []byte) {
	if !s.listens() {
		s.more = true
		return
	}
	s.see("item", index, data)
	switch s.hand.Mode {
	case "echo":
		m.outItem(s, nil, data)
	case "collect":
		s.collected = append(s.collected, data...)
	case "forward":
		if s.call == nil {
			m.forward(s, data)
		} else {
			m.feed(s.call, wanted{rs.Frame{Type: rs.TPayload, Next: true, Data: data}, false})
		}
	}
}

func (m *guestModel) inEnd(s *gcall) {
	s.in = false
	if !s.listens() {
		return
	}
	s.see("end", 0, nil)
	switch s.hand.Mode {
	case "echo":
		m.outEnd(s)
	case "collect":
		m.outItem(s, nil, s.collected)
		m.outEnd(s)
	case "forward":
		m.feed(s.call, wanted{rs.Frame{Type: rs.TPayload, Complete: true}, false})
	}
}

func (m *guestModel) inError(s *gcall, msg string) {
	s.in = false
	if !s.listens() {
		return
	}
	s.see("error", 0, []byte(msg))
	if s.hand.Mode == "forward" {
		m.feed(s.call, wanted{rs.Frame{Type: rs.TError}, true})
	} else {
		m.outError(s, msg, false)
	}
}

// put adds frames of a call to those that the guest is handed. It says
// whether they fit its buffer.
func (m *guestModel) put(s *gcall, f rs.Frame) (bool, error) {
	b := f.Encode()
	if len(b)+3 > m.c.Guest {
		return false, nil
	}
	if len(m.batch)+3+len(b) > m.c.Guest {
		if err := m.send(); err != nil {
			return false, err
		}
	}
	m.batch = append(append(m.batch, byte(len(b)>>16), byte(len(b)>>8), byte(len(b))), b...)
	if s != nil {
		m.fresh[s] = true
	}
	return true, nil
}

// send hands the frames to the guest and checks what it sends in turn.
func (m *guestModel) send() error {
	if len(m.batch) == 0 {
		return nil
	}
	var o guestOutcome
	n := len(m.batch)
	_, err := askOf(guestDriver, "step", map[string]any{"data": hexed(m.batch)}, &o)
	m.batch = nil
	if err != nil {
		return fmt.Errorf("being handed %d bytes: %v", n, err)
	}
	m.fresh = map[*gcall]bool{}
	if o.Overflow != nil {
		return fmt.Errorf("the guest writes %d bytes to the host's buffer of %d", *o.Overflow, m.c.Host)
	}
	for _, e := range o.Log {
		s := m.call[e.Call]
		if s == nil && e.What == "item" && len(e.Data) >= 2 {
			if tag := int(binary.BigEndian.Uint16(e.Data)); tag < len(m.calls) {
				s = m.calls[tag]
				if s.kind != e.Kind || s.h != e.Handler {
					return fmt.Errorf("the request of call %d, %s, reaches handler %d of kind %d", tag, s, e.Handler, e.Kind)
				}
				m.call[e.Call] = s
			}
		}
		if s == nil {
			return fmt.Errorf("handler %d of kind %d observes %s %x, which nobody sent", e.Handler, e.Kind, e.What, clip(e.Data))
		}
		s.did = append(s.did, fmt.Sprintf("%s of operation %d, %d bytes %x", e.What, e.Index, len(e.Data), []byte(e.Data)))
	}
	for _, sent := range o.Sent {
		for b := []byte(sent); len(b) > 0; {
			if len(b) < 3 || len(b)-3 < int(b[0])<<16|int(b[1])<<8|int(b[2]) {
				return fmt.Errorf("the guest sends %x, which ends within a frame", clip(sent))
			}
			k := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
			if err := m.take(b[3 : 3+k]); err != nil {
				return err
			}
			b = b[3+k:]
		}
	}
	for _, s := range append(slices.Clone(m.calls), m.owns...) {
		if err := s.complete(); err != nil {
			return err
		}
	}
	return nil
}

func (s *gcall) String() string {
	kind := []string{"", "request/response", "fire and forget", "stream", "channel"}[s.kind]
	by := "the host's"
	if s.own {
		by = fmt.Sprintf("on behalf of call %d, the guest's", s.origin.tag)
	}
	if s.hand != nil {
		return fmt.Sprintf("%s %s to handler %d (%s)", by, kind, s.h, s.hand.Mode)
	}
	return by + " " + kind
}

// take takes a frame from the guest.
func (m *guestModel) take(b []byte) error {
	f, err := rs.Decode(b)
	if err != nil {
		return fmt.Errorf("the guest sends the frame %x: %v", clip(b), err)
	}
	if f.ID == 0 && f.Type == rs.TError {
		return nil // what it says to a frame that is none
	}
	s := m.ids[f.ID]
	if s == nil && f.Type <= rs.TRequestChannel {
		// A call of its own.
		if f.ID == 0 || f.ID%2 != 0 {
			return fmt.Errorf("the guest opens stream %d, which is not its to open", f.ID)
		}
		for _, o := range m.owns {
			if !o.seen && len(f.Data) >= 2 && o.tag == binary.BigEndian.Uint16(f.Data) && requestType[o.kind] == f.Type {
				s, o.seen, o.id = o, true, f.ID
				m.ids[f.ID] = o
				break
			}
		}
	}
	if s == nil && f.ID%2 == 0 && slices.ContainsFunc(m.owns, func(s *gcall) bool { return s.unsent }) {
		return nil // of a call of which the request does not fit
	}
	if s == nil {
		return fmt.Errorf("the guest sends %v of a stream that there is not", f)
	}
	if s.got >= len(s.want) {
		if s.more || s.lax {
			return nil
		}
		return fmt.Errorf("%s, stream %d: the guest sends %v (%x), beyond %d frames it should send", s, s.id, f, clip(f.Data), s.got)
	}
	w := s.want[s.got]
	s.got++
	if s.lax && !w.same(f) {
		s.got = len(s.want)
		return nil
	}
	if !w.same(f) {
		return fmt.Errorf("%s, stream %d: the guest sends %v (%x), not %v (%x), as frame %d", s, s.id, f, clip(f.Data), w.Frame, clip(w.Data), s.got)
	}
	return nil
}

func (w wanted) same(f rs.Frame) bool {
	return w.Type == f.Type && (w.any || w.Type == rs.TRequestN && f.N > 0 ||
		w.Next == f.Next && w.Complete == f.Complete && !f.Follows &&
			bytes.Equal(w.Metadata, f.Metadata) && bytes.Equal(w.Data, f.Data) && w.N <= f.N) ||
		w.Type == rs.TRequestChannel && f.Type == w.Type && bytes.Equal(w.Metadata, f.Metadata) && bytes.Equal(w.Data, f.Data)
}

// complete says what is missing after the guest has run.
func (s *gcall) complete() error {
	if s.got < len(s.want) && !s.lax {
		w := s.want[s.got]
		return fmt.Errorf("%s, stream %d: after %d frames, the guest does not send %v (%x)", s, s.id, s.got, w.Frame, clip(w.Data))
	}
	for i := 0; i < max(len(s.did), len(s.saw)); i++ {
		switch {
		case s.sawLax && (i >= len(s.did) || i >= len(s.saw) || s.did[i] != s.saw[i]):
			return nil
		case i >= len(s.did):
			return fmt.Errorf("%s: the handler does not observe %.200s", s, s.saw[i])
		case i >= len(s.saw):
			return fmt.Errorf("%s: the handler observes %.200s, beyond what was sent", s, s.did[i])
		case s.did[i] != s.saw[i]:
			return fmt.Errorf("%s: the handler observes %.200s, not %.200s", s, s.did[i], s.saw[i])
		}
	}
	return nil
}

// pick is the call of a list that is the a-th from the end among those that
// will do.
func pick(list []*gcall, a int, will func(*gcall) bool) *gcall {
	for _, s := range slices.Backward(list) {
		if will(s) {
			if a == 0 {
				return s
			}
			a--
		}
	}
	return nil
}

const guestDriver = "rustguest-target/debug/guest-driver"

func (m *guestModel) open(o GuestOp) error {
	h, hand := 0, (*GuestHandler)(nil)
	kind := o.Kind
	if o.A < len(m.c.Handlers) {
		hand = &m.c.Handlers[o.A]
		kind = hand.Kind
		h = slices.Index(m.by[kind], hand)
		if h >= 4 {
			return nil
		}
	} else {
		h = len(m.by[kind]) + o.A
	}
	s := &gcall{id: m.next, tag: uint16(len(m.calls)), kind: kind, h: h, hand: hand, out: true, in: kind == kRC}
	f := rs.Frame{Type: requestType[kind], ID: s.id, Data: binary.BigEndian.AppendUint16(nil, s.tag)}
	f.Data = append(f.Data, o.Data.Bytes()...)
	if !o.Bare {
		f.HasMetadata, f.Metadata = true, append(binary.BigEndian.AppendUint32(nil, uint32(h)), 0, 0, 0, 0)
	}
	if kind == kRS || kind == kRC {
		f.N = manyItems
	}
	f.Complete = kind == kRC && o.Complete
	if ok, err := m.put(s, f); !ok {
		return err
	}
	m.next += 2
	m.calls = append(m.calls, s)
	m.ids[s.id] = s
	m.opened++
	if kind == kRC {
		s.want = append(s.want, wanted{rs.Frame{Type: rs.TRequestN}, false})
	}
	if kind == kFNF {
		s.more = true // whether errors are told is open
	}
	if hand == nil || o.Bare {
		s.hand = nil
		m.outError(s, "", true)
		if kind == kFNF {
			s.want = nil
		}
		return nil
	}
	if hand.Mode == "fail" {
		m.outError(s, hand.Error, false)
		if kind == kFNF {
			s.want = nil
		}
		return nil
	}
	switch kind {
	case kRC:
		m.inItem(s, uint32(h), f.Data)
		if hand.Mode == "reply" {
			m.items(s)
		}
		if f.Complete {
			m.inEnd(s)
		}
		return nil
	case kFNF:
		s.out = false
	}
	s.see("item", uint32(h), f.Data)
	switch {
	case hand.Mode == "forward":
		m.forward(s, f.Data)
	case kind == kRR && hand.Error != "":
		m.outError(s, hand.Error, false)
	case kind == kRR && hand.Mode == "echo":
		m.outItem(s, nil, f.Data)
	case kind == kRR:
		var first []byte
		if len(hand.Items) > 0 {
			first = hand.Items[0].Bytes()
		}
		m.outItem(s, nil, first)
	case kind == kRS && hand.Mode == "echo":
		m.outItem(s, nil, f.Data)
		m.outEnd(s)
	case kind == kRS:
		m.items(s)
	}
	return nil
}

func (m *guestModel) do(o GuestOp) error {
	payload := func(s *gcall, md []byte, data []byte, next, complete bool) (bool, error) {
		return m.put(s, rs.Frame{Type: rs.TPayload, ID: s.id, HasMetadata: len(md) > 0, Metadata: md, Data: data, Next: next, Complete: complete})
	}
	index := func(h int) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(h)), 0, 0, 0, 0) }
	sending := func(s *gcall) bool { return s.kind == kRC && s.in }
	answers := func(s *gcall) bool { return s.in && s.seen && s.id != 0 }
	channel := func(s *gcall) bool { return s.kind == kRC && s.seen && s.id != 0 && s.out }
	const msg = "as it were"
	if len(o.Op) >= 6 && o.Op[:6] == "answer" && slices.ContainsFunc(m.owns, func(s *gcall) bool { return !s.seen }) {
		// There are calls that the host has yet to see.
		if err := m.send(); err != nil {
			return err
		}
	}
	switch o.Op {
	case "open":
		return m.open(o)
	case "item", "end":
		s := pick(m.calls, o.A, sending)
		if s == nil {
			return nil
		}
		if o.Op == "end" {
			if ok, err := payload(s, nil, nil, false, true); !ok {
				return err
			}
		} else {
			data := append(binary.BigEndian.AppendUint16(nil, s.tag), o.Data.Bytes()...)
			var md []byte
			if !o.Bare {
				md = index(s.h)
			}
			if ok, err := payload(s, md, data, true, o.Complete); !ok {
				return err
			}
			m.inItem(s, uint32(s.h), data)
			m.interacted++
		}
		if o.Complete || o.Op == "end" {
			m.inEnd(s)
		}
	case "error":
		s := pick(m.calls, o.A, sending)
		if s == nil {
			return nil
		}
		if ok, err := m.put(s, rs.Frame{Type: rs.TError, ID: s.id, Code: 0x201, Data: []byte(msg)}); !ok {
			return err
		}
		m.inError(s, msg)
	case "cancel":
		s := pick(m.calls, o.A, func(s *gcall) bool { return s.out && s.kind != kFNF })
		if s == nil {
			return nil
		}
		// What has not been sent yet need not be.
		s.lax = s.lax || m.fresh[s] || s.kind == kRR || s.call != nil && m.fresh[s.call]
		if ok, err := m.put(s, rs.Frame{Type: rs.TCancel, ID: s.id}); !ok {
			return err
		}
		if s.kind != kRR {
			s.out, s.in, s.sawLax = false, false, true
		}
		if s.call != nil {
			s.call.lax, s.call.more = true, true
		}
	case "demand":
		s := pick(m.calls, o.A, func(s *gcall) bool { return s.out && (s.kind == kRS || s.kind == kRC) })
		if s == nil {
			return nil
		}
		_, err := m.put(s, rs.Frame{Type: rs.TRequestN, ID: s.id, N: o.N})
		return err
	case "answer", "answer-end", "answer-error":
		s := pick(m.owns, o.A, answers)
		if s == nil {
			return nil
		}
		m.answered++
		if o.Op == "answer-error" {
			s.lax = s.lax || m.fresh[s] || m.fresh[s.origin]
			if ok, err := m.put(s, rs.Frame{Type: rs.TError, ID: s.id, Code: 0x201, Data: []byte(msg)}); !ok {
				return err
			}
			s.in, s.out = false, false
			m.outError(s.origin, msg, false)
			return nil
		}
		next := o.Op == "answer"
		complete := o.Complete || !next || s.kind == kRR
		var md []byte
		var data []byte
		if next {
			data = o.Data.Bytes()
			if !o.Bare {
				md = index(o.A)
			}
		}
		if ok, err := payload(s, md, data, next, complete); !ok {
			return err
		}
		switch {
		case s.kind == kRR && next:
			m.outItem(s.origin, md, data)
		case s.kind == kRR:
			m.outError(s.origin, "", true)
		default:
			if next {
				m.outItem(s.origin, md, data)
			}
			if complete {
				m.outEnd(s.origin)
			}
		}
		s.in = !complete
	case "answer-cancel":
		s := pick(m.owns, o.A, channel)
		if s == nil {
			return nil
		}
		s.lax = s.lax || m.fresh[s] || m.fresh[s.origin]
		if ok, err := m.put(s, rs.Frame{Type: rs.TCancel, ID: s.id}); !ok {
			return err
		}
		s.out = false
		m.interacted++
	case "answer-demand":
		s := pick(m.owns, o.A, channel)
		if s == nil {
			return nil
		}
		if ok, err := m.put(s, rs.Frame{Type: rs.TRequestN, ID: s.id, N: o.N}); !ok {
			return err
		}
		s.demand += uint64(o.N)
		m.interacted++
		m.pump(s)
	case "stray":
		// Frames of streams that there are not, and what is no frame.
		id := uint32(9001 + o.A%2)
		f := rs.Frame{ID: id, Data: o.Data.Bytes(), Next: true, N: 1, Complete: o.Complete}
		f.Type = []int{rs.TPayload, rs.TCancel, rs.TError, rs.TRequestN, 63}[min(o.A, 4)]
		_, err := m.put(nil, f)
		return err
	}
	return nil
}

func checkGuest(ctx *kit.Ctx, c GuestCase) error {
	m := &guestModel{c: c, next: 1, fresh: map[*gcall]bool{}, ids: map[uint32]*gcall{}, call: map[int]*gcall{}}
	arg := map[string]any{"guest": c.Guest, "host": c.Host}
	hs := []driverHandler{}
	var table []rs.Op
	for i := range c.Handlers {
		h := &m.c.Handlers[i]
		n := len(m.by[h.Kind])
		m.by[h.Kind] = append(m.by[h.Kind], h)
		if n >= 4 {
			continue
		}
		d := driverHandler{h.Kind, "ns", fmt.Sprintf("op%d", i), h.Mode, []hexed{}, nil, h.Task}
		for _, b := range h.Items {
			d.Items = append(d.Items, b.Bytes())
		}
		if h.Error != "" {
			d.Error = &h.Error
		}
		hs = append(hs, d)
		table = append(table, rs.Op{Kind: h.Kind, Dir: 1, Index: uint32(n), NS: d.NS, Name: d.Name})
	}
	arg["handlers"] = hs
	var o guestOutcome
	if _, err := askOf(guestDriver, "new", arg, &o); err != nil {
		return fmt.Errorf("starting the guest: %v", err)
	}
	if o.Table == nil {
		return fmt.Errorf("the guest does not tell its operations")
	}
	got, err := rs.DecodeOps(*o.Table)
	if err == nil {
		err = sameTables(table, got)
	}
	if err != nil {
		return fmt.Errorf("the guest's table of operations: %v", err)
	}
	for _, op := range c.Ops {
		if err := m.do(op); err != nil {
			return err
		}
		if op.Send {
			if err := m.send(); err != nil {
				return err
			}
		}
	}
	if err := m.send(); err != nil {
		return err
	}
	ctx.NonTrivialIf(m.opened > 1 && m.interacted+m.answered > 0)
	ctx.Label("interacted-%d", min(m.interacted+m.answered, 4))
	if m.answered > 0 {
		ctx.Label("answers")
	}
	if m.refused > 0 {
		ctx.Label("too-large")
	}
	ctx.Label("opened-%d", min(m.opened, 5))
	return nil
}

var X07 = &kit.Property{
	ID:   "X07",
	Rule: "a case is the handlers of a guest, the sizes of the two buffers and what the host does: calls, items, ends, errors, cancels, demands, answers to the guest's own calls, stray frames, all in batches; non-trivial when there is more than one call and either an item, a demand or an answer beyond the requests",
	Assumptions: []string{
		"the guest library is compiled natively with the code it has for WebAssembly; the functions of the host are the driver's",
		"the MessagePack library that the guest library hands to its users is not at hand, and not used",
		"where a call is cancelled in the batch of its other frames, its frames may come or not",
	},
	Facets: []kit.Facet{
		kit.F("life of a guest", 60000, 800000, genGuest, checkGuest).WithBatch(2000),
	},
}
