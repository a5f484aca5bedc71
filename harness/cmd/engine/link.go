package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
)

// A link joins two endpoints, the client (side 0) and the server (side 1).
// Every frame is encoded by its sender, read by the reference parser for the
// log, and decoded again for its receiver.
type link struct {
	h    [2]*handler.Handler
	onTx func(from int, f rs.Frame) // a frame was handed to the link
	onRx func(to int, f rs.Frame)   // a frame is about to be handled by its receiver
	step bool                       // frames wait until the driver delivers them
	wire int                        // how frames may be rearranged on the way, see take
	// refuse says why a frame cannot be sent (nil: all can).
	refuse func(f frames.Frame) error
	close  func()
	tap    *tap // of the client, and what follows is of links over connections too
	server net.Conn
	cancel func() // of the client's Start

	mu     sync.Mutex
	cond   *sync.Cond
	queue  [2][][]byte // frames under way to each side
	closed bool
	yields [4]atomic.Uint32
	err    string // first failure of the link or of an endpoint
}

// yield lets others run, at some of the points where it is called.
func yield(seed uint, n *atomic.Uint32) {
	if seed == 0 {
		return
	}
	x := (uint64(n.Add(1)) + uint64(seed)) * 0x9e3779b97f4a7c15
	for k := x >> 61; k > 3; k-- {
		runtime.Gosched()
	}
}

func (l *link) fail(format string, a ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.err == "" {
		l.err = fmt.Sprintf(format, a...)
	}
}

func (l *link) failure() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.err
}

// newMemLink joins the endpoints in memory.
func newMemLink(step bool, wire int, yields uint, onTx, onRx func(int, rs.Frame)) *link {
	l := &link{step: step, wire: wire, onTx: onTx, onRx: onRx}
	l.cond = sync.NewCond(&l.mu)
	l.h[0] = handler.New(context.Background(), handler.ClientMode)
	l.h[1] = handler.New(context.Background(), handler.ServerMode)
	for side := range l.h {
		l.h[side].SetFrameSender(func(f frames.Frame) error {
			yield(yields, &l.yields[side])
			if l.refuse != nil {
				if err := l.refuse(f); err != nil {
					return err
				}
			}
			// What is encoded must not depend on what the sender does next.
			b := make([]byte, f.Size())
			f.Encode(b)
			r, err := rs.Decode(b)
			if err != nil {
				l.fail("side %d sends %x, which is no frame: %v", side, clipb(b), err)
				return nil
			}
			l.mu.Lock()
			l.onTx(side, r)
			l.queue[1-side] = append(l.queue[1-side], b)
			l.cond.Broadcast()
			l.mu.Unlock()
			return nil
		})
		if !step {
			go l.pump(side, yields)
		}
	}
	l.close = func() {
		l.mu.Lock()
		l.closed = true
		l.cond.Broadcast()
		l.mu.Unlock()
	}
	return l
}

func clipb(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// pump hands frames to a side in the order they were sent.
func (l *link) pump(side int, yields uint) {
	for {
		yield(yields, &l.yields[2+side])
		l.mu.Lock()
		for len(l.queue[side]) == 0 && !l.closed {
			l.cond.Wait()
		}
		if l.closed {
			l.mu.Unlock()
			return
		}
		if l.wire&wireJoin != 0 && len(l.queue[side]) == 1 {
			// Wait a little for what may be joined.
			l.mu.Unlock()
			for i := 0; i < 20; i++ {
				runtime.Gosched()
			}
			l.mu.Lock()
		}
		bs := l.take(side)
		l.mu.Unlock()
		for _, b := range bs {
			l.handle(side, b)
		}
	}
}

// Ways in which another implementation may put the same signals in frames.
const (
	wireJoin  = 1 // the last item and the completion in one frame
	wireSplit = 2 // an answer and its completion in two frames
)

// take removes the next frame to a side and returns what is delivered for it.
func (l *link) take(side int) [][]byte {
	b := l.queue[side][0]
	l.queue[side] = l.queue[side][1:]
	r, err := rs.Decode(b)
	if err != nil {
		return [][]byte{b}
	}
	l.onRx(side, r)
	if r.Type != rs.TPayload || !r.Next || r.Follows {
		return [][]byte{b}
	}
	if r.Complete {
		if l.wire&wireSplit == 0 {
			return [][]byte{b}
		}
		item, end := r, rs.Frame{Type: rs.TPayload, ID: r.ID, Complete: true}
		item.Complete = false
		return [][]byte{item.Encode(), end.Encode()}
	}
	if l.wire&wireJoin == 0 {
		return [][]byte{b}
	}
	for i, x := range l.queue[side] {
		e, err := rs.Decode(x)
		if err != nil || e.ID != r.ID {
			continue
		}
		if e.Type == rs.TPayload && e.Complete && !e.Next {
			l.onRx(side, e)
			l.queue[side] = append(append([][]byte{}, l.queue[side][:i]...), l.queue[side][i+1:]...)
			r.Complete = true
			return [][]byte{r.Encode()}
		}
		break
	}
	return [][]byte{b}
}

// deliver hands one waiting frame to a side.
func (l *link) deliver(side int) bool {
	l.mu.Lock()
	if len(l.queue[side]) == 0 {
		l.mu.Unlock()
		return false
	}
	bs := l.take(side)
	l.mu.Unlock()
	for _, b := range bs {
		l.handle(side, b)
	}
	return true
}

func (l *link) handle(side int, b []byte) {
	f, err := decodeFrame(b)
	if err != nil {
		l.fail("side %d cannot decode %x: %v", side, clipb(b), err)
		return
	}
	if err := l.h[side].HandleFrame(f); err != nil {
		// The transport tears the connection down when this happens.
		l.fail("side %d fails to handle the frame %x: %v", side, clipb(b), err)
	}
}

// inject adds a frame to those under way to a side, behind the sender's back.
func (l *link) inject(side int, f rs.Frame) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.queue[side] = append(l.queue[side], f.Encode())
	l.cond.Broadcast()
}

func decodeFrame(raw []byte) (frames.Frame, error) {
	if len(raw) < frames.FrameHeaderLen {
		return nil, rs.ErrTruncated
	}
	h := frames.ParseFrameHeader(raw)
	var f frames.Frame
	switch h.Type() {
	case frames.FrameTypeRequestN:
		f = &frames.RequestN{}
	case frames.FrameTypeCancel:
		f = &frames.Cancel{}
	case frames.FrameTypeError:
		f = &frames.Error{}
	case frames.FrameTypePayload:
		f = &frames.Payload{}
	default:
		f = &frames.RequestPayload{}
	}
	return f, f.Decode(&h, raw[frames.FrameHeaderLen:])
}

// ---------------------------------------------------------------- transport

// tap watches the bytes a connection writes and reads.
type tap struct {
	net.Conn
	mu       sync.Mutex
	tx, rx   []byte
	yields   uint
	n        [2]atomic.Uint32
	onTx     func(rs.Frame)
	onRx     func(rs.Frame)
	onBroken func(string)
	broken   bool
	left     int // what can still be written
}

// breakAfter has the connection fail once that many more bytes are written.
func (t *tap) breakAfter(n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.broken, t.left = true, n
}

func (t *tap) cut(buf *[]byte, what string, fn func(rs.Frame)) {
	for len(*buf) >= 3 {
		n := int((*buf)[0])<<16 | int((*buf)[1])<<8 | int((*buf)[2])
		if len(*buf) < 3+n {
			return
		}
		f, err := rs.Decode((*buf)[3 : 3+n])
		if err != nil {
			t.onBroken(fmt.Sprintf("%s %x, which is no frame: %v", what, clipb((*buf)[:3+n]), err))
		} else {
			fn(f)
		}
		*buf = (*buf)[3+n:]
	}
}

func (t *tap) Write(b []byte) (int, error) {
	yield(t.yields, &t.n[0])
	t.mu.Lock()
	t.tx = append(t.tx, b...)
	t.cut(&t.tx, "the client sends", t.onTx)
	broken := t.broken && len(b) >= t.left
	if broken {
		b = b[:t.left]
	}
	t.left -= min(t.left, len(b))
	t.mu.Unlock()
	if broken {
		n, _ := t.Conn.Write(b)
		t.Conn.Close()
		return n, errors.New("the connection is broken")
	}
	return t.Conn.Write(b)
}

func (t *tap) Read(b []byte) (int, error) {
	yield(t.yields, &t.n[1])
	n, err := t.Conn.Read(b)
	t.mu.Lock()
	t.rx = append(t.rx, b[:n]...)
	t.cut(&t.rx, "the server sends", t.onRx)
	t.mu.Unlock()
	return n, err
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

// pipeListener accepts in-memory connections.
type pipeListener struct {
	conns chan net.Conn
	once  sync.Once
	done  chan struct{}
}

func (p *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-p.conns:
		return c, nil
	case <-p.done:
		return nil, io.EOF
	}
}
func (p *pipeListener) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipeListener) Addr() net.Addr { return pipeAddr{} }

// tcpServer runs the real server transport over in-memory connections.
type tcpServer struct {
	l       *pipeListener
	srv     rsocket.ServerTransport
	callers chan *handler.Handler
}

func newTCPServer() (*tcpServer, error) {
	s := &tcpServer{l: &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}, callers: make(chan *handler.Handler, 16)}
	s.srv = rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return s.l, nil },
		func(ctx context.Context) (rsocket.DuplexHandler, error) {
			return handler.New(ctx, handler.ServerMode), nil
		})
	s.srv.Accept(func(_ context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
		s.callers <- caller.(*handler.Handler)
	})
	up := make(chan bool, 1)
	go s.srv.Listen(context.Background(), up)
	if !<-up {
		return nil, errors.New("the server does not listen")
	}
	return s, nil
}

// dial connects a raw client.
func (s *tcpServer) dial() (client, server net.Conn, caller *handler.Handler) {
	client, server = net.Pipe()
	s.l.conns <- server
	return client, server, <-s.callers
}

// newTCPLink joins a client endpoint to the server through both real
// transports.
func newTCPLink(s *tcpServer, yields uint, onTx, onRx func(int, rs.Frame)) *link {
	l := &link{onTx: onTx, onRx: onRx}
	l.cond = sync.NewCond(&l.mu)
	c, server, sh := s.dial()
	both := func(from int) func(rs.Frame) {
		return func(f rs.Frame) {
			l.mu.Lock()
			defer l.mu.Unlock()
			l.onTx(from, f)
			l.onRx(1-from, f)
		}
	}
	t := &tap{Conn: c, yields: yields, onTx: both(0), onRx: both(1), onBroken: func(m string) {
		l.mu.Lock()
		closed := l.closed
		l.mu.Unlock()
		if !closed {
			l.fail("%s", m)
		}
	}}
	h := handler.New(context.Background(), handler.ClientMode)
	tp := rsocket.NewTCPClientTransport(t, h)
	h.SetFrameSender(func(f frames.Frame) error {
		return tp.Send(f, true)
	})
	l.h = [2]*handler.Handler{h, sh}
	l.tap, l.server = t, server
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	go func() {
		err := tp.Start(ctx)
		l.mu.Lock()
		closed := l.closed
		l.mu.Unlock()
		if !closed {
			l.fail("the connection of the client ends: %v", err)
		}
	}()
	l.close = func() {
		l.mu.Lock()
		l.closed = true
		l.mu.Unlock()
		tp.Close()
	}
	return l
}
