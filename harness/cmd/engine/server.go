package main

import (
	"context"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// A history of a server and its connections: clients come, call, are called,
// and go in one way or another, and at some moment the server stops. A model
// says who is connected; after every step the server, both ends of each
// connection and the calls have to agree with it.

// SrvStep is a step of the history.
type SrvStep struct {
	Do   string // listen, connect, call, back, leave, stop
	Conn int
	How  string `json:",omitempty"`
	Junk []byte `json:",omitempty"` // leave by junk
	Go   bool   // do not wait for its effects
}

// SrvCase is a case.
type SrvCase struct {
	Net   string // pipe: in memory; tcp, tls: of the system
	Fails bool   // the listener cannot be had
	Conns int
	Steps []SrvStep
}

func genServer(nets []string) func(t *rapid.T) SrvCase {
	return func(t *rapid.T) SrvCase {
		c := SrvCase{Net: rapid.SampledFrom(nets).Draw(t, "net"), Conns: rapid.IntRange(1, 4).Draw(t, "clients")}
		real := c.Net != "pipe"
		c.Fails = rapid.IntRange(0, 19).Draw(t, "fails") == 0
		early := real || rapid.IntRange(0, 7).Draw(t, "early") > 0
		if early {
			c.Steps = append(c.Steps, SrvStep{Do: "listen", Go: !real && rapid.IntRange(0, 4).Draw(t, "go") == 0})
		}
		what := []string{"connect", "connect", "connect", "connect", "call", "call", "call", "back", "back", "leave", "leave"}
		if !early {
			what = append(what, "listen", "stop")
		}
		leave := []string{"close", "close", "cancel", "drop", "midframe", "junk", "shut"}
		for i, n := 0, rapid.IntRange(3, 16).Draw(t, "steps"); i < n; i++ {
			s := SrvStep{Do: rapid.SampledFrom(what).Draw(t, "step"), Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "client"), Go: rapid.IntRange(0, 3).Draw(t, "go") == 0}
			switch s.Do {
			case "connect":
				if rapid.IntRange(0, 7).Draw(t, "deaf") == 0 {
					s.How = "deaf"
				}
			case "leave":
				s.How = rapid.SampledFrom(leave).Draw(t, "how")
				switch s.How {
				case "junk":
					s.Junk = rapid.SampledFrom([][]byte{{0, 0, 0}, {0, 0, 1, 9}, {0, 0, 6, 0, 0, 0, 1, 0xff, 0xff}, {0, 0, 6, 0, 0, 0, 0, 4, 0}, {0, 0, 9, 0, 0, 0, 1, 0x11, 0, 0, 0, 9}}).Draw(t, "junk")
				case "midframe":
					s.Junk = rapid.SampledFrom([][]byte{{0}, {0, 0}, {0, 0, 20}, {0, 1, 0, 0, 0, 0}, {0, 0, 20, 0, 0, 0, 1, 0x11, 0}}).Draw(t, "junk")
				}
			case "stop":
				s.How = rapid.SampledFrom([]string{"close", "cancel"}).Draw(t, "how")
			}
			c.Steps = append(c.Steps, s)
		}
		if rapid.IntRange(0, 9).Draw(t, "stops") > 0 {
			how := []string{"close", "close", "cancel", "broken"}
			if real {
				how = how[:3]
			}
			c.Steps = append(c.Steps, SrvStep{Do: "stop", How: rapid.SampledFrom(how).Draw(t, "how"), Go: rapid.Bool().Draw(t, "go")})
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "steps after"); i < n; i++ {
				c.Steps = append(c.Steps, SrvStep{Do: rapid.SampledFrom([]string{"connect", "call", "back", "leave", "stop"}).Draw(t, "step"), Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "client"), How: "close"})
			}
		}
		return c
	}
}

// srvConn is the server's side of a connection.
type srvConn struct {
	net.Conn
	closed *atomic.Bool
}

func (c *srvConn) Close() error {
	c.closed.Store(true)
	return c.Conn.Close()
}

// srvListener watches a listener.
type srvListener struct {
	net.Listener
	run    *srvRun
	closed atomic.Bool
}

func (l *srvListener) Close() error {
	l.closed.Store(true)
	return l.Listener.Close()
}

func (l *srvListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return l.run.accepted(c), nil
}

// memListener accepts in-memory connections. Those that nobody accepts are
// refused when it is closed.
type memListener struct {
	conns  chan net.Conn
	broken chan struct{}
	once   sync.Once
	done   chan struct{}
}

func (p *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-p.conns:
		return c, nil
	case <-p.broken:
		return nil, errors.New("out of files")
	case <-p.done:
		return nil, io.EOF
	}
}
func (p *memListener) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *memListener) Addr() net.Addr { return pipeAddr{} }

// srvCall is a call over a connection.
type srvCall struct {
	name string
	want string
	safe bool // the connection stays up until it has ended
	dead bool // the connection was over before
	mu   sync.Mutex
	got  []string
}

// srvClient is a connection with its client.
type srvClient struct {
	name   string
	raw    net.Conn // the client's side
	tp     *rsocket.Transport
	h      *handler.Handler
	stop   context.CancelFunc
	ended  chan error // Start has returned
	over   bool       // seen that it has
	caller invoke.Caller
	closed *atomic.Bool // the server's side
	server weak.Pointer[srvConn]
	taken  bool // the server has accepted it
	up     bool // by the model
	deaf   bool // the client sends, but does not read
	calls  []*srvCall
}

type srvRun struct {
	c        SrvCase
	mu       sync.Mutex
	lis      *srvListener
	mem      *memListener
	srv      rsocket.ServerTransport
	addr     string
	stop     context.CancelFunc
	ctx      context.Context
	listened bool
	up       chan bool
	ret      chan error
	returned bool
	retErr   error
	notes    []bool
	stopped  bool
	how      string
	conns    []*srvClient
	pending  map[string]*srvClient      // by the address of the client's side
	callers  map[string][]invoke.Caller // by the name of the connection
	given    int
	extra    []string
}

// serverKey is the key of the name of an endpoint in its context.
type serverKey struct{}

func serverCall(data string) payload.Payload {
	return payload.New([]byte(data), binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, serverOp), 0))
}

var (
	serverOnce sync.Once
	serverOp   uint32
	serverSeq  atomic.Int64
	tlsServer  *tls.Config
	tlsClient  *tls.Config
)

func exportServer() {
	exportPeers()
	serverOnce.Do(func() {
		invoke.ExportRequestResponse("server", "op", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			who, _ := ctx.Value(serverKey{}).(string)
			return mono.Just[payload.Payload](payload.New([]byte("re: " + string(p.Data()) + " @" + who)))
		})
		for id, info := range invoke.GetOperations().Exported.RequestResponse {
			if info.Namespace == "server" {
				serverOp = uint32(id)
			}
		}
		pub, priv, err := ed25519.GenerateKey(crand.Reader)
		if err != nil {
			kit.Bug("%v", err)
		}
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(1000 * time.Hour), DNSNames: []string{"server"}, IsCA: true, BasicConstraintsValid: true}
		der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, pub, priv)
		if err != nil {
			kit.Bug("%v", err)
		}
		cert, err := x509.ParseCertificate(der)
		if err != nil {
			kit.Bug("%v", err)
		}
		pool := x509.NewCertPool()
		pool.AddCert(cert)
		tlsServer = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: priv}}}
		tlsClient = &tls.Config{RootCAs: pool, ServerName: "server"}
	})
}

// accepted notes that the server has taken a connection.
func (r *srvRun) accepted(c net.Conn) net.Conn {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := &srvConn{Conn: c, closed: &atomic.Bool{}}
	var k *srvClient
	if m, ok := c.(*memConn); ok {
		k = m.client
	} else {
		k = r.pending[c.RemoteAddr().String()]
	}
	if k == nil || k.taken { // not yet known
		k = &srvClient{ended: make(chan error, 1)}
		r.pending[c.RemoteAddr().String()] = k
	}
	k.closed, k.server, k.taken = s.closed, weak.Make(s), true
	return s
}

// memConn is the server's side of an in-memory connection.
type memConn struct {
	net.Conn
	client *srvClient
}

var (
	errDialed = errors.New("dialing fails")
	errBusy   = errors.New("not quiet")
)

// quiet waits until nothing happens any more, or, if that cannot be told,
// until the condition holds.
func (r *srvRun) wait(cond func() error) error {
	if r.c.Net == "pipe" {
		if err := kit.Quiesce(quiesceLimit); err != nil {
			return fmt.Errorf("%w: %v", errBusy, err)
		}
		return cond()
	}
	for end := time.Now().Add(30 * time.Second); ; {
		err := cond()
		if err == nil || time.Now().After(end) {
			return err
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func (r *srvRun) poll() {
	for {
		select {
		case ok := <-r.up:
			r.notes = append(r.notes, ok)
			continue
		case err := <-r.ret:
			if r.returned {
				r.extra = append(r.extra, "it returns twice")
			}
			r.returned, r.retErr = true, err
			continue
		default:
		}
		break
	}
	for _, k := range r.conns {
		if k.raw != nil && !k.over {
			select {
			case <-k.ended:
				k.over = true
			default:
			}
		}
	}
}

// check compares everything with the model.
func (r *srvRun) check() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.poll()
	if len(r.extra) > 0 {
		return errors.New(r.extra[0])
	}
	runs := r.listened && !r.stopped && !r.c.Fails
	switch {
	case r.listened && len(r.notes) != 1:
		return fmt.Errorf("whoever waits for the server to listen is told %v", r.notes)
	case r.listened && r.c.Fails && r.notes[0]:
		return errors.New("it has no listener and is said to listen")
	case runs && !r.notes[0]:
		return errors.New("it is said not to listen")
	case runs && r.returned:
		return fmt.Errorf("it stops listening: %v", r.retErr)
	case r.listened && r.c.Fails && (!r.returned || r.retErr == nil && !r.stopped):
		return fmt.Errorf("it has no listener and goes on (or returns the error %v)", r.retErr)
	case r.listened && r.stopped && !r.returned:
		return errors.New("it is stopped and goes on listening")
	case r.listened && r.stopped && r.how == "broken" && r.retErr == nil:
		return errors.New("its listener fails, and no error is returned")
	case r.listened && !r.c.Fails && r.stopped && r.lis != nil && !r.lis.closed.Load():
		return errors.New("it is stopped, but its listener is not closed")
	case runs && r.lis.closed.Load():
		return errors.New("its listener is closed")
	}
	for _, k := range r.conns {
		if k.raw == nil {
			continue
		}
		up := k.up && runs
		switch {
		case up && !k.taken:
			return fmt.Errorf("%s is not accepted", k.name)
		case up && k.over:
			return fmt.Errorf("%s ends by itself", k.name)
		case up && k.closed.Load():
			return fmt.Errorf("%s is closed by the server", k.name)
		case up && !k.deaf && len(r.callers[k.name]) != 1:
			return fmt.Errorf("the acceptor is given %d callers for %s", len(r.callers[k.name]), k.name)
		case !up && k.taken && !k.closed.Load() && (r.listened || !k.up):
			return fmt.Errorf("%s is over, but the server does not close it", k.name)
		case !up && !k.over && !k.deaf && (r.lis != nil && r.stopped || !k.up):
			return fmt.Errorf("%s is over, but the client goes on", k.name)
		}
		if up && !k.deaf {
			k.caller = r.callers[k.name][0]
		}
		for _, call := range k.calls {
			call.mu.Lock()
			got := append([]string{}, call.got...)
			call.mu.Unlock()
			failed := len(got) == 1 && strings.HasPrefix(got[0], "!")
			switch {
			case len(got) > 1, len(got) == 1 && got[0] != call.want && (!failed || call.safe && up):
				return fmt.Errorf("%s ends as %q, want %q", call.name, got, call.want)
			case len(got) == 0 && call.safe && up:
				return fmt.Errorf("%s does not end", call.name)
			case call.dead && !failed:
				return fmt.Errorf("the connection was over before, but %s ends as %q", call.name, got)
			}
		}
	}
	return nil
}

func (r *srvRun) listen() {
	r.listened = true
	r.stopped = r.stopped || r.ctx.Err() != nil
	go func() { r.ret <- r.srv.Listen(r.ctx, r.up) }()
}

// dial returns the client's side of a new connection.
func (r *srvRun) dial(k *srvClient) (net.Conn, error) {
	switch r.c.Net {
	case "pipe":
		a, b := net.Pipe()
		go func() {
			select {
			case <-r.mem.done:
				b.Close()
				return
			default:
			}
			select {
			case r.mem.conns <- &memConn{b, k}:
			case <-r.mem.done:
				b.Close()
			}
		}()
		return a, nil
	case "tls":
		return rsocket.NewConnWithAddr(context.Background(), "tcp", r.addr, tlsClient)
	}
	return rsocket.NewConnWithAddr(context.Background(), r.c.Net, r.addr, nil)
}

func (r *srvRun) connect(i int, deaf bool) (bool, error) {
	if r.conns[i].raw != nil && (!r.conns[i].over && !r.conns[i].deaf || r.conns[i].up) || !r.listened && r.c.Net != "pipe" {
		return false, nil
	}
	// A later connection of the same client is another one.
	k := &srvClient{name: fmt.Sprintf("connection %d", serverSeq.Add(1)), ended: make(chan error, 1), deaf: deaf && r.c.Net != "tls"}
	conn, err := r.dial(k)
	if err != nil {
		r.mu.Lock()
		defer r.mu.Unlock()
		if !r.stopped && !r.c.Fails {
			return true, fmt.Errorf("%s: %w: %v", k.name, errDialed, err)
		}
		return false, nil
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), serverKey{}, k.name))
	h := handler.New(ctx, handler.ClientMode)
	tp := rsocket.NewTCPClientTransport(conn, h)
	h.SetFrameSender(func(f frames.Frame) error { return tp.Send(f, true) })
	k.raw, k.tp, k.h, k.stop = conn, tp, h, cancel
	r.mu.Lock()
	if r.c.Net != "pipe" {
		// The server may have accepted it already.
		if p := r.pending[conn.LocalAddr().String()]; p != nil && p.raw == nil {
			k.closed, k.server, k.taken = p.closed, p.server, p.taken
		}
		r.pending[conn.LocalAddr().String()] = k
	}
	k.up = !r.stopped || r.lis == nil
	old := r.conns[i]
	r.conns[i] = k
	if old.raw != nil {
		r.conns = append(r.conns, old)
	}
	r.mu.Unlock()
	if !k.deaf {
		go func() { k.ended <- tp.Start(ctx) }()
		return true, nil
	}
	// The answers to these requests, one of them an error, block the server.
	unknown := serverCall("deaf")
	unknown.Metadata()[0] = 0x7f
	go func() {
		h.RequestResponse(context.Background(), serverCall("deaf")).Subscribe(mono.Subscribe[payload.Payload]{})
		h.RequestResponse(context.Background(), unknown).Subscribe(mono.Subscribe[payload.Payload]{})
		h.RequestResponse(context.Background(), unknown).Subscribe(mono.Subscribe[payload.Payload]{})
	}()
	return true, nil
}

func (r *srvRun) call(k *srvClient, back bool) bool {
	r.mu.Lock()
	var c invoke.Caller = k.h
	if back {
		c = k.caller
	}
	if k.raw == nil || k.deaf || back && c == nil {
		r.mu.Unlock()
		return false
	}
	call := &srvCall{name: fmt.Sprintf("call %d of %s", len(k.calls), k.name), safe: k.up && !r.stopped, dead: k.over}
	call.want = "re: " + call.name + " @server"
	if back {
		call.want, call.dead = "re: "+call.name+" @"+k.name, k.taken && k.closed.Load()
	}
	k.calls = append(k.calls, call)
	r.mu.Unlock()
	add := func(s string) {
		call.mu.Lock()
		defer call.mu.Unlock()
		call.got = append(call.got, s)
	}
	m := c.RequestResponse(context.Background(), serverCall(call.name))
	// Sending may have to wait for the peer.
	go m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { add(string(p.Data())) },
		OnError:   func(err error) { add("!" + errText(err)) },
		Finally:   func(rx.SignalType) {},
	})
	return true
}

func (r *srvRun) leave(k *srvClient, s SrvStep) bool {
	r.mu.Lock()
	if k.raw == nil || !k.up {
		r.mu.Unlock()
		return false
	}
	if k.deaf {
		s.How = "drop"
	}
	if !k.taken && (s.How == "junk" || s.How == "midframe") {
		s.How = "close"
	}
	k.up = false
	for _, c := range k.calls {
		c.safe = false
	}
	r.mu.Unlock()
	switch s.How {
	case "close":
		k.tp.Close()
	case "cancel":
		k.stop()
	case "shut": // twice
		k.tp.Close()
		k.tp.Connection().Close()
	case "drop":
		k.raw.Close()
	case "junk", "midframe":
		k.raw.SetWriteDeadline(time.Now().Add(5 * time.Second))
		k.raw.Write(s.Junk)
		k.raw.Close()
	}
	return true
}

func (r *srvRun) halt(how string) {
	r.mu.Lock()
	if r.stopped && !r.returned {
		r.how = "" // of two ways
	}
	if !r.stopped {
		r.how = how
		if !r.listened && how == "broken" {
			how = "close"
			r.how = how
		}
	}
	// A server that has not begun to listen hears of its context later.
	r.stopped = true
	for _, k := range r.conns {
		for _, c := range k.calls {
			c.safe = false
		}
	}
	r.mu.Unlock()
	switch how {
	case "close":
		r.srv.Close()
	case "cancel":
		r.stop()
	case "broken":
		select {
		case <-r.mem.broken:
		default:
			close(r.mem.broken)
		}
	}
}

func checkServer(ctx *kit.Ctx, c SrvCase) (err error) {
	exportServer()
	r := &srvRun{c: c, up: make(chan bool, 4), ret: make(chan error, 4), pending: map[string]*srvClient{}, callers: map[string][]invoke.Caller{}}
	r.ctx, r.stop = context.WithCancel(context.WithValue(context.Background(), serverKey{}, "server"))
	for i := 0; i < c.Conns; i++ {
		r.conns = append(r.conns, &srvClient{})
	}
	var inner rsocket.ListenerFactory
	switch c.Net {
	case "pipe":
		r.mem = &memListener{conns: make(chan net.Conn), broken: make(chan struct{}), done: make(chan struct{})}
		inner = func(context.Context) (net.Listener, error) { return r.mem, nil }
	case "tcp":
		inner = rsocket.NewTCPListenerFactory("tcp", "127.0.0.1:0", nil)
	case "tls":
		inner = rsocket.NewTCPListenerFactory("tcp", "127.0.0.1:0", tlsServer)
	}
	lf := func(ctx context.Context) (net.Listener, error) {
		if c.Fails {
			return nil, errors.New("no listener")
		}
		l, err := inner(ctx)
		if err != nil {
			return nil, err
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.lis = &srvListener{Listener: l, run: r}
		r.addr = l.Addr().String()
		return r.lis, nil
	}
	r.srv = rsocket.NewTCPServerTransport(lf, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	// Each caller asks its peer who it is.
	r.srv.Accept(func(_ context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
		r.mu.Lock()
		r.given++
		r.mu.Unlock()
		caller.RequestResponse(context.Background(), serverCall("who")).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				r.mu.Lock()
				defer r.mu.Unlock()
				name := strings.TrimPrefix(string(p.Data()), "re: who @")
				r.callers[name] = append(r.callers[name], caller)
			},
		})
	})
	ended := false
	defer func() {
		// Whatever happens, nothing stays behind.
		r.stop()
		r.srv.Close()
		if r.mem != nil {
			r.mem.Close()
		}
		for _, k := range r.conns {
			if k.raw != nil {
				k.stop()
				k.raw.Close()
			}
		}
		if err != nil || !ended {
			kit.Quiesce(quiesceLimit)
			return
		}
		if r.c.Net == "pipe" && kit.Quiesce(quiesceLimit) == nil {
			if left := transportGoroutines(); left != "" {
				err = fmt.Errorf("everything is closed, but a goroutine of the transport goes on: %s", left)
			}
		}
	}()
	verify := func(where string) error {
		if err := r.wait(r.check); err != nil {
			if errors.Is(err, errBusy) {
				return err
			}
			return fmt.Errorf("%s: %w", where, err)
		}
		return nil
	}
	done, left, served := 0, 0, 0
	for i, s := range c.Steps {
		did := false
		k := r.conns[s.Conn%c.Conns]
		switch s.Do {
		case "listen":
			if did = !r.listened; did {
				r.listen()
			}
		case "connect":
			if did, err = r.connect(s.Conn%c.Conns, s.How == "deaf"); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		case "call", "back":
			if did = r.call(k, s.Do == "back"); did {
				served++
			}
		case "leave":
			if did = r.leave(k, s); did {
				left++
				ctx.Label("leaves: %s", s.How)
			}
		case "stop":
			did = true
			r.halt(s.How)
			ctx.Label("stops: %s", s.How)
		}
		if !did {
			continue
		}
		done++
		if !s.Go {
			if err := verify(fmt.Sprintf("step %d", i)); err != nil {
				if errors.Is(err, errBusy) {
					return ctx.Inconclusive("%v", err)
				}
				return err
			}
		}
	}
	for _, last := range []string{"at last", "in the end"} {
		if last == "in the end" {
			r.halt("close")
		}
		if err := verify(last); err != nil {
			if errors.Is(err, errBusy) {
				return ctx.Inconclusive("%v", err)
			}
			return err
		}
		if last == "at last" && r.listened && !r.stopped && left > 0 {
			if err := verify("the server still listens"); err != nil {
				return err
			}
			if err := r.wait(r.forgotten); err != nil {
				if errors.Is(err, errBusy) {
					return ctx.Inconclusive("%v", err)
				}
				return err
			}
		}
	}
	ctx.Label("%s", c.Net)
	for _, k := range r.conns {
		if k.deaf {
			ctx.Label("deaf clients")
		}
	}
	ctx.NonTrivialIf(done > 3 && served > 0 && left > 0)
	ended = true
	return nil
}

// forgotten says whether the server has kept connections that are over.
func (r *srvRun) forgotten() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.conns {
		if !k.up {
			delete(r.callers, k.name)
			k.caller = nil
		}
	}
	kept := 0
	for i := 0; i < 3; i++ {
		runtime.GC()
		kept = 0
		for _, k := range r.conns {
			if k.taken && !k.up && k.server.Value() != nil {
				kept++
			}
		}
		if kept == 0 {
			return nil
		}
	}
	return fmt.Errorf("the server keeps %d connections that are over", kept)
}

// transportGoroutines returns the stack of a goroutine that runs code of the
// transport.
func transportGoroutines() string {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "iota/go/transport/rsocket.") {
			return g
		}
	}
	return ""
}
