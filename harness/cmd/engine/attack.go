package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"sync"

	"github.com/nanobus/iota/go/zz_verif/ref/rs"
)

// rawPeer is the peer of the server on a connection of its own.
type rawPeer struct {
	conn   net.Conn
	probes uint32

	mu      sync.Mutex
	out     [][]byte
	cond    *sync.Cond
	closed  bool
	answers map[uint32]string
	broken  string
}

func newRawPeer(srv *tcpServer) *rawPeer {
	c, _, _ := srv.dial()
	p := &rawPeer{conn: c, answers: map[uint32]string{}}
	p.cond = sync.NewCond(&p.mu)
	go p.read()
	go p.write()
	return p
}

func (p *rawPeer) read() {
	defer p.end()
	for {
		var n [3]byte
		if _, err := io.ReadFull(p.conn, n[:]); err != nil {
			return
		}
		b := make([]byte, int(n[0])<<16|int(n[1])<<8|int(n[2]))
		if _, err := io.ReadFull(p.conn, b); err != nil {
			return
		}
		f, err := rs.Decode(b)
		p.mu.Lock()
		if err != nil && p.broken == "" {
			p.broken = fmt.Sprintf("the server sends %x, which is no frame: %v", clipb(b), err)
		}
		switch f.Type {
		case rs.TPayload:
			p.answers[f.ID] += string(f.Data)
		case rs.TError:
			p.answers[f.ID] += "error " + string(f.Data)
		}
		p.mu.Unlock()
	}
}

func (p *rawPeer) end() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed = true
	p.cond.Broadcast()
}

func (p *rawPeer) write() {
	for {
		p.mu.Lock()
		for len(p.out) == 0 && !p.closed {
			p.cond.Wait()
		}
		if p.closed {
			p.mu.Unlock()
			return
		}
		b := p.out[0]
		p.out = p.out[1:]
		p.mu.Unlock()
		if _, err := p.conn.Write(b); err != nil {
			p.end()
			return
		}
	}
}

// send queues a frame; it reports whether the connection is still up.
func (p *rawPeer) send(b []byte) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.out = append(p.out, append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...))
	p.cond.Broadcast()
	return !p.closed
}

// attackTCP sends what an attacker sends: frames on a connection which has to
// go on working, and bytes that are no frame on one that need not.
func (s *session) attackTCP(a *Attack) {
	which := 0
	if a.Garbage {
		which = 1
	}
	p := s.raw[which]
	if p == nil {
		p = newRawPeer(s.srv)
		s.raw[which] = p
	}
	if a.Garbage {
		if !p.send(a.Data.Bytes()) {
			s.raw[which] = nil
		}
		return
	}
	p.send(s.attackFrame(a).Encode())
	if a.N%2 == 1 {
		p.probe()
	}
}

// probe makes a well-formed call on the attacker's connection.
func (p *rawPeer) probe() {
	p.probes++
	p.send(rs.Frame{ID: 1<<20 + 2*p.probes + 1, Type: rs.TRequestResponse, HasMetadata: true,
		Metadata: opMeta(opIDs[kRR][p.probes%2], nil), Data: bytes.Repeat([]byte{1}, int(p.probes%9))}.Encode())
}

// verifyRaw sees that the attacker's connection works as well.
func (s *session) verifyRaw() error {
	p := s.raw[0]
	if p == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.broken != "" {
		return fmt.Errorf("%s", p.broken)
	}
	if p.closed {
		return fmt.Errorf("the server ends a connection on which only well-formed frames were sent")
	}
	for i := uint32(1); i <= p.probes; i++ {
		if got := p.answers[1<<20+2*i+1]; got != "default" {
			return fmt.Errorf("call %d of a peer that also sends odd frames is answered with %q, want %q", i, got, "default")
		}
	}
	return nil
}
