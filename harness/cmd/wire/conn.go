package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// pipeConn is an in-memory net.Conn. Reads deliver `in` in the given chunk
// sizes (cyclically), then end with endErr; writes are recorded.
type pipeConn struct {
	mu       sync.Mutex
	in       []byte
	chunks   []int
	k        int
	eofWith  bool // the last bytes come together with the end, as io.Reader allows
	endErr   error
	out      []byte
	yield    int
	closed   bool
	maxWrite int
}

func (p *pipeConn) end() error {
	if p.endErr != nil {
		return p.endErr
	}
	return io.EOF
}

func (p *pipeConn) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.in) == 0 {
		return 0, p.end()
	}
	n := len(b)
	if len(p.chunks) > 0 {
		n = min(n, p.chunks[p.k%len(p.chunks)])
		p.k++
	}
	n = min(n, len(p.in))
	copy(b, p.in[:n])
	p.in = p.in[n:]
	if len(p.in) == 0 && p.eofWith {
		return n, p.end()
	}
	return n, nil
}

func (p *pipeConn) Write(b []byte) (int, error) {
	// The bytes of one write are stored in pieces, with other goroutines let
	// in between, like a socket whose buffer fills.
	n := len(b)
	for len(b) > 0 {
		k := len(b)
		if p.maxWrite > 0 {
			k = min(k, p.maxWrite)
		}
		p.mu.Lock()
		p.out = append(p.out, b[:k]...)
		p.mu.Unlock()
		b = b[k:]
		for i := 0; i < p.yield; i++ {
			runtime.Gosched()
		}
	}
	return n, nil
}

func (p *pipeConn) Close() error                     { p.closed = true; return nil }
func (p *pipeConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (p *pipeConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (p *pipeConn) SetDeadline(time.Time) error      { return nil }
func (p *pipeConn) SetReadDeadline(time.Time) error  { return nil }
func (p *pipeConn) SetWriteDeadline(time.Time) error { return nil }

func genChunks(t *rapid.T) []int {
	if rapid.IntRange(0, 3).Draw(t, "whole") == 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 7, 9, 16, 100, 1000, 4096, 8191, 8192, 8193, 70000}), 1, 8).Draw(t, "chunks")
}

// ConnCase is a sequence of frames read back under a chunking, optionally cut
// short.
type ConnCase struct {
	Frames  []FrameCase
	Chunks  []int
	EOFWith bool
	Cut     int  // bytes missing at the end (0: none)
	Reset   bool // the stream ends with a connection error instead of EOF
}

func genConnCase(cut bool) func(t *rapid.T) ConnCase {
	return func(t *rapid.T) ConnCase {
		c := ConnCase{Frames: rapid.SliceOfN(rapid.Custom(genFrameCase(true)), 1, 12).Draw(t, "frames"), Chunks: genChunks(t), EOFWith: rapid.Bool().Draw(t, "eofwith")}
		if cut {
			c.Cut = rapid.IntRange(1, 60).Draw(t, "cut")
			c.Reset = rapid.Bool().Draw(t, "reset")
		}
		return c
	}
}

func checkConn(ctx *kit.Ctx, c ConnCase) error {
	// Write side.
	sink := &pipeConn{}
	w := rsocket.NewTCPConn(sink)
	var exp []byte
	var ends []int
	for i, fc := range c.Frames {
		raw := fc.ref().Encode()
		exp = append(exp, byte(len(raw)>>16), byte(len(raw)>>8), byte(len(raw)))
		exp = append(exp, raw...)
		ends = append(ends, len(exp))
		if err := w.Write(fc.build()); err != nil {
			return fmt.Errorf("writing frame %d fails: %v", i, err)
		}
		if i%3 == 1 {
			if err := w.Flush(); err != nil {
				return fmt.Errorf("flushing fails: %v", err)
			}
		}
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("flushing fails: %v", err)
	}
	if string(sink.out) != string(exp) {
		return fmt.Errorf("the bytes written for %d frames are not their length-prefixed encodings", len(c.Frames))
	}
	// Read side.
	stream := exp[:max(0, len(exp)-c.Cut)]
	src := &pipeConn{in: stream, chunks: c.Chunks, eofWith: c.EOFWith}
	if c.Reset {
		src.endErr = os.ErrDeadlineExceeded
	}
	ctx.NonTrivialIf(len(c.Frames) > 1 && len(c.Chunks) > 0)
	r := rsocket.NewTCPConn(src)
	var got []frames.Frame
	for {
		f, err := r.Read()
		if err != nil {
			break
		}
		if f == nil {
			return fmt.Errorf("read %d yields neither a frame nor an error", len(got))
		}
		got = append(got, f)
		if len(got) > len(c.Frames) {
			return fmt.Errorf("%d frames sent, more than that received", len(c.Frames))
		}
	}
	want := 0
	for _, e := range ends {
		if e <= len(stream) {
			want++
		}
	}
	if len(got) != want {
		return fmt.Errorf("%d complete frames on the stream (%d of %d bytes), %d received", want, len(stream), len(exp), len(got))
	}
	for i, f := range got {
		g, err := fromIota(f)
		if err == nil {
			err = same(c.Frames[i].ref(), g)
		}
		if err != nil {
			return fmt.Errorf("frame %d of %d (checked after the last was read): %v", i, len(got), err)
		}
	}
	if _, err := r.Read(); err == nil {
		return errors.New("reading on after the stream ended yields a frame")
	}
	return nil
}

// BigCase is a frame near the largest size the length prefix can express.
type BigCase struct {
	Type   int
	MdLen  int
	Total  int // encoded frame size aimed at
	Chunks []int
}

const maxFrame = 1<<24 - 1

func checkBig(ctx *kit.Ctx, c BigCase) error {
	ctx.NonTrivial()
	fc := FrameCase{Type: c.Type, ID: 5, N: 3, Next: c.Type == rs.TPayload}
	fc.Metadata.Rep = c.MdLen
	base := len(fc.ref().Encode())
	fc.Data.Rep = c.Total - base
	small := FrameCase{Type: rs.TPayload, ID: 9, Next: true}
	small.Data.Head = []byte("small")
	sink := &pipeConn{}
	w := rsocket.NewTCPConn(sink)
	if err := w.Write(small.build()); err != nil {
		return err
	}
	err := w.Write(fc.build())
	if c.Total > maxFrame {
		ctx.Label("too-long")
		if err == nil {
			return fmt.Errorf("a frame of %d bytes, more than the length prefix can express, is written without error", c.Total)
		}
	} else {
		ctx.Label("fits")
		if err != nil {
			return fmt.Errorf("writing a frame of %d bytes fails: %v", c.Total, err)
		}
	}
	if err := w.Write(small.build()); err != nil {
		return fmt.Errorf("writing after a large frame fails: %v", err)
	}
	if err := w.Flush(); err != nil {
		return err
	}
	want := []FrameCase{small, fc, small}
	if c.Total > maxFrame {
		want = []FrameCase{small, small}
	}
	r := rsocket.NewTCPConn(&pipeConn{in: sink.out, chunks: c.Chunks})
	for i, wf := range want {
		f, err := r.Read()
		if err != nil {
			return fmt.Errorf("frame of %d bytes: reading frame %d of %d fails: %v", c.Total, i+1, len(want), err)
		}
		g, err := fromIota(f)
		if err == nil {
			err = same(wf.ref(), g)
		}
		if err != nil {
			return fmt.Errorf("frame of %d bytes: frame %d of %d: %v", c.Total, i+1, len(want), err)
		}
	}
	return nil
}

// recorder is the endpoint behind a transport; it keeps frames as they come
// and looks at their content only after the connection has ended.
type recorder struct {
	mu  sync.Mutex
	got []frames.Frame
}

func (r *recorder) SetFrameSender(func(frames.Frame) error) {}
func (r *recorder) HandleFrame(f frames.Frame) error {
	r.mu.Lock()
	r.got = append(r.got, f)
	r.mu.Unlock()
	return nil
}

// checkTransport runs a whole Transport over the stream.
func checkTransport(ctx *kit.Ctx, c ConnCase) error {
	var stream []byte
	want := 0
	for _, fc := range c.Frames {
		raw := fc.ref().Encode()
		stream = append(stream, byte(len(raw)>>16), byte(len(raw)>>8), byte(len(raw)))
		stream = append(stream, raw...)
	}
	cutAt := max(0, len(stream)-c.Cut)
	for n, fc := 0, 0; fc < len(c.Frames); fc++ {
		n += 3 + len(c.Frames[fc].ref().Encode())
		if n <= cutAt {
			want++
		}
	}
	ctx.NonTrivialIf(len(c.Frames) > 1)
	src := &pipeConn{in: stream[:cutAt], chunks: c.Chunks, eofWith: c.EOFWith}
	if c.Reset {
		src.endErr = os.ErrDeadlineExceeded
	}
	rec := &recorder{}
	tp := rsocket.NewTransport(rsocket.NewTCPConn(src), rec)
	err := tp.Start(context.Background())
	if err != nil && !c.Reset && c.Cut == 0 {
		return fmt.Errorf("the transport ends with %v after a regular end of stream", err)
	}
	if len(rec.got) != want {
		return fmt.Errorf("%d complete frames on the stream, %d handed to the endpoint", want, len(rec.got))
	}
	for i, f := range rec.got {
		g, err := fromIota(f)
		if err == nil {
			err = same(c.Frames[i].ref(), g)
		}
		if err != nil {
			return fmt.Errorf("frame %d of %d handed to the endpoint: %v", i, want, err)
		}
	}
	if !src.closed {
		return errors.New("the connection is not closed when the transport ends")
	}
	return nil
}

var W05 = &kit.Property{
	ID:          "W05",
	Rule:        "a case is a sequence of frames written through the connection and read back under a generated chunking (1 byte up to whole), possibly cut short at any byte, ended by EOF (alone or with the last bytes) or a connection error; frames up to and beyond the 24-bit length limit; non-trivial when several frames are read in several chunks",
	Assumptions: []string{"an in-memory net.Conn stands for the network; it obeys the io.Reader contract"},
	Facets: []kit.Facet{
		kit.F("chunked", 6000, 60000, genConnCase(false), checkConn).WithBatch(750),
		kit.F("cut", 4000, 40000, genConnCase(true), checkConn).WithBatch(500),
		kit.F("transport", 3000, 30000, func(t *rapid.T) ConnCase { return genConnCase(rapid.Bool().Draw(t, "cut?"))(t) }, checkTransport).WithBatch(500),
		kit.F("large", 16, 64, func(t *rapid.T) BigCase {
			return BigCase{rapid.SampledFrom([]int{rs.TPayload, rs.TRequestChannel, rs.TRequestResponse, rs.TError}).Draw(t, "type"),
				0, maxFrame + rapid.SampledFrom([]int{-20, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 100}).Draw(t, "off"),
				rapid.SampledFrom([][]int{nil, {1 << 20}, {65536, 1}}).Draw(t, "chunks")}
		}, checkBig).WithBatch(4),
	},
}

// SendCase is a set of goroutines sending over one transport.
type SendCase struct {
	Senders  [][]FrameCase
	NoFlush  bool // the first sender's frames are sent without flushing, with a Flush at the end
	Yield    int
	MaxWrite int
}

// slowFrame lets other goroutines in before and after it is encoded.
type slowFrame struct {
	frames.Frame
	n int
}

func (s slowFrame) Encode(b []byte) {
	for i := 0; i < s.n; i++ {
		runtime.Gosched()
	}
	s.Frame.Encode(b)
	for i := 0; i < s.n; i++ {
		runtime.Gosched()
	}
}

func (s slowFrame) Size() uint32 {
	n := s.Frame.Size()
	for i := 0; i < s.n; i++ {
		runtime.Gosched()
	}
	return n
}

func genSendCase(t *rapid.T) SendCase {
	c := SendCase{NoFlush: rapid.Bool().Draw(t, "noflush"), Yield: rapid.IntRange(0, 3).Draw(t, "yield"), MaxWrite: rapid.SampledFrom([]int{0, 1, 7, 4096}).Draw(t, "maxwrite")}
	n := rapid.IntRange(2, 6).Draw(t, "senders")
	for s := 0; s < n; s++ {
		var fs []FrameCase
		for k, m := 0, rapid.IntRange(1, 12).Draw(t, "frames"); k < m; k++ {
			f := FrameCase{Type: rapid.SampledFrom([]int{rs.TPayload, rs.TRequestChannel, rs.TError}).Draw(t, "type"), ID: uint32(s*1000 + k + 1), N: 7}
			if f.Type == rs.TError {
				f.N, f.Code = 0, 3
			}
			f.Data.Rep = rapid.SampledFrom([]int{0, 5, 100, 3000, 8189, 9000, 20000}).Draw(t, "len")
			f.Data.Fill = byte(s*31 + k)
			fs = append(fs, f)
		}
		c.Senders = append(c.Senders, fs)
	}
	return c
}

func checkSend(ctx *kit.Ctx, c SendCase) error {
	sink := &pipeConn{yield: c.Yield, maxWrite: c.MaxWrite}
	tp := rsocket.NewTransport(rsocket.NewTCPConn(sink), &recorder{})
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]error, len(c.Senders))
	total := 0
	for s := range c.Senders {
		total += len(c.Senders[s])
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			<-start
			errs[s] = kit.Catch(func() {
				for _, fc := range c.Senders[s] {
					if err := tp.Send(slowFrame{fc.build(), c.Yield}, !(c.NoFlush && s == 0)); err != nil {
						errs[s] = err
					}
				}
				if err := tp.Flush(); err != nil {
					errs[s] = err
				}
			})
		}(s)
	}
	close(start)
	wg.Wait()
	ctx.NonTrivialIf(total > 2)
	for s, err := range errs {
		if err != nil {
			return fmt.Errorf("sender %d: %v", s, err)
		}
	}
	b := sink.out
	next := make([]int, len(c.Senders))
	for i := 0; i < total; i++ {
		if len(b) < 3 {
			return fmt.Errorf("%d frames sent by %d goroutines, the peer's stream ends after %d", total, len(c.Senders), i)
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			return fmt.Errorf("frame %d on the peer's stream claims %d bytes, %d are there", i, n, len(b)-3)
		}
		f, err := rs.Decode(b[3 : 3+n])
		if err != nil {
			return fmt.Errorf("frame %d on the peer's stream is malformed: %v", i, err)
		}
		b = b[3+n:]
		s, k := int(f.ID/1000), int(f.ID%1000)-1
		if s >= len(c.Senders) || k < 0 || k >= len(c.Senders[s]) {
			return fmt.Errorf("frame %d on the peer's stream (%v) was never sent", i, f)
		}
		if k != next[s] {
			return fmt.Errorf("frame %d of sender %d arrives where its frame %d is due", k, s, next[s])
		}
		next[s]++
		if err := same(c.Senders[s][k].ref(), f); err != nil {
			return fmt.Errorf("frame %d of sender %d arrives altered: %v", k, s, err)
		}
	}
	if len(b) != 0 {
		return fmt.Errorf("%d bytes too many on the peer's stream", len(b))
	}
	return nil
}

var W06 = &kit.Property{
	ID:          "W06",
	Rule:        "a case is 2..6 goroutines each sending 1..12 frames (sizes around the write buffer's) over one transport, with yields injected while frames are sized, encoded and written; non-trivial when more than two frames are sent",
	Assumptions: []string{"schedules are sampled, not enumerated; yields at the frame encoder and in the connection's writes widen the windows"},
	Facets:      []kit.Facet{kit.F("senders", 3000, 30000, genSendCase, checkSend).WithBatch(375)},
}
