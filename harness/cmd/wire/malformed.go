package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(0, 3).Draw(t, "edits")
	for i := 0; i < n && len(b) > 0; i++ {
		p := rapid.IntRange(0, min(len(b)-1, 20)).Draw(t, "pos")
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 1:
			b = b[:p]
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b[p] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 4:
			b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
		}
	}
	return b
}

func genRaw(t *rapid.T) []byte {
	switch rapid.IntRange(0, 2).Draw(t, "rawmode") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "random")
	case 1:
		// A plausible header, then a short body around every length check.
		fl := uint16(rapid.IntRange(0, 1023).Draw(t, "flags"))
		h := rs.Frame{Type: rapid.IntRange(0, 15).Draw(t, "type"), ID: gen.U32().Draw(t, "id")}.Encode()[:6]
		h[4] = h[4]&^3 | byte(fl>>8)
		h[5] = byte(fl)
		body := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff}), 0, 16).Draw(t, "body")
		return append(h, body...)
	}
	c := genFrameCase(false)(t)
	return mutate(t, c.ref().Encode())
}

// judge compares a decoding of raw with the reference parser's.
func judge(raw []byte, got frames.Frame, err error) error {
	want, perr := rs.Decode(raw)
	if err != nil {
		if perr != nil || !canonical(want, raw) {
			return nil
		}
		return fmt.Errorf("the well-formed frame %v (%x) is rejected: %v", want, clip(raw), err)
	}
	if perr != nil {
		return fmt.Errorf("the malformed frame %x (%v) is accepted", clip(raw), perr)
	}
	if got == nil {
		return fmt.Errorf("decoding %x yields neither a frame nor an error", clip(raw))
	}
	gf, err := fromIota(got)
	if err != nil {
		return fmt.Errorf("decoding %x: %v", clip(raw), err)
	}
	if want.Type != rs.TRequestChannel && want.Type != rs.TPayload {
		want.Complete = false
	}
	if want.Type != rs.TPayload {
		want.Next = false
	}
	switch want.Type {
	case rs.TCancel, rs.TRequestN, rs.TError:
		want.Follows = false
	}
	if err := same(want, gf); err != nil {
		return fmt.Errorf("decoding %x: %v", clip(raw), err)
	}
	return nil
}

// canonical says the frame uses only what the specification allows, so that
// a decoder has no licence to reject it.
func canonical(f rs.Frame, raw []byte) bool {
	if f.ID == 0 || raw[0]&0x80 != 0 {
		return false
	}
	switch f.Type {
	case rs.TRequestN, rs.TRequestStream, rs.TRequestChannel:
		if f.N == 0 || f.N > 1<<31-1 {
			return false
		}
	}
	return bytes.Equal(f.Encode(), raw)
}

func checkRaw(ctx *kit.Ctx, raw []byte) error {
	_, perr := rs.Decode(raw)
	switch {
	case perr == nil:
		ctx.Label("well-formed")
	case errors.Is(perr, rs.ErrUnknown):
		ctx.Label("unknown-type")
	default:
		ctx.Label("truncated")
	}
	ctx.NonTrivialIf(len(raw) > 6)
	if len(raw) >= 6 {
		h := frames.ParseFrameHeader(raw)
		if t := int(h.Type()); t >= rs.TRequestResponse && t <= rs.TError {
			// The bytes behind the frame in the same buffer must not matter.
			for _, fill := range []byte{0x00, 0xff} {
				big := append(append([]byte{}, raw...), bytes.Repeat([]byte{fill}, 64)...)
				f := newFrame(t)
				err := f.Decode(&h, big[6:len(raw)])
				if err != nil {
					f = nil
				}
				if e := judge(raw, f, err); e != nil {
					return e
				}
			}
		}
	}
	// Through the network connection.
	n := len(raw)
	if n == 0 {
		return nil
	}
	stream := append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, raw...)
	after := rs.Frame{Type: rs.TPayload, ID: 77, Data: []byte("after"), Next: true}.Encode()
	stream = append(stream, 0, 0, byte(len(after)))
	stream = append(stream, after...)
	conn := rsocket.NewTCPConn(&pipeConn{in: stream})
	f, err := conn.Read()
	if err != nil {
		f = nil
	} else if f == nil {
		return fmt.Errorf("reading %x yields neither a frame nor an error", clip(raw))
	}
	return judge(raw, f, err)
}

// StreamCase is an arbitrary byte stream.
type StreamCase struct {
	Data   []byte
	Chunks []int
}

// checkStream reads an arbitrary byte stream to its end.
func checkStream(ctx *kit.Ctx, c StreamCase) error {
	ctx.NonTrivialIf(len(c.Data) > 3)
	conn := rsocket.NewTCPConn(&pipeConn{in: c.Data, chunks: c.Chunks})
	rest := c.Data
	for i := 0; i <= len(c.Data)+2; i++ {
		f, err := conn.Read()
		if err != nil {
			if i > 0 {
				ctx.Label("frames-before-end")
			}
			return nil
		}
		if len(rest) < 3 {
			return fmt.Errorf("stream %x: frame %d is made up, the stream has ended", clip(c.Data), i)
		}
		n := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		if len(rest) < 3+n {
			return fmt.Errorf("stream %x: frame %d is made up, its bytes never arrived", clip(c.Data), i)
		}
		if err := judge(rest[3:3+n], f, nil); err != nil {
			return fmt.Errorf("frame %d of the stream: %v", i, err)
		}
		rest = rest[3+n:]
	}
	return errors.New("the stream yields frames without end")
}

func genStreamCase(t *rapid.T) StreamCase {
	var b []byte
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "frames"); i < n; i++ {
		raw := genRaw(t)
		l := len(raw)
		if rapid.IntRange(0, 5).Draw(t, "lie") == 0 {
			l += rapid.IntRange(-7, 7).Draw(t, "by")
			l = max(l, 0)
		}
		b = append(b, byte(l>>16), byte(l>>8), byte(l))
		b = append(b, raw...)
	}
	if rapid.IntRange(0, 3).Draw(t, "junk") == 0 {
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tail")...)
	}
	return StreamCase{b, genChunks(t)}
}

var _ = io.EOF

var W02 = &kit.Property{
	ID:   "W02",
	Rule: "a case is an arbitrary byte string: random bytes, a plausible header with a short body, a mutated valid frame, or a byte stream of such frames with lying lengths; non-trivial when it is longer than a bare frame header",
	Facets: []kit.Facet{
		kit.F("frame", 80000, 800000, genRaw, checkRaw).WithBatch(10000),
		kit.F("stream", 20000, 200000, genStreamCase, checkStream).WithBatch(5000),
	},
}
