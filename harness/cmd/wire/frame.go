package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// FrameCase describes one frame the engine can build.
type FrameCase struct {
	Type     int
	ID       uint32
	Metadata gen.Blob
	Data     gen.Blob
	Follows  bool
	Complete bool
	Next     bool
	N        uint32
	Code     uint32
}

var frameTypes = []int{rs.TRequestResponse, rs.TRequestFNF, rs.TRequestStream, rs.TRequestChannel, rs.TRequestN, rs.TCancel, rs.TPayload, rs.TError}

func genID() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		if rapid.Bool().Draw(t, "edge") {
			return rapid.SampledFrom([]uint32{1, 2, 3, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<30 - 1, 1 << 30, 1<<31 - 2, 1<<31 - 1}).Draw(t, "id")
		}
		return rapid.Uint32Range(1, 1<<31-1).Draw(t, "id")
	})
}

func genFrameCase(big bool) func(t *rapid.T) FrameCase {
	return func(t *rapid.T) FrameCase {
		c := FrameCase{Type: rapid.SampledFrom(frameTypes).Draw(t, "type"), ID: genID().Draw(t, "id")}
		switch c.Type {
		case rs.TRequestN:
			c.N = gen.U32().Draw(t, "n")
		case rs.TError:
			c.Code = gen.U32().Draw(t, "code")
			c.Data = gen.BlobOf(big).Draw(t, "msg")
		case rs.TCancel:
		default:
			if rapid.Bool().Draw(t, "hasmd") {
				c.Metadata = gen.BlobOf(big).Draw(t, "md")
			}
			c.Data = gen.BlobOf(big).Draw(t, "data")
			c.Follows = rapid.Bool().Draw(t, "follows")
			c.Complete = rapid.Bool().Draw(t, "complete")
			if c.Type == rs.TPayload {
				c.Next = rapid.Bool().Draw(t, "next")
			} else {
				c.N = gen.U32().Draw(t, "n")
			}
		}
		return c
	}
}

// build makes the frame of the code under test.
func (c FrameCase) build() frames.Frame {
	md, data := c.Metadata.Bytes(), c.Data.Bytes()
	switch c.Type {
	case rs.TRequestN:
		return &frames.RequestN{StreamID: c.ID, N: c.N}
	case rs.TCancel:
		return &frames.Cancel{StreamID: c.ID}
	case rs.TError:
		return &frames.Error{StreamID: c.ID, Code: frames.ErrCode(c.Code), Data: string(data)}
	case rs.TPayload:
		return &frames.Payload{StreamID: c.ID, Metadata: md, Data: data, Follows: c.Follows, Complete: c.Complete, Next: c.Next}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(c.Type), StreamID: c.ID, Metadata: md, Data: data, Follows: c.Follows, Complete: c.Complete, InitialN: c.N}
}

// ref is what the frame must mean on the wire.
func (c FrameCase) ref() rs.Frame {
	f := rs.Frame{Type: c.Type, ID: c.ID, Metadata: c.Metadata.Bytes(), Data: c.Data.Bytes(), Follows: c.Follows, Next: c.Next, Code: c.Code}
	f.HasMetadata = len(f.Metadata) > 0
	switch c.Type {
	case rs.TRequestChannel, rs.TPayload:
		f.Complete = c.Complete
	}
	switch c.Type {
	case rs.TRequestN, rs.TRequestStream, rs.TRequestChannel:
		f.N = c.N
	}
	return f
}

// fromIota converts a decoded frame to the reference form. Fields the wire
// does not carry for a type are left out.
func fromIota(f frames.Frame) (rs.Frame, error) {
	out := rs.Frame{Type: int(f.Type()), ID: f.GetStreamID()}
	switch v := f.(type) {
	case *frames.Payload:
		out.Metadata, out.Data, out.Follows, out.Complete, out.Next = v.Metadata, v.Data, v.Follows, v.Complete, v.Next
	case *frames.RequestPayload:
		out.Metadata, out.Data, out.Follows = v.Metadata, v.Data, v.Follows
		switch out.Type {
		case rs.TRequestStream:
			out.N = v.InitialN
		case rs.TRequestChannel:
			out.N, out.Complete = v.InitialN, v.Complete
		case rs.TRequestResponse, rs.TRequestFNF:
			if v.InitialN != 1 {
				return out, fmt.Errorf("initial demand %d instead of 1 for a request without demand", v.InitialN)
			}
		}
		if out.Type != rs.TRequestChannel && !v.Complete {
			return out, fmt.Errorf("a request that cannot have further input is not complete")
		}
	case *frames.RequestN:
		out.N = v.N
	case *frames.Cancel:
	case *frames.Error:
		out.Code, out.Data = uint32(v.Code), []byte(v.Data)
	default:
		return out, fmt.Errorf("unexpected frame type %T", f)
	}
	return out, nil
}

func newFrame(typ int) frames.Frame {
	switch typ {
	case rs.TRequestN:
		return &frames.RequestN{}
	case rs.TCancel:
		return &frames.Cancel{}
	case rs.TError:
		return &frames.Error{}
	case rs.TPayload:
		return &frames.Payload{}
	}
	return &frames.RequestPayload{}
}

// same compares what two frames mean; absent and empty metadata are equal.
func same(want, got rs.Frame) error {
	switch {
	case want.Type != got.Type:
		return fmt.Errorf("type %d instead of %d", got.Type, want.Type)
	case want.ID != got.ID:
		return fmt.Errorf("stream id %d instead of %d", got.ID, want.ID)
	case want.Follows != got.Follows:
		return fmt.Errorf("follows %v instead of %v", got.Follows, want.Follows)
	case want.Complete != got.Complete:
		return fmt.Errorf("complete %v instead of %v", got.Complete, want.Complete)
	case want.Next != got.Next:
		return fmt.Errorf("next %v instead of %v", got.Next, want.Next)
	case want.N != got.N:
		return fmt.Errorf("demand %d instead of %d", got.N, want.N)
	case want.Code != got.Code:
		return fmt.Errorf("error code %#x instead of %#x", got.Code, want.Code)
	case !bytes.Equal(want.Metadata, got.Metadata):
		return fmt.Errorf("metadata of %d bytes instead of %d, or other content", len(got.Metadata), len(want.Metadata))
	case !bytes.Equal(want.Data, got.Data):
		return fmt.Errorf("data of %d bytes instead of %d, or other content", len(got.Data), len(want.Data))
	}
	return nil
}

// decode decodes a frame by hand through the frames package, the way both
// transports do: header first, then the body by type.
func decode(raw []byte) (frames.Frame, error) {
	if len(raw) < frames.FrameHeaderLen {
		return nil, rs.ErrTruncated
	}
	h := frames.ParseFrameHeader(raw)
	f := newFrame(int(h.Type()))
	return f, f.Decode(&h, raw[frames.FrameHeaderLen:])
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func checkFrame(ctx *kit.Ctx, c FrameCase) error {
	want := c.ref()
	ctx.Label("type-%d", c.Type)
	ctx.NonTrivialIf(len(want.Metadata)+len(want.Data) > 0 || c.N != 0)
	f := c.build()
	exp := want.Encode()
	if int(f.Type()) != c.Type || f.GetStreamID() != c.ID {
		return fmt.Errorf("frame %v reports type %d, stream %d", want, f.Type(), f.GetStreamID())
	}
	if int(f.Size()) != len(exp) {
		return fmt.Errorf("frame %v declares size %d, its RSocket encoding has %d bytes", want, f.Size(), len(exp))
	}
	// A buffer that is not clean and longer than needed, as pooled ones are.
	buf := bytes.Repeat([]byte{0xa5}, len(exp)+16)
	f.Encode(buf[:len(exp)+8])
	if !bytes.Equal(buf[:len(exp)], exp) {
		return fmt.Errorf("frame %v encodes to %x..., the RSocket layout is %x...", want, clip(buf[:len(exp)]), clip(exp))
	}
	for _, x := range buf[len(exp):] {
		if x != 0xa5 {
			return fmt.Errorf("encoding frame %v writes past its %d bytes", want, len(exp))
		}
	}
	exact := make([]byte, len(exp))
	f.Encode(exact)
	if !bytes.Equal(exact, exp) {
		return fmt.Errorf("frame %v encodes differently into an exact buffer", want)
	}
	got, err := decode(exact)
	if err != nil {
		return fmt.Errorf("decoding the encoding of %v fails: %v", want, err)
	}
	gf, err := fromIota(got)
	if err != nil {
		return fmt.Errorf("decoding the encoding of %v: %v", want, err)
	}
	if err := same(want, gf); err != nil {
		return fmt.Errorf("decoding the encoding of %v: %v", want, err)
	}
	// Encoding the decoded frame gives the same bytes again.
	if int(got.Size()) != len(exp) {
		return fmt.Errorf("decoded frame %v declares size %d instead of %d", want, got.Size(), len(exp))
	}
	again := make([]byte, len(exp))
	got.Encode(again)
	if !bytes.Equal(again, exp) {
		return fmt.Errorf("re-encoding the decoded frame %v changes the bytes", want)
	}
	return nil
}

// HeaderCase is an arbitrary header.
type HeaderCase struct {
	ID    uint32
	Type  uint8
	Flags uint16
}

func checkHeader(ctx *kit.Ctx, c HeaderCase) error {
	ctx.NonTrivial()
	exp := []byte{byte(c.ID >> 24), byte(c.ID >> 16), byte(c.ID >> 8), byte(c.ID), c.Type<<2 | byte(c.Flags>>8), byte(c.Flags)}
	h := frames.NewFrameHeader(c.ID, frames.FrameType(c.Type), frames.FrameFlag(c.Flags))
	var w bytes.Buffer
	if n, err := h.WriteTo(&w); err != nil || n != 6 {
		return fmt.Errorf("WriteTo returns %d, %v", n, err)
	}
	var w2 bytes.Buffer
	if err := frames.WriteFrameHeader(&w2, c.ID, frames.FrameType(c.Type), frames.FrameFlag(c.Flags)); err != nil {
		return err
	}
	rst := make([]byte, 6)
	frames.ResetFrameHeader(rst, c.ID, frames.FrameType(c.Type), frames.FrameFlag(c.Flags))
	for i, b := range [][]byte{h.Bytes(), w.Bytes(), w2.Bytes(), rst} {
		if !bytes.Equal(b, exp) {
			return fmt.Errorf("header writer %d gives %x, the layout is %x", i, b, exp)
		}
	}
	p := frames.ParseFrameHeader(append(append([]byte{}, exp...), 1, 2, 3))
	if p.StreamID() != c.ID&0x7fffffff || uint8(p.Type()) != c.Type || uint16(p.Flag()) != c.Flags {
		return fmt.Errorf("header %x parses to stream %d type %d flags %#x", exp, p.StreamID(), p.Type(), uint16(p.Flag()))
	}
	for flag, bit := range map[frames.FrameFlag]uint16{frames.FlagIgnore: 0x200, frames.FlagMetadata: 0x100, frames.FlagFollow: 0x80, frames.FlagComplete: 0x40, frames.FlagNext: 0x20} {
		if p.Flag().Check(flag) != (c.Flags&bit != 0) {
			return fmt.Errorf("flag %#x misread in %#x", bit, c.Flags)
		}
	}
	return nil
}

var W01 = &kit.Property{
	ID:   "W01",
	Rule: "a case is a frame (any type, stream id, flags, demand, metadata and data at boundary lengths) or a header; non-trivial when it carries metadata, data or demand",
	Facets: []kit.Facet{
		kit.F("frame", 60000, 400000, genFrameCase(true), checkFrame).WithBatch(7500),
		kit.F("header", 40000, 200000, func(t *rapid.T) HeaderCase {
			return HeaderCase{gen.U32().Draw(t, "id"), uint8(rapid.IntRange(0, 63).Draw(t, "type")), uint16(rapid.IntRange(0, 1023).Draw(t, "flags"))}
		}, checkHeader).WithBatch(10000),
	},
}
