package main

import (
	"bytes"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// rsFrame is a frame as the driver shows it.
type rsFrame struct {
	Kind     int    `json:"kind"`
	ID       uint32 `json:"id"`
	N        uint32 `json:"n"`
	Code     uint32 `json:"code"`
	Next     bool   `json:"next"`
	Complete bool   `json:"complete"`
	Follows  bool   `json:"follows"`
	MD       hexed  `json:"md"`
	Data     hexed  `json:"data"`
}

func (f rsFrame) String() string {
	return fmt.Sprintf("{type=%d id=%d md=%d:%x data=%d:%x F=%v C=%v N=%v n=%d code=%#x}", f.Kind, f.ID, len(f.MD), clip(f.MD), len(f.Data), clip(f.Data), f.Follows, f.Complete, f.Next, f.N, f.Code)
}

func toRust(f rs.Frame) rsFrame {
	g := rsFrame{Kind: f.Type, ID: f.ID, Complete: f.Complete, Next: f.Next, Follows: f.Follows, MD: f.Metadata, Data: f.Data, N: f.N, Code: f.Code}
	return g
}

func (f rsFrame) same(g rsFrame) bool {
	return f.Kind == g.Kind && f.ID == g.ID && f.N == g.N && f.Code == g.Code && f.Next == g.Next && f.Complete == g.Complete && f.Follows == g.Follows && bytes.Equal(f.MD, g.MD) && bytes.Equal(f.Data, g.Data)
}

// FrameCase is one frame.
type FrameCase struct {
	Type                    int
	ID, N, Code             uint32
	MD, Data                gen.Blob
	Follows, Complete, Next bool
}

func (c FrameCase) ref() rs.Frame {
	f := rs.Frame{Type: c.Type, ID: c.ID}
	switch c.Type {
	case rs.TRequestStream, rs.TRequestChannel, rs.TRequestN:
		f.N = c.N
	case rs.TError:
		f.Code = c.Code
	}
	switch c.Type {
	case rs.TCancel, rs.TRequestN:
		return f
	}
	f.Data = c.Data.Bytes()
	if c.Type == rs.TError {
		f.Data = bytes.ToValidUTF8(f.Data, []byte("é"))
		return f
	}
	f.Metadata = c.MD.Bytes()
	f.HasMetadata = len(f.Metadata) > 0
	if c.Type == rs.TPayload {
		f.Next, f.Follows, f.Complete = c.Next, c.Follows, c.Complete
	}
	if c.Type == rs.TRequestChannel {
		f.Complete = c.Complete
	}
	return f
}

var smallBlob = gen.BlobOf(false)

var bigBlob = rapid.Custom(func(t *rapid.T) gen.Blob {
	return gen.Blob{Rep: rapid.SampledFrom([]int{0, 255, 256, 65535, 65536, 65537, 200000, 1 << 20}).Draw(t, "rep"), Fill: rapid.Byte().Draw(t, "fill")}
})

func genFrame(blob *rapid.Generator[gen.Blob]) func(*rapid.T) FrameCase {
	return func(t *rapid.T) FrameCase {
		return FrameCase{
			Type: rapid.IntRange(rs.TRequestResponse, rs.TError).Draw(t, "type"),
			ID:   gen.U32().Draw(t, "id") & 0x7fffffff,
			N:    gen.U32().Draw(t, "n"),
			Code: gen.U32().Draw(t, "code"),
			MD:   blob.Draw(t, "md"), Data: blob.Draw(t, "data"),
			Follows: rapid.Bool().Draw(t, "follows"), Complete: rapid.Bool().Draw(t, "complete"), Next: rapid.Bool().Draw(t, "next"),
		}
	}
}

func checkFrame(ctx *kit.Ctx, c FrameCase) error {
	want := c.ref()
	ctx.Label("type-%d", c.Type)
	ctx.NonTrivialIf(len(want.Data) > 0 || len(want.Metadata) > 0 || c.Type == rs.TRequestN || c.Type == rs.TCancel)
	exp := want.Encode()
	var enc struct {
		Bytes hexed
		Kind  int
	}
	if _, err := ask("encode", toRust(want), &enc); err != nil {
		return fmt.Errorf("encoding %v: %v", want, err)
	}
	if !bytes.Equal(enc.Bytes, exp) {
		return fmt.Errorf("frame %v is encoded to %d bytes %x..., the layout prescribes %d bytes %x...", want, len(enc.Bytes), clip(enc.Bytes), len(exp), clip(exp))
	}
	if enc.Kind != c.Type {
		return fmt.Errorf("frame %v says its type is %d", want, enc.Kind)
	}
	got, derr, err := decode(exp)
	if err != nil {
		return fmt.Errorf("decoding %v: %v", want, err)
	}
	if derr != "" {
		return fmt.Errorf("the encoding of %v is not decoded: %s", want, derr)
	}
	if !got.same(toRust(want)) {
		return fmt.Errorf("frame %v is decoded to %v", want, got)
	}
	return nil
}

// decode has the driver decode a frame, and checks what it says of the
// operation the payload is for.
func decode(raw []byte) (f rsFrame, derr string, err error) {
	var dec struct {
		Frame *rsFrame
		Index *uint32
		Error string
		ID    uint32
	}
	peak, err := ask("decode", hexed(raw), &dec)
	if err != nil {
		return f, "", err
	}
	if limit := 8*len(raw) + 1<<14; peak > limit {
		return f, "", fmt.Errorf("decoding %d bytes takes %d bytes of memory", len(raw), peak)
	}
	if dec.Frame == nil {
		if dec.Error == "" {
			dec.Error = "(no message)"
		}
		return f, dec.Error, nil
	}
	f = *dec.Frame
	switch f.Kind {
	case rs.TRequestN, rs.TCancel, rs.TError:
		if dec.Index != nil {
			return f, "", fmt.Errorf("a frame without payload is for operation %d", *dec.Index)
		}
	default:
		switch {
		case len(f.MD) < 4 && dec.Index != nil:
			return f, "", fmt.Errorf("metadata of %d bytes are for operation %d", len(f.MD), *dec.Index)
		case len(f.MD) == 8 && dec.Index == nil:
			return f, "", fmt.Errorf("metadata %x are not for any operation", f.MD)
		case dec.Index != nil:
			if i := uint32(f.MD[0])<<24 | uint32(f.MD[1])<<16 | uint32(f.MD[2])<<8 | uint32(f.MD[3]); i != *dec.Index {
				return f, "", fmt.Errorf("metadata %x are for operation %d", clip(f.MD), *dec.Index)
			}
		}
	}
	return f, "", nil
}

// BatchCase is frames in one buffer, of which the end may be missing.
type BatchCase struct {
	Frames []FrameCase
	Cut    int
}

type readAnswer struct {
	Frames []hexed
	Error  bool
	U24    []hexed
}

func checkBatch(ctx *kit.Ctx, c BatchCase) error {
	var raw []byte
	var frames [][]byte
	for _, f := range c.Frames {
		b := f.ref().Encode()
		raw = append(raw, byte(len(b)>>16), byte(len(b)>>8), byte(len(b)))
		raw = append(raw, b...)
		frames = append(frames, b)
	}
	ctx.NonTrivialIf(len(frames) > 1)
	cut := min(c.Cut, len(raw))
	ctx.Label("cut-%v", cut > 0)
	raw = raw[:len(raw)-cut]
	return readAll(raw)
}

// readAll reads the frames of a buffer.
func readAll(raw []byte) error {
	var want [][]byte
	rest := raw
	for len(rest) >= 3 {
		n := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		if len(rest) < 3+n {
			break
		}
		want = append(want, rest[3:3+n])
		rest = rest[3+n:]
	}
	var a readAnswer
	peak, err := ask("read", hexed(raw), &a)
	if err != nil {
		return fmt.Errorf("reading %d bytes %x...: %v", len(raw), clip(raw), err)
	}
	if limit := 8*len(raw) + 1<<14; peak > limit {
		return fmt.Errorf("reading a buffer of %d bytes (%x...) takes %d bytes of memory", len(raw), clip(raw), peak)
	}
	if a.Error != (len(rest) > 0) {
		return fmt.Errorf("reading %d bytes %x..., of which the last %d are no whole frame: error is %v", len(raw), clip(raw), len(rest), a.Error)
	}
	if len(a.Frames) != len(want) {
		return fmt.Errorf("%d frames are read of a buffer of %d", len(a.Frames), len(want))
	}
	for i, w := range want {
		if !bytes.Equal(w, a.Frames[i]) {
			return fmt.Errorf("frame %d of %d in a buffer is read as %x... instead of %x...", i, len(want), clip(a.Frames[i]), clip(w))
		}
	}
	for i, n := range []uint32{1, 255, 256, 65536, 0xffffff} {
		if w := []byte{byte(n >> 16), byte(n >> 8), byte(n)}; !bytes.Equal(a.U24[i], w) {
			return fmt.Errorf("length %d is written %x", n, a.U24[i])
		}
	}
	return nil
}

func genBatch(t *rapid.T) BatchCase {
	g := rapid.Custom(genFrame(smallBlob))
	c := BatchCase{Frames: rapid.SliceOfN(g, 0, 6).Draw(t, "frames")}
	if rapid.Bool().Draw(t, "short") {
		c.Cut = rapid.IntRange(0, 40).Draw(t, "cut")
	}
	return c
}

var X01 = &kit.Property{
	ID:   "X01",
	Rule: "a case is one frame of any type, or a buffer of several of which the end may be missing; non-trivial when the frame has a payload (or is of a type without one), the buffer more than one frame",
	Assumptions: []string{
		"stream ids are below 2^31, metadata below 2^24 bytes, error messages UTF-8, as the layout requires",
		"a request is one frame: the Rust side writes Follows on payload frames only, and Complete on payload and channel frames only, as its own tests prescribe",
	},
	Facets: []kit.Facet{
		kit.F("frame", 80000, 1200000, genFrame(smallBlob), checkFrame).WithBatch(10000),
		kit.F("large", 300, 3000, genFrame(bigBlob), checkFrame).WithBatch(50),
		kit.F("buffer", 8000, 80000, genBatch, checkBatch).WithBatch(1000),
	},
}

// ------------------------------------------------------------ malformed

func mutate(t *rapid.T, b []byte, reach int) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(0, 3).Draw(t, "edits")
	for i := 0; i < n && len(b) > 0; i++ {
		p := rapid.IntRange(0, min(len(b)-1, reach)).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 1:
			b = b[:p]
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b[p] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 4:
			b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
		case 5:
			b[p] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xff}).Draw(t, "hot")
		}
	}
	return b
}

// RawCase is an arbitrary byte string.
type RawCase struct{ Data hexed }

func genRawBytes(t *rapid.T) []byte {
	switch rapid.IntRange(0, 2).Draw(t, "rawmode") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "random")
	case 1:
		fl := uint16(rapid.IntRange(0, 1023).Draw(t, "flags"))
		h := rs.Frame{Type: rapid.IntRange(0, 63).Draw(t, "type"), ID: gen.U32().Draw(t, "id")}.Encode()[:6]
		if rapid.IntRange(0, 4).Draw(t, "known") > 0 {
			h[4] = byte(rapid.IntRange(rs.TRequestResponse, rs.TError).Draw(t, "known-type")) << 2
		}
		h[4] = h[4]&^3 | byte(fl>>8)
		h[5] = byte(fl)
		body := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff}), 0, 16).Draw(t, "body")
		return append(h, body...)
	}
	return mutate(t, genFrame(smallBlob)(t).ref().Encode(), 20)
}

func genRaw(t *rapid.T) RawCase { return RawCase{genRawBytes(t)} }

func checkRaw(ctx *kit.Ctx, c RawCase) error {
	want, perr := rs.Decode(c.Data)
	switch {
	case perr == nil:
		ctx.Label("well-formed")
	case errors.Is(perr, rs.ErrUnknown):
		ctx.Label("unknown-type")
	default:
		ctx.Label("truncated")
	}
	ctx.NonTrivialIf(len(c.Data) > 6)
	got, derr, err := decode(c.Data)
	if err != nil {
		return fmt.Errorf("decoding %d bytes %x: %v", len(c.Data), clip(c.Data), err)
	}
	if derr != "" {
		// What the specification does not allow may be rejected.
		if perr != nil || want.ID == 0 || c.Data[0]&0x80 != 0 || !bytes.Equal(want.Encode(), c.Data) || want.Type == rs.TError && !utf8.Valid(want.Data) {
			return nil
		}
		switch want.Type {
		case rs.TRequestN, rs.TRequestStream, rs.TRequestChannel:
			if want.N == 0 || want.N > 1<<31-1 {
				return nil
			}
		}
		return fmt.Errorf("the well-formed frame %v (%x) is rejected: %s", want, clip(c.Data), derr)
	}
	if perr != nil {
		return fmt.Errorf("the malformed frame %x (%v) is decoded to %v", clip(c.Data), perr, got)
	}
	w := toRust(want)
	if w.Kind != rs.TPayload {
		w.Next = false
		// Flags a frame of the type does not have may be shown or not.
		if w.Kind != rs.TRequestChannel {
			w.Complete, got.Complete = false, false
		}
	}
	switch want.Type {
	case rs.TCancel, rs.TRequestN, rs.TError:
		w.Follows = false
	}
	if !got.same(w) {
		return fmt.Errorf("%x is decoded to %v instead of %v", clip(c.Data), got, w)
	}
	return nil
}

func genRawBatch(t *rapid.T) RawCase {
	var b []byte
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "frames"); i < n; i++ {
		raw := genRawBytes(t)
		l := len(raw)
		switch rapid.IntRange(0, 8).Draw(t, "lie") {
		case 0:
			l = max(l+rapid.IntRange(-7, 7).Draw(t, "by"), 0)
		case 1:
			l = rapid.IntRange(0, 1<<24-1).Draw(t, "anything")
		}
		b = append(b, byte(l>>16), byte(l>>8), byte(l))
		b = append(b, raw...)
	}
	if rapid.IntRange(0, 3).Draw(t, "junk") == 0 {
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tail")...)
	}
	return RawCase{b}
}

func checkRawBatch(ctx *kit.Ctx, c RawCase) error {
	ctx.NonTrivialIf(len(c.Data) > 3)
	return readAll(c.Data)
}

var X02 = &kit.Property{
	ID:   "X02",
	Rule: "a case is an arbitrary byte string: random bytes, a plausible header with a short body, a mutated valid frame, a buffer of such frames with lying lengths, a mutated operation table; non-trivial when it is longer than a bare header",
	Assumptions: []string{
		"memory is counted by the process's allocator while the call runs",
	},
	Facets: []kit.Facet{
		kit.F("frame", 400000, 6000000, genRaw, checkRaw).WithBatch(25000),
		kit.F("buffer", 60000, 900000, genRawBatch, checkRawBatch).WithBatch(7500),
		kit.F("table", 200000, 3000000, genTableBytes, checkTableBytes).WithBatch(20000),
	},
}
