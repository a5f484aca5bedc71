package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// FragCase is a frame and a maximum frame size.
type FragCase struct {
	Type        int
	ID          uint32
	MdLen, DLen int
	Complete    bool
	Next        bool
	N           uint32
	Max         uint32
}

func genFragCase(t *rapid.T) FragCase {
	c := FragCase{Type: rapid.SampledFrom([]int{rs.TRequestResponse, rs.TRequestFNF, rs.TRequestStream, rs.TRequestChannel, rs.TPayload, rs.TPayload}).Draw(t, "type"),
		ID: genID().Draw(t, "id"), Complete: rapid.Bool().Draw(t, "complete"), Next: rapid.Bool().Draw(t, "next"), N: rapid.Uint32Range(1, 1<<31-1).Draw(t, "n")}
	c.Max = uint32(rapid.SampledFrom([]int{16, 17, 18, 20, 23, 32, 64, 65, 100, 255, 256, 1024, 4096}).Draw(t, "max"))
	// Lengths around multiples of what fits next to each header shape.
	l := func(name string) int {
		switch rapid.IntRange(0, 3).Draw(t, name+"-mode") {
		case 0:
			return 0
		case 1:
			return rapid.IntRange(0, 3*int(c.Max)).Draw(t, name)
		}
		k := rapid.IntRange(0, 4).Draw(t, name+"-k")
		hdr := rapid.SampledFrom([]int{0, 6, 9, 10, 13}).Draw(t, name+"-hdr")
		return max(0, k*(int(c.Max)-hdr)+rapid.IntRange(-2, 2).Draw(t, name+"-d"))
	}
	c.MdLen, c.DLen = l("md"), l("data")
	return c
}

func pattern(n, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + salt)
	}
	return b
}

func checkFragment(ctx *kit.Ctx, c FragCase) error {
	md, data := pattern(c.MdLen, 1), pattern(c.DLen, 2)
	var f frames.Fragmentable
	if c.Type == rs.TPayload {
		f = &frames.Payload{StreamID: c.ID, Metadata: md, Data: data, Complete: c.Complete, Next: c.Next}
	} else {
		f = &frames.RequestPayload{FrameType: frames.FrameType(c.Type), StreamID: c.ID, Metadata: md, Data: data, Complete: c.Complete, InitialN: c.N}
	}
	what := fmt.Sprintf("type %d, %d bytes of metadata, %d of data, maximum %d", c.Type, c.MdLen, c.DLen, c.Max)
	parts := f.Fragment(c.Max)
	if f.Size() <= c.Max {
		ctx.Label("fits")
		if len(parts) > 1 || (len(parts) == 1 && parts[0].Size() != f.Size()) {
			return fmt.Errorf("%s: a frame of %d bytes is fragmented", what, f.Size())
		}
		return nil
	}
	ctx.NonTrivial()
	ctx.Label("fragments-%d", min(len(parts), 8))
	if len(parts) < 2 {
		return fmt.Errorf("%s: %d fragments for a frame of %d bytes", what, len(parts), f.Size())
	}
	var gotMd, gotData []byte
	for i, p := range parts {
		last := i == len(parts)-1
		if p.Size() > c.Max {
			return fmt.Errorf("%s: fragment %d declares %d bytes", what, i, p.Size())
		}
		raw := make([]byte, p.Size())
		p.Encode(raw)
		r, err := rs.Decode(raw)
		if err != nil {
			return fmt.Errorf("%s: fragment %d is malformed: %v", what, i, err)
		}
		d, err := decode(raw)
		if err != nil {
			return fmt.Errorf("%s: fragment %d does not decode: %v", what, i, err)
		}
		g, err := fromIota(d)
		if err == nil {
			err = same(r, g)
		}
		if err != nil {
			return fmt.Errorf("%s: fragment %d: %v", what, i, err)
		}
		if r.ID != c.ID {
			return fmt.Errorf("%s: fragment %d is for stream %d instead of %d", what, i, r.ID, c.ID)
		}
		if r.Follows == last {
			return fmt.Errorf("%s: fragment %d of %d has follows=%v", what, i+1, len(parts), r.Follows)
		}
		if i == 0 && c.Type != rs.TPayload {
			if r.Type != c.Type {
				return fmt.Errorf("%s: the first fragment has type %d", what, r.Type)
			}
			if (c.Type == rs.TRequestStream || c.Type == rs.TRequestChannel) && r.N != c.N {
				return fmt.Errorf("%s: the first fragment asks for %d instead of %d", what, r.N, c.N)
			}
		} else if r.Type != rs.TPayload {
			return fmt.Errorf("%s: fragment %d has type %d", what, i, r.Type)
		}
		want := last && c.Complete
		if r.Complete != want {
			return fmt.Errorf("%s: fragment %d of %d has complete=%v, the frame %v", what, i+1, len(parts), r.Complete, c.Complete)
		}
		if last && c.Type == rs.TPayload && r.Next != c.Next {
			return fmt.Errorf("%s: the last fragment has next=%v, the frame %v", what, r.Next, c.Next)
		}
		gotMd = append(gotMd, r.Metadata...)
		gotData = append(gotData, r.Data...)
		if len(gotData) > 0 && len(gotMd) < len(md) {
			return fmt.Errorf("%s: fragment %d carries data before all metadata", what, i)
		}
	}
	if !bytes.Equal(gotMd, md) {
		return fmt.Errorf("%s: the fragments' metadata (%d bytes) is not the original", what, len(gotMd))
	}
	if !bytes.Equal(gotData, data) {
		return fmt.Errorf("%s: the fragments' data (%d bytes) is not the original", what, len(gotData))
	}
	// The original is untouched.
	if !bytes.Equal(md, pattern(c.MdLen, 1)) || !bytes.Equal(data, pattern(c.DLen, 2)) {
		return fmt.Errorf("%s: fragmenting alters the original buffers", what)
	}
	return nil
}

var W03 = &kit.Property{
	ID:          "W03",
	Rule:        "a case is a request or payload frame with metadata and data lengths around multiples of the maximum frame size (16..4096 bytes); non-trivial when the frame exceeds the maximum",
	Assumptions: []string{"the maximum frame size is at least 16 bytes, enough for the largest header and a byte of content (RSocket prescribes at least 64)"},
	Facets:      []kit.Facet{kit.F("fragment", 60000, 500000, genFragCase, checkFragment).WithBatch(7500)},
}

var _ = gen.U64
