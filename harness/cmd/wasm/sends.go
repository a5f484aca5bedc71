package main

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"pgregory.net/rapid"
)

// SendSpec is a frame the host sends.
type SendSpec struct {
	Type  int
	Data  play.Blob
	Meta  play.Blob
	N     uint32
	Flags int
	Edge  int // the frame is so much larger than what fits (-1000: as it is)
	Grow  int `json:",omitempty"` // the guest enlarges its memory by so many pages when it sees the frame, a request
}

// Sends is a case: what each goroutine sends.
type Sends struct {
	By [][]SendSpec
}

func genSends(grow bool) func(t *rapid.T) Sends {
	return func(t *rapid.T) Sends { return drawSends(t, grow) }
}

func drawSends(t *rapid.T, grow bool) Sends {
	var c Sends
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "senders"); i < n; i++ {
		var fs []SendSpec
		for j, k := 0, rapid.IntRange(1, 40).Draw(t, "frames"); j < k; j++ {
			f := SendSpec{Type: rapid.SampledFrom([]int{4, 5, 6, 7, 8, 9, 10, 10, 10, 11}).Draw(t, "type"), Edge: -1000}
			f.Data.F = rapid.Byte().Draw(t, "fill")
			switch rapid.IntRange(0, 9).Draw(t, "size class") {
			case 0:
				f.Edge = rapid.IntRange(-8, 4).Draw(t, "edge")
			case 1:
				f.Data.N = rapid.IntRange(4000, 17000).Draw(t, "size")
			case 2, 3:
				f.Data.N = rapid.SampledFrom([]int{0, 1, 255, 256, 5450, 5451, 5452, 8180, 8181, 8182, 8183, 8192}).Draw(t, "size")
			default:
				f.Data.N = rapid.IntRange(0, 300).Draw(t, "size")
			}
			if rapid.Bool().Draw(t, "with metadata") {
				f.Meta = play.Blob{N: rapid.IntRange(1, 300).Draw(t, "metadata"), F: 3}
			}
			f.N = uint32(rapid.SampledFrom([]int{1, 2, 255, 256, 65536, 1<<31 - 1}).Draw(t, "n"))
			f.Flags = rapid.IntRange(0, 3).Draw(t, "flags")
			if grow && f.Type <= rs.TRequestChannel && rapid.IntRange(0, 2).Draw(t, "grows") == 0 {
				f.Grow = rapid.SampledFrom([]int{1, 1, 2, 30, 80}).Draw(t, "pages")
			}
			fs = append(fs, f)
		}
		c.By = append(c.By, fs)
	}
	return c
}

// frame is the frame in both notations.
func (s SendSpec) frame(id uint32) (frames.Frame, rs.Frame) {
	r := rs.Frame{Type: s.Type, ID: id, Data: s.Data.Bytes(), Metadata: s.Meta.Bytes(), N: s.N}
	if s.Type >= rs.TRequestResponse && s.Type <= rs.TRequestChannel {
		// The raw guest takes requests for the silent operation as what they are.
		r.Metadata = append([]byte{0, 0, 0xDE, 0xAD, 0, 0, 0, byte(s.Grow)}, r.Metadata...)
	}
	r.HasMetadata = len(r.Metadata) > 0
	switch s.Type {
	case rs.TRequestN, rs.TCancel, rs.TError:
		r.HasMetadata, r.Metadata = false, nil
		if s.Type != rs.TError {
			r.Data = nil
		}
	}
	if s.Edge > -1000 && (s.Type <= rs.TRequestChannel || s.Type == rs.TPayload) {
		r.Data = nil
		r.Data = play.Blob{N: bufSize - 3 + s.Edge - len(r.Encode()), F: s.Data.F}.Bytes()
	}
	switch s.Type {
	case rs.TRequestN:
		return &frames.RequestN{StreamID: id, N: s.N}, r
	case rs.TCancel:
		return &frames.Cancel{StreamID: id}, r
	case rs.TError:
		r.Code = uint32(frames.ErrCodeApplicationError)
		r.Data = r.Data[:min(len(r.Data), 8000)]
		return &frames.Error{StreamID: id, Code: frames.ErrCodeApplicationError, Data: string(r.Data)}, r
	case rs.TPayload:
		r.Next, r.Complete = s.Flags&1 != 0, s.Flags&2 != 0
		return &frames.Payload{StreamID: id, Metadata: r.Metadata, Data: r.Data, Next: r.Next, Complete: r.Complete}, r
	}
	if s.Type == rs.TRequestResponse || s.Type == rs.TRequestFNF {
		r.N = 1
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(s.Type), StreamID: id, Metadata: r.Metadata, Data: r.Data, InitialN: r.N}, r
}

var (
	sendInst  *host.Instance
	sendGrown int // pages that sendInst has added to its memory
)

func checkSends(ctx *kit.Ctx, c Sends) error {
	healthy := false
	defer func() {
		if !healthy {
			sendInst = nil
			sendGrown = 0
		}
	}()
	if sendInst == nil {
		inst, err := startRaw(context.Background(), rawModule(1, nil))
		if err != nil {
			return err
		}
		sendInst = inst
	}
	if err := rawReset(sendInst); err != nil {
		return err
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.By))
	want := make([][][]byte, len(c.By))
	total, edges, grows := 0, 0, 0
	for i, fs := range c.By {
		for _, s := range fs {
			grows += s.Grow
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, s := range fs {
				f, r := s.frame(uint32(i+1)<<24 + uint32(j))
				e := r.Encode()
				err := sendInst.SendFrame(f)
				if fits := fits(len(e)); fits != (err == nil) && errs[i] == nil {
					errs[i] = fmt.Errorf("sending a frame of %d bytes through a buffer of %d: %v", len(e), bufSize, err)
				}
				if err == nil {
					want[i] = append(want[i], e)
				}
			}
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	if err := kit.Quiesce(quiesceLimit); err != nil {
		return ctx.Inconclusive("%v", err)
	}
	batches, err := rawLog(sendInst)
	if err != nil {
		if errors.Is(err, errNotQuiet) {
			return ctx.Inconclusive("%v", err)
		}
		return err
	}
	next := make([]int, len(c.By))
	most := 0
	for _, b := range batches {
		if len(b) > bufSize {
			return fmt.Errorf("a batch of %d bytes is sent through a buffer of %d", len(b), bufSize)
		}
		fs, whole := split(b)
		if !whole {
			return fmt.Errorf("a batch of %d bytes is not a sequence of frames", len(b))
		}
		most = max(most, len(fs))
		if len(b) > bufSize-8 {
			edges++
		}
		for _, f := range fs {
			r, err := rs.Decode(f)
			if err != nil {
				return fmt.Errorf("a malformed frame arrives (%x): %v", head(f), err)
			}
			if r.ID < 1<<24 {
				continue // of the harness
			}
			i := int(r.ID>>24) - 1
			if i >= len(want) || next[i] >= len(want[i]) {
				return fmt.Errorf("a frame arrives that was not sent: %v", r)
			}
			if string(want[i][next[i]]) != string(f) {
				w, _ := rs.Decode(want[i][next[i]])
				return fmt.Errorf("%v arrives in place of %v", r, w)
			}
			next[i]++
		}
	}
	for i := range want {
		if next[i] != len(want[i]) {
			return fmt.Errorf("%d of the %d frames of a sender arrive", next[i], len(want[i]))
		}
		total += len(want[i])
	}
	if edges > 0 {
		ctx.Label("nearly full batch")
	}
	ctx.Label("most in a batch: %d+", most/10*10)
	ctx.NonTrivialIf(total > 3 && most > 1)
	sendGrown += grows
	healthy = sendGrown < 400
	if grows > 0 {
		ctx.Label("the memory grows")
	}
	return nil
}
