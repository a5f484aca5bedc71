package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"

	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1"
)

// rawHost runs the guest without the library's host side.
type rawHost struct {
	m            api.Module
	guest, host  uint32 // the buffers
	hsize        int
	ops          []rs.Op
	sent         [][]byte // batches the guest has sent
	bad          error
	nextID       uint32
	cmd          uint32
	index        [4]uint32 // of the operations Bare
	gsize        int
	importStream uint32
}

var theRawHost *rawHost

func newRawHost() (*rawHost, error) {
	ctx := context.Background()
	h := &rawHost{nextID: 2}
	r := wazero.NewRuntimeWithConfig(ctx, wazero.NewRuntimeConfig().WithCoreFeatures(api.CoreFeaturesV2))
	if _, err := wasi_snapshot_preview1.Instantiate(ctx, r); err != nil {
		kit.Bug("%v", err)
	}
	i32 := api.ValueTypeI32
	_, err := r.NewHostModuleBuilder("wasmrs").
		NewFunctionBuilder().WithGoModuleFunction(api.GoModuleFunc(func(ctx context.Context, m api.Module, p []uint64) {
		h.guest, h.host = uint32(p[0]), uint32(p[1])
	}), []api.ValueType{i32, i32}, nil).Export("__init_buffers").
		NewFunctionBuilder().WithGoModuleFunction(api.GoModuleFunc(func(ctx context.Context, m api.Module, p []uint64) {
		b, ok := m.Memory().Read(uint32(p[0]), uint32(p[1]))
		if !ok {
			h.bad = fmt.Errorf("the guest announces %d operations' bytes at %d, outside of its memory", p[1], p[0])
			return
		}
		ops, err := rs.DecodeOps(append([]byte{}, b...))
		if err != nil {
			h.bad = fmt.Errorf("the guest's table: %v", err)
		}
		h.ops = ops
	}), []api.ValueType{i32, i32}, nil).Export("__op_list").
		NewFunctionBuilder().WithGoModuleFunction(api.GoModuleFunc(func(ctx context.Context, m api.Module, p []uint64) {
		n := uint32(p[0])
		if int(n) > h.hsize {
			h.bad = fmt.Errorf("the guest sends a batch of %d bytes through a buffer of %d", n, h.hsize)
			return
		}
		b, ok := m.Memory().Read(h.host, n)
		if !ok {
			h.bad = fmt.Errorf("the guest's buffer lies outside of its memory")
			return
		}
		h.sent = append(h.sent, append([]byte{}, b...))
	}), []api.ValueType{i32}, nil).Export("__send").
		Instantiate(ctx, r)
	if err != nil {
		kit.Bug("%v", err)
	}
	c, err := r.CompileModule(ctx, guestOnce())
	if err != nil {
		return nil, err
	}
	h.m, err = r.InstantiateModule(ctx, c, wazero.NewModuleConfig().WithStartFunctions("_start"))
	if err != nil {
		return nil, err
	}
	if err := h.init(bufSize, bufSize); err != nil {
		return nil, err
	}
	if _, err := h.call("__wasmrs_op_list_request"); err != nil {
		return nil, err
	}
	for _, op := range h.ops {
		switch {
		case op.Dir == 1 && op.Name == "cmd":
			h.cmd = op.Index
		case op.Dir == 1 && op.NS == "play" && op.Name == fmt.Sprint("op", play.Bare):
			h.index[op.Kind-1] = op.Index
		}
	}
	return h, h.bad
}

func (h *rawHost) call(name string, args ...uint64) ([]uint64, error) {
	return h.m.ExportedFunction(name).Call(context.Background(), args...)
}

// init negotiates the buffers.
func (h *rawHost) init(gsize, hsize int) error {
	h.gsize, h.hsize = gsize, hsize
	h.guest, h.host = 0, 0
	if _, err := h.call("__wasmrs_init", uint64(gsize), uint64(hsize), 1<<20); err != nil {
		return fmt.Errorf("initialising the guest: %v", err)
	}
	if h.guest == 0 || h.host == 0 {
		return fmt.Errorf("the guest does not announce its buffers")
	}
	return nil
}

// deliver hands a batch to the guest, of which it says that it is of n bytes.
func (h *rawHost) deliver(batch []byte, n uint32) error {
	b := make([]byte, h.gsize)
	copy(b, batch)
	if !h.m.Memory().Write(h.guest, b) {
		return fmt.Errorf("the guest's buffer lies outside of its memory")
	}
	if _, err := h.call("__wasmrs_send", uint64(n)); err != nil {
		return fmt.Errorf("the guest traps: %.200v", err)
	}
	return h.bad
}

// take returns the frames that the other side has sent since the last time.
func (h *rawHost) take() ([]rs.Frame, error) {
	sent := h.sent
	h.sent = nil
	return parseAll(sent)
}

// parseAll splits well-formed batches.
func parseAll(batches [][]byte) ([]rs.Frame, error) {
	var out []rs.Frame
	for _, b := range batches {
		fs, whole := split(b)
		if !whole {
			return nil, fmt.Errorf("a batch of %d bytes is not a sequence of frames", len(b))
		}
		for _, f := range fs {
			fr, err := rs.Decode(f)
			if err != nil {
				return nil, fmt.Errorf("a batch contains a malformed frame of %d bytes (%x): %v", len(f), head(f), err)
			}
			out = append(out, fr)
		}
	}
	return out, nil
}

func head(b []byte) []byte { return b[:min(len(b), 40)] }

// split cuts a batch into its frames, as far as they are complete.
func split(b []byte) (fs [][]byte, whole bool) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if n > len(b)-3 {
			return fs, false
		}
		fs = append(fs, b[3:3+n])
		b = b[3+n:]
	}
	return fs, len(b) == 0
}

// join is the inverse of split.
func join(fs ...[]byte) []byte {
	var out []byte
	for _, f := range fs {
		out = append(out, byte(len(f)>>16), byte(len(f)>>8), byte(len(f)))
		out = append(out, f...)
	}
	return out
}

// command makes the guest carry out a command of the harness.
func (h *rawHost) command(c play.Cmd) (r play.Reply, others []rs.Frame, err error) {
	j, err := json.Marshal(c)
	if err != nil {
		kit.Bug("%v", err)
	}
	id := h.nextID
	h.nextID += 2
	f := rs.Frame{Type: rs.TRequestResponse, ID: id, HasMetadata: true,
		Metadata: append(binary.BigEndian.AppendUint32(nil, h.cmd), 0, 0, 0, 0), Data: j}
	b := join(f.Encode())
	if err := h.deliver(b, uint32(len(b))); err != nil {
		return r, nil, err
	}
	fs, err := h.take()
	if err != nil {
		return r, nil, err
	}
	found := false
	for _, f := range fs {
		if f.ID != id {
			others = append(others, f)
		} else if found || f.Type != rs.TPayload || json.Unmarshal(f.Data, &r) != nil {
			return r, nil, fmt.Errorf("the command %s is answered with %v", c.Do, f)
		} else {
			found = true
		}
	}
	if !found {
		return r, nil, fmt.Errorf("the command %s is not answered", c.Do)
	}
	return r, others, nil
}
