package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
	"github.com/nanobus/iota/go/zz_verif/ref/rs"
)

// Operations of the raw guest.
const (
	rawCmd    = 0xC0DE
	rawSilent = 0xDEAD
)

// rawModule is the raw guest with an identity and a table of operations.
func rawModule(id uint32, ops []rs.Op) []byte {
	return rawModuleWith(id, rs.EncodeOps(ops))
}

func rawModuleWith(id uint32, table []byte) []byte {
	b := append([]byte{}, built("raw.wasm")...)
	i := bytes.Index(b, []byte("RAW GUEST TABLE\x01"))
	if i < 0 || len(table) > 32768 {
		kit.Bug("the raw guest cannot be patched")
	}
	binary.LittleEndian.PutUint32(b[i+16:], id)
	binary.LittleEndian.PutUint32(b[i+20:], uint32(len(table)))
	copy(b[i+24:], table)
	return b
}

// rawGuest is the library's host side with a raw guest.
type rawGuest struct {
	inst   *host.Instance
	player *play.Player
}

func startRaw(ctx context.Context, module []byte) (*host.Instance, error) {
	h, err := host.New(ctx)
	if err != nil {
		return nil, fmt.Errorf("creating a host: %w", err)
	}
	m, err := h.Compile(ctx, module)
	if err != nil {
		return nil, fmt.Errorf("compiling the raw guest: %w", err)
	}
	inst, err := m.Instantiate(ctx)
	if err != nil {
		return nil, fmt.Errorf("instantiating the raw guest: %w", err)
	}
	return inst, nil
}

// rawCommand has a raw guest carry out a command.
func rawCommand(inst *host.Instance, d []byte) ([]byte, error) {
	md := binary.BigEndian.AppendUint32(nil, rawCmd)
	p := payload.New(d, append(md, 0, 0, 0, 0))
	type result struct {
		v   payload.Payload
		err error
	}
	ch := make(chan result, 4)
	inst.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(v payload.Payload) { ch <- result{v, nil} },
		OnError:   func(err error) { ch <- result{nil, err} },
	})
	give := func(r result) ([]byte, error) {
		if r.err != nil {
			return nil, fmt.Errorf("the raw guest's answer to the command %q is the error %v", d[:1], r.err)
		}
		return r.v.Data(), nil
	}
	select {
	case r := <-ch:
		return give(r)
	case <-time.After(2 * time.Millisecond):
	}
	err := kit.Quiesce(quiesceLimit)
	select {
	case r := <-ch:
		return give(r)
	default:
	}
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errNotQuiet, err)
	}
	return nil, fmt.Errorf("the raw guest's answer to the command %q never arrives", d[:1])
}

// rawLog returns the batches a raw guest has received.
func rawLog(inst *host.Instance) ([][]byte, error) {
	var all []byte
	for {
		r, err := rawCommand(inst, binary.BigEndian.AppendUint32([]byte{'D'}, uint32(len(all))))
		if err != nil {
			return nil, err
		}
		if len(r) < 4 {
			return nil, fmt.Errorf("the raw guest's log arrives as %d bytes", len(r))
		}
		if len(r) == 4 {
			break
		}
		all = append(all, r[4:]...)
		if total := binary.BigEndian.Uint32(r); len(r)-4 < 8000 && int(total) == len(all) {
			break
		}
	}
	var out [][]byte
	for len(all) >= 4 {
		n := binary.BigEndian.Uint32(all)
		if int(n) > len(all)-4 {
			return nil, fmt.Errorf("the raw guest's log arrives damaged")
		}
		out = append(out, all[4:4+n])
		all = all[4+n:]
	}
	return out, nil
}

func rawReset(inst *host.Instance) error {
	_, err := rawCommand(inst, []byte{'R'})
	return err
}

// rawSend has a raw guest send a batch, of which it says that it is of n bytes.
func rawSend(inst *host.Instance, batch []byte, n uint32) error {
	b := make([]byte, bufSize)
	copy(b, batch)
	for off := 0; off < len(b); off += 8192 {
		d := binary.BigEndian.AppendUint32([]byte{'A'}, uint32(off))
		if _, err := rawCommand(inst, append(d, b[off:off+8192]...)); err != nil {
			return err
		}
	}
	d := binary.BigEndian.AppendUint32([]byte{'S'}, n)
	_, err := rawCommand(inst, binary.BigEndian.AppendUint32(d, uint32(len(b))))
	return err
}
