package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
)

const quiesceLimit = 60 * time.Second

// bufSize is the size of the buffers the host negotiates.
const bufSize = 16 * 1024

func built(name string) []byte {
	exe, err := os.Executable()
	if err != nil {
		kit.Bug("%v", err)
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "..", "overlay-wasm", name))
	if err != nil {
		kit.Bug("%v", err)
	}
	return b
}

var guestOnce = sync.OnceValue(func() []byte {
	b, err := renameExport(built("guest.wasm"), "_initialize", "_start")
	if err != nil {
		kit.Bug("%v", err)
	}
	return b
})

func uleb(b []byte) (v, n int) {
	for i := 0; i < 5; i++ {
		v |= int(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

// renameExport renames an exported function: the host runs _start, and the
// library mode of the Go compiler calls it _initialize.
func renameExport(m []byte, from, to string) ([]byte, error) {
	out := append([]byte{}, m[:8]...)
	done := false
	for b := m[8:]; len(b) > 0; {
		id := b[0]
		size, n := uleb(b[1:])
		body := b[1+n : 1+n+size]
		whole := b[:1+n+size]
		b = b[1+n+size:]
		if id != 7 {
			out = append(out, whole...)
			continue
		}
		count, n := uleb(body)
		nb := append([]byte{}, body[:n]...)
		body = body[n:]
		for i := 0; i < count; i++ {
			l, n := uleb(body)
			name := string(body[n : n+l])
			body = body[n+l:]
			if name == from {
				name, done = to, true
			}
			_, k := uleb(body[1:])
			nb = binary.AppendUvarint(nb, uint64(len(name)))
			nb = append(nb, name...)
			nb = append(nb, body[:1+k]...)
			body = body[1+k:]
		}
		out = append(out, id)
		out = binary.AppendUvarint(out, uint64(len(nb)))
		out = append(out, nb...)
	}
	if !done {
		return nil, fmt.Errorf("the guest does not export %s", from)
	}
	return out, nil
}

// env is a running guest and the scripted endpoint of its host.
type env struct {
	inst   *host.Instance
	player *play.Player
	cmd    uint32
	key    uint32

	handlers []func()
}

var current *env

type ctxKey struct{}

// theEnv returns the running guest, or starts one.
func theEnv() (*env, error) {
	if current != nil {
		return current, nil
	}
	ctx := context.Background()
	h, err := host.New(ctx)
	if err != nil {
		return nil, fmt.Errorf("creating a host: %w", err)
	}
	m, err := h.Compile(ctx, guestOnce())
	if err != nil {
		return nil, fmt.Errorf("compiling the guest: %w", err)
	}
	inst, err := m.Instantiate(ctx)
	if err != nil {
		return nil, fmt.Errorf("instantiating the guest: %w", err)
	}
	e := &env{inst: inst, player: &play.Player{Peer: inst}}
	e.player.Inner = func(ctx context.Context) int64 {
		k, _ := ctx.Value(ctxKey{}).(int64)
		return k
	}
	e.player.Root = func(key uint32) context.Context {
		return context.WithValue(ctx, ctxKey{}, int64(key))
	}
	e.player.Reset()
	kinds := map[operations.RequestType]int{operations.RequestResponse: play.RR, operations.FireAndForget: play.FNF,
		operations.RequestStream: play.Stream, operations.RequestChannel: play.Channel}
	found := map[string]bool{}
	for _, op := range inst.Operations() {
		kind, ok := kinds[op.Type]
		id := fmt.Sprintf("%s %s %s %v", op.Direction, op.Namespace, op.Operation, op.Type)
		if !ok || found[id] {
			return nil, fmt.Errorf("the guest's table lists %s %v twice or of no known kind", id, found[id])
		}
		found[id] = true
		var n int
		switch {
		case op.Direction == operations.Export && op.Operation == "cmd":
			e.cmd = op.Index
		case op.Direction == operations.Export && op.Namespace == "play":
			fmt.Sscanf(op.Operation, "op%d", &n)
			e.player.Index[kind][n] = op.Index
		case op.Direction == operations.Import && op.Namespace == "host":
			fmt.Sscanf(op.Operation, "op%d", &n)
			if n == play.Free {
				continue
			}
			switch kind {
			case play.RR:
				e.handlers = append(e.handlers, func() { inst.SetRequestResponseHandler(op.Index, e.player.HandleRR(n)) })
			case play.FNF:
				e.handlers = append(e.handlers, func() { inst.SetFireAndForgetHandler(op.Index, e.player.HandleFNF(n)) })
			case play.Stream:
				e.handlers = append(e.handlers, func() { inst.SetRequestStreamHandler(op.Index, e.player.HandleStream(n)) })
			case play.Channel:
				e.handlers = append(e.handlers, func() { inst.SetRequestChannelHandler(op.Index, e.player.HandleChannel(n)) })
			}
		}
	}
	if len(found) != 4*4+1+4*5 {
		return nil, fmt.Errorf("the guest's table lists %d operations of %d", len(found), 4*4+1+4*5)
	}
	e.handle(1)
	current = e
	return e, nil
}

// handle sets all handlers so many times.
func (e *env) handle(n int) {
	for ; n > 0; n-- {
		for _, set := range e.handlers {
			set()
		}
	}
}

var _ play.Peer = (*host.Instance)(nil)
var _ invoke.Caller = (*host.Instance)(nil)

var errNotQuiet = errors.New("not quiescent")

// guest sends a command to the guest. The command is answered at once or not
// at all.
func (e *env) guest(c play.Cmd) (play.Reply, error) {
	var r play.Reply
	j, err := json.Marshal(c)
	if err != nil {
		kit.Bug("%v", err)
	}
	md := binary.BigEndian.AppendUint32(nil, e.cmd)
	p := payload.New(j, append(md, 0, 0, 0, 0))
	type result struct {
		v   payload.Payload
		err error
	}
	ch := make(chan result, 4)
	e.inst.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(v payload.Payload) { ch <- result{v, nil} },
		OnError:   func(err error) { ch <- result{nil, err} },
	})
	select {
	case res := <-ch:
		return decodeReply(c, res.v, res.err)
	case <-time.After(2 * time.Millisecond):
	}
	for {
		err := kit.Quiesce(quiesceLimit)
		select {
		case res := <-ch:
			return decodeReply(c, res.v, res.err)
		default:
		}
		if err != nil {
			return r, fmt.Errorf("%w: %v", errNotQuiet, err)
		}
		return r, fmt.Errorf("the guest never answers the command %s", c.Do)
	}
}

func decodeReply(c play.Cmd, v payload.Payload, err error) (r play.Reply, _ error) {
	if err != nil {
		return r, fmt.Errorf("the command %s fails: %v", c.Do, err)
	}
	if err := json.Unmarshal(v.Data(), &r); err != nil {
		return r, fmt.Errorf("the command %s is answered with %q", c.Do, v.Data())
	}
	return r, nil
}

// at sends a command to one side.
func (e *env) at(side int, c play.Cmd) (play.Reply, error) {
	if side == 0 {
		return e.player.Do(c), nil
	}
	return e.guest(c)
}

// logs returns what a side has seen.
func (e *env) logs(side int) ([]play.Event, error) {
	var all []play.Event
	for {
		r, err := e.at(side, play.Cmd{Do: "log", N: 60})
		if err != nil {
			return nil, err
		}
		all = append(all, r.Events...)
		if !r.More {
			return all, nil
		}
	}
}
