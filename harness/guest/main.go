//go:build wasip1

// Command guest is the WebAssembly guest of the checks: the library's guest
// side around a scripted endpoint.
package main

import (
	"context"
	"encoding/json"
	"fmt"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/zz_verif/play"
)

//go:wasmexport __wasmrs_init
func wasmrsInit(a, b, c uint32) uint32 {
	if guest.Init(a, b, c) {
		return 1
	}
	return 0
}

//go:wasmexport __wasmrs_op_list_request
func opListRequest() { guest.OperationList() }

//go:wasmexport __wasmrs_send
func send(n uint32) { guest.GuestSend(n) }

var player = &play.Player{Peer: guest.HostInvoker}

func init() {
	player.Reset()
	player.Outer = func(ctx context.Context) uint32 {
		if s, ok := proxy.FromContext(ctx); ok {
			return s.StreamID()
		}
		return 0
	}
	// The order differs from kind to kind, so that no two operations of one
	// name have one index.
	invoke.ExportRequestResponse("play", "cmd", command)
	for i := 0; i <= play.Bare; i++ {
		invoke.ExportRequestResponse("play", fmt.Sprint("op", i), player.HandleRR(i))
	}
	for i := play.Bare; i >= 0; i-- {
		invoke.ExportFireAndForget("play", fmt.Sprint("op", i), player.HandleFNF(i))
	}
	for _, i := range []int{2, 0, 3, 1} {
		invoke.ExportRequestStream("play", fmt.Sprint("op", i), player.HandleStream(i))
	}
	for _, i := range []int{1, 3, 0, 2} {
		invoke.ExportRequestChannel("play", fmt.Sprint("op", i), player.HandleChannel(i))
	}
	for _, i := range []int{1, 0, 4, 2, 3} {
		player.Index[play.RR][i] = guest.HostInvoker.ImportRequestResponse("host", fmt.Sprint("op", i))
	}
	for _, i := range []int{4, 0, 1, 3, 2} {
		player.Index[play.FNF][i] = guest.HostInvoker.ImportFireAndForget("host", fmt.Sprint("op", i))
	}
	for _, i := range []int{3, 4, 2, 1, 0} {
		player.Index[play.Stream][i] = guest.HostInvoker.ImportRequestStream("host", fmt.Sprint("op", i))
	}
	for _, i := range []int{0, 2, 3, 1, 4} {
		player.Index[play.Channel][i] = guest.HostInvoker.ImportRequestChannel("host", fmt.Sprint("op", i))
	}
}

// command carries out a command of the harness.
func command(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	var c play.Cmd
	if err := json.Unmarshal(p.Data(), &c); err != nil {
		return mono.Error[payload.Payload](err)
	}
	b, err := json.Marshal(player.Do(c))
	if err != nil {
		return mono.Error[payload.Payload](err)
	}
	return mono.Just[payload.Payload](payload.New(b))
}

func main() {}
