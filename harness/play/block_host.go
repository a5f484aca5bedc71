//go:build !wasm

package play

import (
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func blockMono(r *run, m mono.Mono[payload.Payload]) bool {
	go func() {
		v, err := m.Block()
		if err != nil {
			r.failed(err)
		} else {
			r.answered(v)
		}
	}()
	return true
}

func blockFlux(r *run, f flux.Flux[payload.Payload], cb flux.Subscribe[payload.Payload]) bool {
	go func() {
		err := f.Block(cb)
		text := ""
		if err != nil {
			text = err.Error()
		}
		r.p.log(r.c.Key, "made", "returns", 0, text)
	}()
	return true
}
