//go:build wasm

package play

import (
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func blockMono(*run, mono.Mono[payload.Payload]) bool { return false }

func blockFlux(*run, flux.Flux[payload.Payload], flux.Subscribe[payload.Payload]) bool { return false }
