package main

import (
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/play"
)

func calls(name string, quick, thorough int, p profile) kit.Facet {
	return kit.F(name, quick, thorough, genCalls(p), checkCalls).WithBatch(max(250, quick/4)).WithList("Steps")
}

var (
	allKinds = []int{play.RR, play.RR, play.FNF, play.Stream, play.Stream, play.Channel, play.Channel}
	fromHost = []int{0}
	fromAny  = []int{0, 1}
	guests   = []int{1, 1, 1, 0}
)

const wasmAssume = "the guest is compiled by the Go compiler for WASI, with the three import declarations of the guest package in that compiler's form; a guest serves one frame at a time and starts no goroutines"

var H01 = &kit.Property{
	ID:          "H01",
	Rule:        "at least two calls are served, or a call is made many times at once, or a handler relays it",
	Assumptions: []string{wasmAssume},
	Facets: []kit.Facet{
		calls("calls", 2000, 60000, profile{from: fromHost, kinds: allKinds, maxCall: 8}),
		calls("edges", 1500, 50000, profile{from: fromHost, kinds: allKinds, maxCall: 5, edges: true}),
		calls("bursts", 400, 10000, profile{from: fromHost, kinds: allKinds, maxCall: 4, burst: true, long: true, hurry: true}),
		calls("in a hurry", 2000, 60000, profile{from: fromHost, kinds: allKinds, maxCall: 12, hurry: true}),
	},
}

var H02 = &kit.Property{
	ID:          "H02",
	Rule:        "at least two calls are served, or a call is made many times at once, or a handler relays it",
	Assumptions: []string{wasmAssume},
	Facets: []kit.Facet{
		calls("calls", 2000, 60000, profile{from: guests, kinds: allKinds, maxCall: 8}),
		calls("relays", 2000, 60000, profile{from: fromAny, kinds: allKinds, maxCall: 5, relay: true}),
		calls("edges", 1500, 50000, profile{from: guests, kinds: allKinds, maxCall: 5, edges: true, relay: true}),
		calls("bursts", 400, 10000, profile{from: guests, kinds: allKinds, maxCall: 4, burst: true, long: true, hurry: true, relay: true, renew: true}),
		calls("in a hurry", 2000, 60000, profile{from: fromAny, kinds: allKinds, maxCall: 10, hurry: true, relay: true, renew: true}),
	},
}

var H03 = &kit.Property{
	ID:   "H03",
	Rule: "more than four valid frames, or more than two and a malformed one, cross the boundary; sends: more than three frames, some of them in one batch",
	Assumptions: []string{wasmAssume,
		"the other side of the endpoint under test is a raw guest in C, or a raw host in the harness"},
	Facets: []kit.Facet{
		kit.F("the host sends", 4000, 40000, genSends(false), checkSends).WithBatch(400),
		kit.F("the guest's memory grows", 1500, 20000, genSends(true), checkSends).WithBatch(250),
		kit.F("batches to the guest", 4000, 40000, genBatches(0, true), checkBatches(theGuest, func() { theRawHost = nil })).WithBatch(400),
		kit.F("malformed batches to the guest", 8000, 80000, genBatches(3, true), checkBatches(theGuest, func() { theRawHost = nil })).WithBatch(400),
		kit.F("batches to the host", 4000, 40000, genBatches(0, false), checkBatches(theHost, func() { theRawGuest = nil })).WithBatch(400),
		kit.F("malformed batches to the host", 6000, 80000, genBatches(3, false), checkBatches(theHost, func() { theRawGuest = nil })).WithBatch(400),
	},
}

var M04 = &kit.Property{
	ID:          "M04",
	Rule:        "at least two calls of operations that some module exports",
	Assumptions: []string{"modules are raw guests with generated operation tables; a module exports and imports an operation at most once; modules are not loaded while calls are being started"},
	Facets: []kit.Facet{
		kit.F("meshes", 2000, 40000, genMeshes(false), checkMeshes).WithBatch(250),
		kit.F("replaced modules", 40, 800, genMeshes(true), checkMeshes).WithBatch(5),
	},
}

var H05 = &kit.Property{
	ID:          "H05",
	Rule:        "a call is under way when the guest fails or the instance is closed",
	Assumptions: []string{"the guest is a raw guest in C, which goes on to work after it has failed"},
	Facets: []kit.Facet{
		kit.F("doomed calls", 2500, 40000, genDoom, checkDoom).WithBatch(100),
	},
}
