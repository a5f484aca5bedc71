package main

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

// IDCase starts an allocator at a position of its id space and draws from it.
type IDCase struct {
	Server  bool
	Start   uint64
	Workers int
	Each    int
	Yield   bool
}

const idSpace = 1 << 30 // odd numbers below 2^31; there is one even number less

func genIDCase(workers bool) func(t *rapid.T) IDCase {
	return func(t *rapid.T) IDCase {
		c := IDCase{Server: rapid.Bool().Draw(t, "server"), Workers: 1, Each: rapid.IntRange(1, 60).Draw(t, "each")}
		switch rapid.IntRange(0, 3).Draw(t, "start") {
		case 0:
			c.Start = uint64(rapid.IntRange(0, 5).Draw(t, "low"))
		case 1:
			lap := rapid.SampledFrom([]uint64{1, 2, 3, 4, 8, 1 << 20, 1 << 32, 1 << 33}).Draw(t, "lap")
			c.Start = lap*idSpace + uint64(int64(rapid.IntRange(-50, 5).Draw(t, "d")))
		case 2:
			c.Start = rapid.Uint64Range(0, 1<<34).Draw(t, "any")
		case 3:
			c.Start = uint64(1)<<63 + uint64(int64(rapid.IntRange(-50, 50).Draw(t, "d")))
		}
		if workers {
			c.Workers = rapid.IntRange(2, 8).Draw(t, "workers")
			c.Each = rapid.IntRange(50, 400).Draw(t, "each")
			c.Yield = rapid.Bool().Draw(t, "yield")
		}
		return c
	}
}

func checkIDs(ctx *kit.Ctx, c IDCase) error {
	next := func() func() (uint32, bool) {
		if c.Server {
			s := socket.ServerStreamIDs(c.Start)
			return s.Next
		}
		s := socket.ClientStreamIDs(c.Start)
		return s.Next
	}()
	per := make([][]uint32, c.Workers)
	laps := make([][]bool, c.Workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for i := 0; i < c.Each; i++ {
				id, first := next()
				per[w] = append(per[w], id)
				laps[w] = append(laps[w], first)
				if c.Yield {
					runtime.Gosched()
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	ctx.NonTrivialIf(c.Workers*c.Each > 1)
	side := "client"
	parity := uint32(1)
	space := uint64(idSpace)
	if c.Server {
		side, parity, space = "server", 0, idSpace-1
	}
	seen := map[uint32]bool{}
	total := c.Workers * c.Each
	firstN, laterN := 0, 0
	for w := range per {
		for i, id := range per[w] {
			switch {
			case id == 0:
				return fmt.Errorf("%s allocator from position %d yields stream id 0", side, c.Start)
			case id > 1<<31-1:
				return fmt.Errorf("%s allocator from position %d yields %d, which is not a 31-bit id", side, c.Start, id)
			case id%2 != parity:
				return fmt.Errorf("%s allocator from position %d yields %d, an id of the other side", side, c.Start, id)
			case seen[id]:
				return fmt.Errorf("%s allocator from position %d, %d goroutines: id %d is given out twice within %d allocations", side, c.Start, c.Workers, id, total)
			}
			seen[id] = true
			if laps[w][i] {
				firstN++
			} else {
				laterN++
			}
		}
	}
	// The id space is walked without gaps: within one run the ids are
	// consecutive numbers of the side's parity, modulo the wrap.
	lo, hi := uint32(1<<31-1), uint32(0)
	for id := range seen {
		if id < 1<<29 || id > 3<<29 {
			ctx.Label("near-the-wrap")
		}
		lo, hi = min(lo, id), max(hi, id)
	}
	if hi-lo < 1<<30 && int(hi-lo)/2+1 != total {
		return fmt.Errorf("%s allocator from position %d skips ids: %d allocations span %d..%d", side, c.Start, total, lo, hi)
	}
	// Wrapping is reported: nothing of a later lap is called first.
	if c.Start >= idSpace && c.Start+uint64(total) > c.Start && firstN > 0 {
		return fmt.Errorf("%s allocator from position %d, beyond the first lap, reports the first lap", side, c.Start)
	}
	if c.Start+uint64(total) <= space && laterN > 0 {
		return fmt.Errorf("%s allocator from position %d, within the first lap, reports a wrap", side, c.Start)
	}
	if c.Start < space && c.Start+uint64(total) > idSpace {
		ctx.Label("wraps")
		// The ids after the wrap repeat from the start of the space.
		if firstN != int(space-c.Start) {
			return fmt.Errorf("%s allocator from position %d: %d ids reported as first lap, %d are left of it", side, c.Start, firstN, space-c.Start)
		}
	}
	return nil
}

var W04 = &kit.Property{
	ID:          "W04",
	Rule:        "a case is an allocator of either side started anywhere in its counter (concentrated at the laps' ends) and drawn from by 1..8 goroutines; non-trivial when more than one id is drawn",
	Assumptions: []string{"the allocator's starting point is set through its exported integer representation, as 2^30 allocations per case are out of reach"},
	Facets: []kit.Facet{
		kit.F("sequential", 20000, 200000, genIDCase(false), checkIDs).WithBatch(2500),
		kit.F("concurrent", 4000, 40000, genIDCase(true), checkIDs).WithBatch(500),
	},
}
