// Package kit drives the property checks: it turns a property (a set of
// facets, each a rapid generator plus an executable oracle over a plain-data
// case) into batches of generated cases run in worker processes, shrinks
// failures with rapid, writes replay files and evidence.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"pgregory.net/rapid"
)

// Facet is one generated check contributing to a property.
type Facet struct {
	Name            string
	Quick, Thorough int // number of generated cases per tier
	Batch           int // cases per worker process (default 500)
	gen             func(*rapid.T) any
	check           func(*Ctx, any) error
	decode          func([]byte) (any, error)
	list            string // see WithList
}

// F builds a facet from a generator of plain-data cases and an oracle. The
// oracle is a function of the case alone; it returns an error to report a
// violation.
func F[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(*Ctx, C) error) Facet {
	return Facet{
		Name: name, Quick: quick, Thorough: thorough, Batch: 500,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(ctx *Ctx, c any) error { return check(ctx, c.(C)) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// WithBatch sets the number of cases per worker process.
func (f Facet) WithBatch(n int) Facet { f.Batch = n; return f }

// WithList names the field of a case that lists steps of which any may be
// left out (every shorter list is a case of its own), so that a failing case
// can be made smaller than rapid makes it.
func (f Facet) WithList(field string) Facet { f.list = field; return f }

// Property is one property of properties.jsonl.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Facets      []Facet
}

func (p *Property) facet(name string) *Facet {
	for i := range p.Facets {
		if p.Facets[i].Name == name {
			return &p.Facets[i]
		}
	}
	return nil
}

// Ctx is handed to an oracle for one case.
type Ctx struct {
	nontrivial bool
	labels     []string
	known      map[string]bool
	knownHit   map[string]string
	Inconcl    string
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial if b holds.
func (c *Ctx) NonTrivialIf(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Label counts the case in a class reported in the evidence.
func (c *Ctx) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	c.labels = append(c.labels, format)
}

// Known returns nil if key is a listed known finding (which is then counted),
// and err otherwise.
func (c *Ctx) Known(key string, err error) error {
	if err == nil {
		return nil
	}
	if c.known[key] {
		if c.knownHit == nil {
			c.knownHit = map[string]string{}
		}
		c.knownHit[key] = err.Error()
		return nil
	}
	return err
}

// Inconclusive aborts the case without a verdict; the run then ends in an
// error exit, never in a violation.
func (c *Ctx) Inconclusive(format string, args ...any) error {
	c.Inconcl = fmt.Sprintf(format, args...)
	return nil
}

const (
	iotaPath    = "github.com/nanobus/iota/go/"
	harnessPath = "github.com/nanobus/iota/go/zz_verif"
)

// blameStack says whether the innermost relevant frame of a Go stack trace
// lies in the code under test (true) or in the harness (false). Frames of the
// runtime, the standard library and third-party modules are passed over.
func blameStack(stack string) (blamed bool, frame string) {
	lines := strings.Split(stack, "\n")
	start := 0
	// A recovered stack begins with debug.Stack and the deferred functions;
	// the frames of the panic itself come after the last "panic(" line.
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for i := start; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "created by ") {
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, harnessPath) || strings.HasPrefix(l, "main.") {
			return false, l
		}
		if strings.HasPrefix(l, iotaPath) {
			return true, l
		}
	}
	return false, ""
}

type harnessPanic struct{ msg string }

// runCheck runs one oracle, turning a panic of the code under test into a
// violation and a panic of the harness into a harness error.
func runCheck(f *Facet, ctx *Ctx, c any) (err error, herr string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if hp, ok := r.(harnessPanic); ok {
				herr = hp.msg
				return
			}
			if ok, fr := blameStack(st); ok {
				err = fmt.Errorf("panic in the code under test: %v (at %s)", r, fr)
				return
			}
			herr = fmt.Sprintf("harness panic: %v\n%s", r, st)
		}
	}()
	caseNo.Add(1)
	caseStart.Store(int64(cpuTime()) + 1)
	defer caseStart.Store(0)
	err = f.check(ctx, c)
	return
}

// Bug reports a harness failure (never a violation).
func Bug(format string, args ...any) {
	panic(harnessPanic{fmt.Sprintf(format, args...)})
}

// Catch runs fn and returns the recovered panic value with its origin: blamed
// is true when the panic comes from the code under test. A harness panic is
// propagated.
func Catch(fn func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessPanic); ok {
				panic(r)
			}
			st := string(debug.Stack())
			ok, fr := blameStack(st)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("panic in the code under test: %v (at %s)", r, fr)
		}
	}()
	fn()
	return nil
}

// Alloc runs fn and returns the number of heap bytes allocated meanwhile.
func Alloc(fn func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// ReplayFile is the reproduction of a violation.
type ReplayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Seed     int64           `json:"seed"`
	Shrunk   bool            `json:"shrunk"`
	Case     json.RawMessage `json:"case"`
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot marshal case:", err)
		os.Exit(3)
	}
	return b
}
