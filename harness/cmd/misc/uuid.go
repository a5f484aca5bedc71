package main

import (
	"bytes"
	"encoding"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"regexp"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"pgregory.net/rapid"
)

var M01 = &kit.Property{
	ID:   "M01",
	Rule: "a case is non-trivial if it parses a spelling other than the plain one or text that is one edit away from a spelling, if a binary form has a length other than 16, or if a history of generations meets a short or failing random source, the pool, or concurrent callers",
	Assumptions: []string{
		"the accepted spellings are the four the documentation of Parse lists: plain, urn:uuid: (any case), braces, 32 hex digits",
		"distinctness is observed within one process and up to a few thousand UUIDs per history",
	},
	Facets: []kit.Facet{
		kit.F("forms", 100000, 4000000, genForms, checkForms).WithBatch(20000),
		kit.F("malformed", 200000, 8000000, genText, checkText).WithBatch(20000),
		kit.F("binary", 10000, 300000, genBinary, checkBinary).WithBatch(10000),
		kit.F("generate", 12000, 400000, genGenerate, checkGenerate).WithBatch(1000),
		kit.F("clock", 3000, 60000, genClock, checkClock).WithBatch(1000),
	},
}

// --- spellings ---

type Forms struct {
	ID    []byte
	Upper uint64 // case mask of the letters
}

func genForms(t *rapid.T) Forms {
	id := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0x0f, 0xf0, 0xff, 0xab, 0x99})), 16, 16).Draw(t, "id")
	return Forms{ID: id, Upper: rapid.Uint64().Draw(t, "upper")}
}

// recase turns the i-th letter to upper case if bit i of mask is set.
func recase(s string, mask uint64) string {
	b := []byte(s)
	k := 0
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			if mask>>(k%64)&1 == 1 {
				b[i] = c - 'a' + 'A'
			}
			k++
		}
	}
	return string(b)
}

// plain is the canonical text of an id.
func plain(id []byte) string {
	h := hex.EncodeToString(id)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func checkForms(ctx *kit.Ctx, c Forms) error {
	var want uuid.UUID
	copy(want[:], c.ID)
	ctx.NonTrivialIf(c.Upper != 0)
	p := plain(c.ID)
	if s := want.String(); s != p {
		return fmt.Errorf("String of %x is %q, want %q", c.ID, s, p)
	}
	if s := want.URN(); s != "urn:uuid:"+p {
		return fmt.Errorf("URN of %x is %q", c.ID, s)
	}
	mt, err := want.MarshalText()
	if err != nil || string(mt) != p {
		return fmt.Errorf("MarshalText of %x is %q, %v", c.ID, mt, err)
	}
	mb, err := want.MarshalBinary()
	if err != nil || !bytes.Equal(mb, c.ID) {
		return fmt.Errorf("MarshalBinary of %x is %x, %v", c.ID, mb, err)
	}
	for _, s := range []string{p, "urn:uuid:" + p, "{" + p + "}", hex.EncodeToString(c.ID)} {
		for _, s := range []string{s, recase(s, c.Upper)} {
			if err := parsesTo(s, want); err != nil {
				return err
			}
		}
	}
	// The version and variant of RFC 4122.
	if v := want.Version(); int(v) != int(c.ID[6]>>4) || v.String() != fmt.Sprintf("VERSION_%d", c.ID[6]>>4) {
		return fmt.Errorf("version of %s is %v", p, v)
	}
	wv := uuid.Reserved
	switch b := c.ID[8]; {
	case b >= 0xe0:
		wv = uuid.Future
	case b >= 0xc0:
		wv = uuid.Microsoft
	case b >= 0x80:
		wv = uuid.RFC4122
	}
	if v := want.Variant(); v != wv {
		return fmt.Errorf("variant of %s is %v, want %v", p, v, wv)
	}
	// The fields of time-based UUIDs.
	var tm int64
	for _, i := range []int{6, 7, 4, 5, 0, 1, 2, 3} {
		tm = tm<<8 | int64(c.ID[i])
	}
	tm &= 1<<60 - 1
	if int64(want.Time()) != tm {
		return fmt.Errorf("time of %s is %d, want %d", p, want.Time(), tm)
	}
	if s := want.ClockSequence(); s != (int(c.ID[8])<<8|int(c.ID[9]))&0x3fff {
		return fmt.Errorf("clock sequence of %s is %d", p, s)
	}
	sec, nsec := want.Time().UnixTime()
	if got := (sec+12219292800)*10000000 + nsec/100; got != tm || nsec%100 != 0 {
		return fmt.Errorf("time %d of %s is the Unix time %d s %d ns", tm, p, sec, nsec)
	}
	return throughMsgpack(want)
}

// parsesTo says whether every parser takes s for want.
func parsesTo(s string, want uuid.UUID) error {
	got, err := uuid.Parse(s)
	if err != nil || got != want {
		return fmt.Errorf("Parse(%q) is %x, %v; want %x", s, got[:], err, want[:])
	}
	in := []byte(s)
	got, err = uuid.ParseBytes(in)
	if err != nil || got != want {
		return fmt.Errorf("ParseBytes(%q) is %x, %v; want %x", s, got[:], err, want[:])
	}
	got = uuid.UUID{}
	var u encoding.TextUnmarshaler = &got
	if err := u.UnmarshalText(in); err != nil || got != want {
		return fmt.Errorf("UnmarshalText(%q) is %x, %v; want %x", s, got[:], err, want[:])
	}
	if string(in) != s {
		return fmt.Errorf("parsing %q changed the text to %q", s, in)
	}
	if got := uuid.MustParse(s); got != want {
		return fmt.Errorf("MustParse(%q) is %x", s, got[:])
	}
	return nil
}

// throughMsgpack sends the text and the binary form through the codec.
func throughMsgpack(u uuid.UUID) error {
	text, bin := u.String(), u[:]
	sz := msgpack.NewSizer()
	sz.WriteString(text)
	sz.WriteByteArray(bin)
	buf := make([]byte, sz.Len())
	enc := msgpack.NewEncoder(buf)
	enc.WriteString(text)
	enc.WriteByteArray(bin)
	if err := enc.Err(); err != nil {
		return fmt.Errorf("encoding %s: %v", text, err)
	}
	dec := msgpack.NewDecoder(buf)
	s, err := dec.ReadString()
	if err != nil {
		return fmt.Errorf("decoding the text of %s: %v", text, err)
	}
	if got, err := uuid.Parse(s); err != nil || got != u {
		return fmt.Errorf("%s becomes %v (%v) through a MessagePack string", text, got, err)
	}
	b, err := dec.ReadByteArray()
	if err != nil {
		return fmt.Errorf("decoding the bytes of %s: %v", text, err)
	}
	if got, err := uuid.FromBytes(b); err != nil || got != u {
		return fmt.Errorf("%s becomes %v (%v) through MessagePack bytes", text, got, err)
	}
	return nil
}

// --- malformed text ---

type Text struct{ S []byte }

func genText(t *rapid.T) Text {
	id := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "id")
	p := recase(plain(id), rapid.Uint64().Draw(t, "upper"))
	s := []byte(rapid.SampledFrom([]string{p, "urn:uuid:" + p, "{" + p + "}", strings.ReplaceAll(p, "-", ""),
		"uRn:UUid:" + p, "(" + p + ")", "{" + p + " ", " " + p + " ", "}" + p + "{", "urn:uuid;" + p, "urn-uuid:" + p,
		"{" + strings.ReplaceAll(p, "-", "") + "}", "urn:uuid:" + strings.ReplaceAll(p, "-", "")}).Draw(t, "form"))
	for n := rapid.IntRange(0, 2).Draw(t, "edits"); n > 0 && len(s) > 0; n-- {
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		ch := rapid.OneOf(rapid.SampledFrom([]byte("gGfF0-{}:@`/ xZ\x00\x80\xff")), rapid.Byte()).Draw(t, "ch")
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			s[i] = ch
		case 1:
			s = append(s[:i], s[i+1:]...)
		case 2:
			s = append(s[:i], append([]byte{ch}, s[i:]...)...)
		case 3:
			j := rapid.IntRange(0, len(s)-1).Draw(t, "with")
			s[i], s[j] = s[j], s[i]
		}
	}
	return Text{S: s}
}

var spelling = regexp.MustCompile(`^(?:(?:[uU][rR][nN]:[uU][uU][iI][dD]:)?(HEX{8}-HEX{4}-HEX{4}-HEX{4}-HEX{12})|\{(HEX{8}-HEX{4}-HEX{4}-HEX{4}-HEX{12})\}|(HEX{32}))$`)

func init() {
	spelling = regexp.MustCompile(strings.ReplaceAll(spelling.String(), "HEX", "[0-9a-fA-F]"))
}

func checkText(ctx *kit.Ctx, c Text) error {
	s := string(c.S)
	m := spelling.FindStringSubmatch(s)
	if m != nil && !strings.ContainsAny(s, "\n") {
		ctx.Label("well-formed")
		raw, err := hex.DecodeString(strings.ReplaceAll(m[1]+m[2]+m[3], "-", ""))
		if err != nil {
			kit.Bug("spelling %q: %v", s, err)
		}
		var want uuid.UUID
		copy(want[:], raw)
		return parsesTo(s, want)
	}
	ctx.NonTrivial()
	ctx.Label("malformed, length %d", len(s))
	if got, err := uuid.Parse(s); err == nil {
		return fmt.Errorf("Parse accepts the malformed %q as %v", s, got)
	} else if len(s) != 32 && len(s) != 36 && len(s) != 38 && len(s) != 45 && !uuid.IsInvalidLengthError(err) {
		return fmt.Errorf("Parse(%q) fails with %q, which is no length error", s, err)
	}
	if got, err := uuid.ParseBytes(c.S); err == nil {
		return fmt.Errorf("ParseBytes accepts the malformed %q as %v", s, got)
	}
	keep := uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	u := keep
	if err := u.UnmarshalText(c.S); err == nil {
		return fmt.Errorf("UnmarshalText accepts the malformed %q as %v", s, u)
	}
	if u != keep {
		return fmt.Errorf("UnmarshalText rejects %q but changes its target to %v", s, u)
	}
	panicked := false
	func() {
		defer func() { panicked = recover() != nil }()
		uuid.MustParse(s)
	}()
	if !panicked {
		return fmt.Errorf("MustParse accepts the malformed %q", s)
	}
	return nil
}

// --- binary form ---

type Binary struct{ B []byte }

func genBinary(t *rapid.T) Binary {
	n := rapid.OneOf(rapid.Just(16), rapid.IntRange(0, 40)).Draw(t, "n")
	return Binary{B: rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b")}
}

func checkBinary(ctx *kit.Ctx, c Binary) error {
	keep := uuid.UUID{15: 7}
	in := append([]byte{}, c.B...)
	u := keep
	err := u.UnmarshalBinary(in)
	f, ferr := uuid.FromBytes(in)
	if len(in) != 16 {
		ctx.NonTrivial()
		if err == nil || ferr == nil {
			return fmt.Errorf("%d bytes are accepted as a UUID: %v %v", len(in), u, f)
		}
		if u != keep {
			return fmt.Errorf("UnmarshalBinary rejects %x but changes its target to %v", in, u)
		}
		return nil
	}
	if err != nil || ferr != nil || !bytes.Equal(u[:], c.B) || !bytes.Equal(f[:], c.B) {
		return fmt.Errorf("the bytes %x become %x (%v) and %x (%v)", c.B, u[:], err, f[:], ferr)
	}
	// The UUID is a copy of its bytes, both ways.
	in[0]++
	in[15]++
	if !bytes.Equal(u[:], c.B) || !bytes.Equal(f[:], c.B) {
		return fmt.Errorf("a UUID changes with the bytes it was read from")
	}
	b, _ := u.MarshalBinary()
	b[3]++
	if !bytes.Equal(u[:], c.B) {
		return fmt.Errorf("a UUID changes with the bytes it was written to")
	}
	return nil
}

// --- generation ---

type GenOp struct {
	Kind string // new string random reader | source on off
	N    int    // how many (at a time), or the seed of the source
	Par  int    // callers at a time
	Cut  int    // bytes after which the source fails once (-1: never)
	Max  int    // most bytes per Read
}

type Generate struct{ Ops []GenOp }

func genGenerate(t *rapid.T) Generate {
	n := rapid.IntRange(1, 12).Draw(t, "nops")
	var ops []GenOp
	for i := 0; i < n; i++ {
		op := GenOp{Kind: rapid.SampledFrom([]string{"new", "string", "random", "random", "reader", "source", "source", "on", "off"}).Draw(t, "kind"), Cut: -1, Par: 1}
		switch op.Kind {
		case "source", "reader":
			op.N = rapid.IntRange(1, 1<<20).Draw(t, "seed")
			if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
				op.Cut = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 600)).Draw(t, "cut")
			}
			op.Max = rapid.SampledFrom([]int{1, 5, 7, 15, 16, 17, 100, 255, 256, 1000}).Draw(t, "max")
		case "on", "off":
		default:
			op.N = rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 40)).Draw(t, "n")
			op.Par = rapid.SampledFrom([]int{1, 1, 1, 4, 8}).Draw(t, "par")
		}
		ops = append(ops, op)
	}
	return Generate{ops}
}

// source is a reader of non-zero random bytes that hands them out piecemeal
// and fails once.
type source struct {
	mu       sync.Mutex
	r        *rand.Rand
	cut, max int
	read     int
}

var errSource = errors.New("the source is dry")

func (s *source) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := min(len(b), s.max)
	if s.cut >= 0 && s.read+n > s.cut {
		n = s.cut - s.read
		s.cut = -1
		if n == 0 {
			return 0, errSource
		}
		for i := range b[:n] {
			b[i] = byte(1 + s.r.IntN(255))
		}
		s.read += n
		return n, errSource
	}
	for i := range b[:n] {
		b[i] = byte(1 + s.r.IntN(255))
	}
	s.read += n
	return n, nil
}

func newSource(op GenOp) *source {
	return &source{r: rand.New(rand.NewPCG(uint64(op.N), 7)), cut: op.Cut, max: op.Max}
}

func checkGenerate(ctx *kit.Ctx, c Generate) error {
	uuid.SetRand(nil)
	uuid.DisableRandPool()
	defer func() { uuid.SetRand(nil); uuid.DisableRandPool() }()
	seen := map[uuid.UUID]bool{}
	var src *source // nil: the default
	pool := false
	made := func(u uuid.UUID, own bool, where string) error {
		if u.Version() != 4 || u.Variant() != uuid.RFC4122 || u[6]>>4 != 4 || u[8]>>6 != 2 {
			return fmt.Errorf("%s: the UUID %v has not the version and variant of a random one", where, u)
		}
		if seen[u] {
			return fmt.Errorf("%s: the UUID %v is generated twice", where, u)
		}
		seen[u] = true
		if own {
			for i, b := range u {
				if b == 0 {
					return fmt.Errorf("%s: byte %d of %v does not come from the random source", where, i, u)
				}
			}
		}
		return nil
	}
	for k, op := range c.Ops {
		where := fmt.Sprintf("op %d (%s)", k, op.Kind)
		switch op.Kind {
		case "source":
			// Replacing the source starts the pool over, so that the UUIDs
			// can be told apart by their source.
			uuid.DisableRandPool()
			op.N += k << 32
			src = newSource(op)
			uuid.SetRand(src)
			if pool {
				uuid.EnableRandPool()
			}
			ctx.NonTrivialIf(op.Cut >= 0 || op.Max < 16)
		case "on":
			uuid.EnableRandPool()
			pool = true
			ctx.NonTrivial()
		case "off":
			uuid.DisableRandPool()
			pool = false
		case "reader":
			op.N += k<<32 + 1<<40
			s := newSource(op)
			u, err := uuid.NewRandomFromReader(s)
			if op.Cut >= 0 && op.Cut < 16 {
				ctx.NonTrivial()
				if err == nil {
					return fmt.Errorf("%s: a source that fails after %d bytes yields %v", where, op.Cut, u)
				}
				if u != (uuid.UUID{}) {
					return fmt.Errorf("%s: a failed generation yields %v", where, u)
				}
				continue
			}
			// A reader that fails with its last byte has still delivered it.
			if err != nil {
				return fmt.Errorf("%s: a working source yields the error %v", where, err)
			}
			// The bits of the source, but for those of the version and variant.
			again := newSource(op)
			var b [16]byte
			io.ReadFull(again, b[:])
			b[6], b[8] = b[6]&0x0f|0x40, b[8]&0x3f|0x80
			if u != b {
				return fmt.Errorf("%s: the source yields %x and the UUID is %v", where, b, u)
			}
			if err := made(u, false, where); err != nil {
				return err
			}
		default:
			ctx.NonTrivialIf(op.Par > 1)
			var mu sync.Mutex
			var first error
			var wg sync.WaitGroup
			fails, had := 0, 0
			if src != nil && src.cut >= 0 {
				had = 1
			}
			one := func() {
				u, err := generate(op.Kind)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					fails++
					if !strings.Contains(err.Error(), errSource.Error()) && !errors.Is(err, io.ErrUnexpectedEOF) && first == nil {
						first = fmt.Errorf("%s: the error %v is not the source's", where, err)
					}
					return
				}
				if err := made(u, src != nil, where); err != nil && first == nil {
					first = err
				}
			}
			if op.Par == 1 {
				for i := 0; i < op.N; i++ {
					one()
				}
			} else {
				for g := 0; g < op.Par; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < op.N; i++ {
							one()
						}
					}()
				}
				wg.Wait()
			}
			if first != nil {
				return first
			}
			if fails > had {
				return fmt.Errorf("%s: %d generations fail, though the source fails %d times", where, fails, had)
			}
			ctx.Label("pool %v", pool)
		}
	}
	// A bit that is the same a hundred times over is not random.
	if len(seen) >= 128 {
		var ones, zeros uuid.UUID
		for u := range seen {
			for i, b := range u {
				ones[i] |= b
				zeros[i] |= ^b
			}
		}
		ones[6], ones[8], zeros[6], zeros[8] = ones[6]|0xf0, ones[8]|0xc0, zeros[6]|0xf0, zeros[8]|0xc0
		for i := range ones {
			if ones[i]&zeros[i] != 0xff {
				return fmt.Errorf("of %d UUIDs, all have the same value in a bit of byte %d", len(seen), i)
			}
		}
		ctx.Label("bits compared")
	}
	return nil
}

// generate makes one UUID, with a panic as its error.
func generate(kind string) (u uuid.UUID, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	switch kind {
	case "new":
		return uuid.New(), nil
	case "string":
		s := uuid.NewString()
		u, err := uuid.Parse(s)
		if err != nil || u.String() != s {
			return u, fmt.Errorf("NewString yields %q", s)
		}
		return u, nil
	}
	u, err = uuid.NewRandom()
	if err != nil && u != (uuid.UUID{}) {
		return u, fmt.Errorf("a failed generation yields %v", u)
	}
	return u, err
}

// --- clock ---

type Clock struct {
	Seqs []int
	N    int
	Par  int
}

func genClock(t *rapid.T) Clock {
	return Clock{
		Seqs: rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 0x3fff), rapid.SampledFrom([]int{0, 1, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 1 << 20, -2})), 0, 4).Draw(t, "seqs"),
		N:    rapid.IntRange(1, 200).Draw(t, "n"),
		Par:  rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "par"),
	}
}

func checkClock(ctx *kit.Ctx, c Clock) error {
	ctx.NonTrivialIf(c.Par > 1 || len(c.Seqs) > 0)
	uuid.SetRand(nil)
	for _, s := range c.Seqs {
		uuid.SetClockSequence(s)
		if got := uuid.ClockSequence(); got != s&0x3fff {
			return fmt.Errorf("the clock sequence is %#x after SetClockSequence(%#x)", got, s)
		}
	}
	if len(c.Seqs) == 0 {
		uuid.SetClockSequence(-1)
	}
	type stamp struct {
		t uuid.Time
		s uint16
	}
	// Nothing but the calls, as close to each other as they can be.
	all := make([][]stamp, c.Par)
	errs := make([]error, c.Par)
	var wg sync.WaitGroup
	for g := range all {
		all[g] = make([]stamp, c.N)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range all[g] {
				tm, s, err := uuid.GetTime()
				if err != nil {
					errs[g] = err
				}
				all[g][i] = stamp{tm, s}
			}
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	seen := map[stamp]bool{}
	for _, stamps := range all {
		for _, x := range stamps {
			if x.s&0xc000 != 0x8000 {
				return fmt.Errorf("the clock sequence %#x lacks the variant", x.s)
			}
			if seen[x] {
				return fmt.Errorf("the time %d with clock sequence %#x is issued twice", x.t, x.s)
			}
			seen[x] = true
		}
	}
	return nil
}
