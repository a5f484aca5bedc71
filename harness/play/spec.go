// Package play is an endpoint driven by scripts. The same code runs inside the
// WebAssembly guest and on the host: it makes calls described by data, serves
// calls the way their request says, and logs what it sees.
package play

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strings"
)

// Kinds of calls.
const (
	RR = iota
	FNF
	Stream
	Channel
)

var KindName = []string{"call", "fire-and-forget", "stream", "channel"}

// Ops is the number of scripted operations of each kind; operation Bare
// answers unscripted requests with what they contain; operation Free is
// imported by the guest and never bound by the host.
const (
	Ops  = 3
	Bare = 3
	Free = 4
)

// Blob is a byte string.
type Blob struct {
	N int  `json:"n,omitempty"`
	F byte `json:"f,omitempty"`
}

func (b Blob) Bytes() []byte {
	out := make([]byte, b.N)
	for i := range out {
		out[i] = b.F + byte(i*7) + byte(i>>8)
	}
	return out
}

// Prod is a source of items.
type Prod struct {
	Kind   string `json:"k,omitempty"` // slice, resp, ondemand, push, map, error
	Items  []Blob `json:"i,omitempty"`
	Many   int    `json:"m,omitempty"` // so many more small items
	Meta   int    `json:"t,omitempty"` // bytes of metadata of every item
	Err    bool   `json:"e,omitempty"`
	FailAt int    `json:"a,omitempty"`
	ErrPad int    `json:"p,omitempty"` // length of the text after its error
}

func (p Prod) Len() int { return len(p.Items) + p.Many }

// Item is the i-th item of a source of a call.
func (p Prod) Item(key uint32, i int) (data, meta []byte) {
	var b Blob
	if i < len(p.Items) {
		b = p.Items[i]
	}
	data = append(fmt.Appendf(nil, "%d.%d:", key, i), b.Bytes()...)
	if p.Meta > 0 {
		meta = Blob{p.Meta, byte(i)}.Bytes()
	}
	return
}

// EndErr is the error a source ends with, or "".
func (p Prod) EndErr(key uint32) string {
	switch {
	case p.Kind == "error":
		return fmt.Sprintf("source %d fails", key) + ErrText(p.ErrPad)
	case p.Kind == "map" && p.FailAt < p.Len():
		return fmt.Sprintf("map %d refuses", key) + ErrText(p.ErrPad)
	case p.Err && (p.Kind == "ondemand" || p.Kind == "push"):
		return fmt.Sprintf("source %d ends badly", key) + ErrText(p.ErrPad)
	}
	return ""
}

// ErrText is what follows an error to make it longer.
func ErrText(n int) string { return strings.Repeat("!", n) }

// Brief is what the log says of a text.
func Brief(text string) string {
	if len(text) < 100 {
		return text
	}
	return fmt.Sprintf("%s... (%d bytes, %x)", text[:40], len(text), Digest([]byte(text)))
}

// Want is the demand of a subscriber.
type Want struct {
	Policy string `json:"p,omitempty"` // max, refill, manual, never
	N      int    `json:"n,omitempty"`
	Stop   int    `json:"s,omitempty"` // cancels after so many items
}

// Call is one call and the script of its handler.
type Call struct {
	Key      uint32 `json:"k"`
	Kind     int    `json:"t"`
	Op       int    `json:"o"`           // 0..2; Bare; Free; -1: an id nobody exports
	Far      uint32 `json:"f,omitempty"` // the id nobody exports
	Pad      Blob   `json:"d"`           // follows the script in the request
	Meta     Blob   `json:"x"`
	How      string `json:"h,omitempty"` // sub, block (on the host)
	Answer   string `json:"a,omitempty"` // just, error, later, laterfail, mapfail
	Resp     Blob   `json:"r"`
	RespMeta Blob   `json:"rm"`
	ErrPad   int    `json:"p,omitempty"`
	Out      Prod   `json:"u"`
	Want     Want   `json:"w"`
	In       Prod   `json:"i"`
	InWant   Want   `json:"iw"`
	Echo     bool   `json:"e,omitempty"` // the channel's output is its input
	Relay    *Call  `json:"y,omitempty"` // the handler answers by making this call
}

// Data is the request's data.
func (c *Call) Data() []byte {
	if c.Op == Bare {
		return c.Pad.Bytes()
	}
	j, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	b := binary.BigEndian.AppendUint32(nil, uint32(len(j)))
	b = append(b, j...)
	return append(b, c.Pad.Bytes()...)
}

// Parse finds the script in the data of a request.
func Parse(data []byte) *Call {
	if len(data) < 4 {
		return nil
	}
	n := binary.BigEndian.Uint32(data)
	if uint64(n) > uint64(len(data)-4) {
		return nil
	}
	c := new(Call)
	if json.Unmarshal(data[4:4+n], c) != nil {
		return nil
	}
	return c
}

// Times returns the i-th copy of a call.
func (c Call) Times(i int) *Call {
	c.Key += uint32(i) * 8
	if c.Relay != nil {
		c.Relay = c.Relay.Times(i)
	}
	return &c
}

// Event is something an endpoint saw.
type Event struct {
	Key  uint32 `json:"k"`
	Role string `json:"r"` // made, served
	What string `json:"w"`
	N    int64  `json:"n,omitempty"`
	D    uint64 `json:"d,omitempty"` // digest of the data
	M    uint64 `json:"m,omitempty"` // digest of the metadata
	Text string `json:"t,omitempty"`
}

// Digest identifies a byte string.
func Digest(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()<<16 ^ uint64(len(b))
}

// Cmd is a command to an endpoint.
type Cmd struct {
	Do    string
	Calls []Call `json:",omitempty"`
	Times int    `json:",omitempty"`
	Key   uint32 `json:",omitempty"`
	N     int    `json:",omitempty"`
}

// Reply is the answer to a command.
type Reply struct {
	OK     bool
	Events []Event `json:",omitempty"`
	More   bool    `json:",omitempty"`
}
