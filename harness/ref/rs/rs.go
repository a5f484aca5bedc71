// Package rs is an independent implementation of the RSocket frame layout and
// of the operation table layout, written from the RSocket 1.0 specification
// and the wasmRS operation list format. It shares no code with the system
// under test and is the oracle for what bytes mean.
package rs

import (
	"errors"
	"fmt"
)

// Frame types of the RSocket specification.
const (
	TRequestResponse = 4
	TRequestFNF      = 5
	TRequestStream   = 6
	TRequestChannel  = 7
	TRequestN        = 8
	TCancel          = 9
	TPayload         = 10
	TError           = 11
)

// Frame is one RSocket frame. Flags: I=0x200 M=0x100 F=0x80 C=0x40 N=0x20.
type Frame struct {
	Type        int
	ID          uint32
	HasMetadata bool
	Metadata    []byte
	Data        []byte
	Follows     bool
	Complete    bool
	Next        bool
	N           uint32 // initial demand or REQUEST_N
	Code        uint32
}

func (f Frame) String() string {
	return fmt.Sprintf("{type=%d id=%d md=%v/%d data=%d F=%v C=%v N=%v n=%d code=%#x}", f.Type, f.ID, f.HasMetadata, len(f.Metadata), len(f.Data), f.Follows, f.Complete, f.Next, f.N, f.Code)
}

func be(v uint32, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func num(b []byte) uint32 {
	var v uint32
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return v
}

// Encode lays the frame out.
func (f Frame) Encode() []byte {
	flags := 0
	if f.HasMetadata {
		flags |= 0x100
	}
	if f.Follows {
		flags |= 0x80
	}
	if f.Complete {
		flags |= 0x40
	}
	if f.Next {
		flags |= 0x20
	}
	out := be(f.ID, 4)
	out = append(out, byte(f.Type<<2|flags>>8), byte(flags))
	switch f.Type {
	case TRequestStream, TRequestChannel, TRequestN:
		out = append(out, be(f.N, 4)...)
	case TError:
		out = append(out, be(f.Code, 4)...)
	}
	if f.HasMetadata {
		out = append(out, be(uint32(len(f.Metadata)), 3)...)
		out = append(out, f.Metadata...)
	}
	return append(out, f.Data...)
}

var ErrTruncated = errors.New("truncated frame")
var ErrUnknown = errors.New("frame type outside the supported set")

// Decode parses one frame. Data and Metadata alias b.
func Decode(b []byte) (Frame, error) {
	var f Frame
	if len(b) < 6 {
		return f, ErrTruncated
	}
	f.ID = num(b[:4]) & 0x7fffffff
	f.Type = int(b[4] >> 2)
	flags := int(b[4]&3)<<8 | int(b[5])
	f.HasMetadata = flags&0x100 != 0
	f.Follows = flags&0x80 != 0
	f.Complete = flags&0x40 != 0
	f.Next = flags&0x20 != 0
	b = b[6:]
	switch f.Type {
	case TRequestResponse, TRequestFNF, TPayload:
	case TCancel:
		return f, nil
	case TRequestStream, TRequestChannel, TRequestN, TError:
		if len(b) < 4 {
			return f, ErrTruncated
		}
		if f.Type == TError {
			f.Code = num(b[:4])
		} else {
			f.N = num(b[:4])
		}
		b = b[4:]
		if f.Type == TRequestN {
			return f, nil
		}
		if f.Type == TError {
			f.HasMetadata = false
			f.Data = b
			return f, nil
		}
	default:
		return f, ErrUnknown
	}
	if f.HasMetadata {
		if len(b) < 3 {
			return f, ErrTruncated
		}
		n := num(b[:3])
		b = b[3:]
		if uint64(n) > uint64(len(b)) {
			return f, ErrTruncated
		}
		f.Metadata = b[:n]
		b = b[n:]
	}
	f.Data = b
	return f, nil
}

// Op is one entry of an operation table.
type Op struct {
	Kind, Dir byte
	Index     uint32
	NS, Name  string
	Reserved  []byte `json:",omitempty"`
}

var magic = []byte("\x00wrs")

// EncodeOps lays an operation table out.
func EncodeOps(ops []Op) []byte {
	out := append([]byte{}, magic...)
	out = append(out, 0, 1)
	out = append(out, be(uint32(len(ops)), 4)...)
	for _, o := range ops {
		out = append(out, o.Kind, o.Dir)
		out = append(out, be(o.Index, 4)...)
		out = append(out, be(uint32(len(o.NS)), 2)...)
		out = append(out, o.NS...)
		out = append(out, be(uint32(len(o.Name)), 2)...)
		out = append(out, o.Name...)
		out = append(out, be(uint32(len(o.Reserved)), 2)...)
		out = append(out, o.Reserved...)
	}
	return out
}

// DecodeOps parses an operation table; trailing bytes are ignored.
func DecodeOps(b []byte) ([]Op, error) {
	if len(b) < 10 || string(b[:4]) != string(magic) {
		return nil, errors.New("bad magic")
	}
	if num(b[4:6]) != 1 {
		return nil, errors.New("bad version")
	}
	n := num(b[6:10])
	b = b[10:]
	str := func() (string, bool) {
		if len(b) < 2 {
			return "", false
		}
		l := int(num(b[:2]))
		if len(b) < 2+l {
			return "", false
		}
		s := string(b[2 : 2+l])
		b = b[2+l:]
		return s, true
	}
	var ops []Op
	for i := uint32(0); i < n; i++ {
		if len(b) < 6 {
			return nil, ErrTruncated
		}
		o := Op{Kind: b[0], Dir: b[1], Index: num(b[2:6])}
		b = b[6:]
		var ok [3]bool
		o.NS, ok[0] = str()
		if ok[0] {
			o.Name, ok[1] = str()
		}
		if ok[1] {
			_, ok[2] = str()
		}
		if !ok[2] {
			return nil, ErrTruncated
		}
		ops = append(ops, o)
	}
	return ops, nil
}
