// Package mp is an independent reference implementation of the MessagePack
// specification, used as the oracle for the repository's codec.
package mp

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Kind of a value on the wire.
type Kind string

const (
	Nil  Kind = "nil"
	Bool Kind = "bool"
	Int  Kind = "int" // negative or non-negative integer, whatever the format
	F32  Kind = "f32"
	F64  Kind = "f64"
	Str  Kind = "str"
	Bin  Kind = "bin"
	Arr  Kind = "arr"
	Map  Kind = "map"
	Ext  Kind = "ext"
)

// Node is a decoded MessagePack value.
type Node struct {
	Kind  Kind
	B     bool
	Neg   bool   // Int: value is int64(U)
	U     uint64 // Int: magnitude or two's complement; F32/F64: bits
	Bytes []byte // Str, Bin, Ext payload
	Ext   int8
	Elems []Node // Arr: elements; Map: key, value, key, value ...
	Lead  byte
}

var ErrShort = errors.New("mp: truncated")
var ErrBad = errors.New("mp: invalid lead byte")

// Parse decodes the first value of b and returns the number of bytes it takes.
func Parse(b []byte) (Node, int, error) {
	p := parser{b: b}
	n, err := p.value(0)
	return n, p.i, err
}

type parser struct {
	b []byte
	i int
}

func (p *parser) take(n uint64) ([]byte, error) {
	if n > uint64(len(p.b)-p.i) {
		return nil, ErrShort
	}
	r := p.b[p.i : p.i+int(n)]
	p.i += int(n)
	return r, nil
}

func (p *parser) be(n int) (uint64, error) {
	r, err := p.take(uint64(n))
	if err != nil {
		return 0, err
	}
	var v uint64
	for _, c := range r {
		v = v<<8 | uint64(c)
	}
	return v, nil
}

func (p *parser) value(depth int) (n Node, err error) {
	if depth > 100000 {
		return n, errors.New("mp: too deep")
	}
	l, err := p.be(1)
	if err != nil {
		return n, err
	}
	c := byte(l)
	n.Lead = c
	raw := func(k Kind, cnt uint64) error {
		n.Kind = k
		n.Bytes, err = p.take(cnt)
		return err
	}
	num := func(w int) error {
		n.Kind = Int
		n.U, err = p.be(w)
		return err
	}
	snum := func(w int) error {
		if err := num(w); err != nil {
			return err
		}
		s := 64 - 8*w
		v := int64(n.U<<s) >> s
		n.U, n.Neg = uint64(v), v < 0
		return nil
	}
	elems := func(k Kind, cnt uint64) error {
		n.Kind = k
		for ; cnt > 0; cnt-- {
			e, err := p.value(depth + 1)
			if err != nil {
				return err
			}
			n.Elems = append(n.Elems, e)
		}
		return nil
	}
	lraw := func(k Kind, w int) error {
		cnt, err := p.be(w)
		if err != nil {
			return err
		}
		return raw(k, cnt)
	}
	lelems := func(k Kind, w int, mul uint64) error {
		cnt, err := p.be(w)
		if err != nil {
			return err
		}
		return elems(k, cnt*mul)
	}
	ext := func(cnt uint64) error {
		id, err := p.be(1)
		if err != nil {
			return err
		}
		n.Ext = int8(id)
		return raw(Ext, cnt)
	}
	lext := func(w int) error {
		cnt, err := p.be(w)
		if err != nil {
			return err
		}
		return ext(cnt)
	}
	switch {
	case c <= 0x7f:
		n.Kind, n.U = Int, uint64(c)
	case c <= 0x8f:
		err = elems(Map, 2*uint64(c&0x0f))
	case c <= 0x9f:
		err = elems(Arr, uint64(c&0x0f))
	case c <= 0xbf:
		err = raw(Str, uint64(c&0x1f))
	case c == 0xc0:
		n.Kind = Nil
	case c == 0xc1:
		err = ErrBad
	case c == 0xc2 || c == 0xc3:
		n.Kind, n.B = Bool, c == 0xc3
	case c >= 0xc4 && c <= 0xc6:
		err = lraw(Bin, 1<<(c-0xc4))
	case c >= 0xc7 && c <= 0xc9:
		err = lext(1 << (c - 0xc7))
	case c == 0xca:
		n.Kind = F32
		n.U, err = p.be(4)
	case c == 0xcb:
		n.Kind = F64
		n.U, err = p.be(8)
	case c >= 0xcc && c <= 0xcf:
		err = num(1 << (c - 0xcc))
	case c >= 0xd0 && c <= 0xd3:
		err = snum(1 << (c - 0xd0))
	case c >= 0xd4 && c <= 0xd8:
		err = ext(1 << (c - 0xd4))
	case c >= 0xd9 && c <= 0xdb:
		err = lraw(Str, 1<<(c-0xd9))
	case c == 0xdc:
		err = lelems(Arr, 2, 1)
	case c == 0xdd:
		err = lelems(Arr, 4, 1)
	case c == 0xde:
		err = lelems(Map, 2, 2)
	case c == 0xdf:
		err = lelems(Map, 4, 2)
	default: // 0xe0..0xff
		n.Kind, n.U, n.Neg = Int, uint64(int64(int8(c))), true
	}
	return n, err
}

// Header parses a stand-alone array or map header (which has no elements
// following it) and returns its count.
func Header(b []byte, k Kind) (uint64, int, error) {
	p := parser{b: b}
	l, err := p.be(1)
	if err != nil {
		return 0, 0, err
	}
	c := byte(l)
	fix, w16 := byte(0x90), byte(0xdc)
	if k == Map {
		fix, w16 = 0x80, 0xde
	}
	switch {
	case c&0xf0 == fix:
		return uint64(c & 0x0f), 1, nil
	case c == w16:
		n, err := p.be(2)
		return n, p.i, err
	case c == w16+1:
		n, err := p.be(4)
		return n, p.i, err
	}
	return 0, 0, ErrBad
}

// AppendInt appends the number (two's complement u, negative if neg) in the
// given format lead byte: 0 = fixint, 0xcc..0xcf = uint8..64, 0xd0..0xd3 =
// int8..64. ok is false when the format cannot carry the number.
func AppendInt(dst []byte, u uint64, neg bool, format byte) (out []byte, ok bool) {
	switch {
	case format == 0:
		if neg {
			if int64(u) >= -32 {
				return append(dst, byte(u)), true
			}
			return dst, false
		}
		if u < 128 {
			return append(dst, byte(u)), true
		}
		return dst, false
	case format >= 0xcc && format <= 0xcf:
		w := 1 << (format - 0xcc)
		if neg || (w < 8 && u>>(8*w) != 0) {
			return dst, false
		}
		return appendBE(append(dst, format), u, w), true
	case format >= 0xd0 && format <= 0xd3:
		w := 1 << (format - 0xd0)
		if !neg && u > math.MaxInt64 {
			return dst, false
		}
		s := 64 - 8*w
		if int64(u<<s)>>s != int64(u) {
			return dst, false
		}
		return appendBE(append(dst, format), u, w), true
	}
	return dst, false
}

func appendBE(dst []byte, v uint64, w int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return append(dst, b[8-w:]...)
}

// AppendLen appends a length or count header. base is the 8-bit (or, for
// arrays and maps, 16-bit) format; width is 0 for the fix form, else 1, 2, 4.
func AppendLen(dst []byte, k Kind, n int, width int) ([]byte, bool) {
	if width != 0 && width < 4 && n>>(8*width) != 0 {
		return dst, false
	}
	switch k {
	case Str:
		if width == 0 {
			if n > 31 {
				return dst, false
			}
			return append(dst, 0xa0|byte(n)), true
		}
		return appendBE(append(dst, map[int]byte{1: 0xd9, 2: 0xda, 4: 0xdb}[width]), uint64(n), width), true
	case Bin:
		if width == 0 {
			return dst, false
		}
		return appendBE(append(dst, map[int]byte{1: 0xc4, 2: 0xc5, 4: 0xc6}[width]), uint64(n), width), true
	case Ext:
		if width == 0 {
			l, ok := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]
			return append(dst, l), ok
		}
		return appendBE(append(dst, map[int]byte{1: 0xc7, 2: 0xc8, 4: 0xc9}[width]), uint64(n), width), true
	case Arr, Map:
		base, wide := byte(0x90), byte(0xdc)
		if k == Map {
			base, wide = 0x80, 0xde
		}
		if width == 0 {
			if n > 15 {
				return dst, false
			}
			return append(dst, base|byte(n)), true
		}
		switch width {
		case 2:
			return appendBE(append(dst, wide), uint64(n), 2), true
		case 4:
			return appendBE(append(dst, wide+1), uint64(n), 4), true
		}
		return dst, false
	}
	return dst, false
}

// Time decodes a timestamp extension.
func (n Node) Time() (sec int64, nsec uint32, ok bool) {
	if n.Kind != Ext || n.Ext != -1 {
		return 0, 0, false
	}
	switch len(n.Bytes) {
	case 4:
		return int64(binary.BigEndian.Uint32(n.Bytes)), 0, true
	case 8:
		v := binary.BigEndian.Uint64(n.Bytes)
		return int64(v & (1<<34 - 1)), uint32(v >> 34), true
	case 12:
		return int64(binary.BigEndian.Uint64(n.Bytes[4:])), binary.BigEndian.Uint32(n.Bytes), true
	}
	return 0, 0, false
}

// Canon renders a node canonically: equal strings mean equal values up to
// integer format and map order.
func (n Node) Canon() string {
	var sb strings.Builder
	n.canon(&sb)
	return sb.String()
}

// CanonInt, CanonTime etc. are shared with the value side.
func CanonInt(u uint64, neg bool) string {
	if neg {
		return "i" + strconv.FormatInt(int64(u), 10)
	}
	return "i" + strconv.FormatUint(u, 10)
}
func CanonF32(bits uint32) string        { return fmt.Sprintf("f32:%08x", bits) }
func CanonF64(bits uint64) string        { return fmt.Sprintf("f64:%016x", bits) }
func CanonStr(b []byte) string           { return "s" + strconv.Quote(string(b)) }
func CanonBin(b []byte) string           { return fmt.Sprintf("b%x", b) }
func CanonTime(s int64, n uint32) string { return fmt.Sprintf("t%d.%09d", s, n) }

// CanonMap renders a map from its rendered pairs.
func CanonMap(pairs []string) string {
	sort.Strings(pairs)
	return "{" + strings.Join(pairs, ",") + "}"
}

func (n Node) canon(sb *strings.Builder) {
	switch n.Kind {
	case Nil:
		sb.WriteString("nil")
	case Bool:
		fmt.Fprintf(sb, "%v", n.B)
	case Int:
		sb.WriteString(CanonInt(n.U, n.Neg))
	case F32:
		sb.WriteString(CanonF32(uint32(n.U)))
	case F64:
		sb.WriteString(CanonF64(n.U))
	case Str:
		sb.WriteString(CanonStr(n.Bytes))
	case Bin:
		sb.WriteString(CanonBin(n.Bytes))
	case Ext:
		if s, ns, ok := n.Time(); ok {
			sb.WriteString(CanonTime(s, ns))
			return
		}
		fmt.Fprintf(sb, "e%d:%x", n.Ext, n.Bytes)
	case Arr:
		sb.WriteByte('[')
		for i, e := range n.Elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			e.canon(sb)
		}
		sb.WriteByte(']')
	case Map:
		var pairs []string
		for i := 0; i+1 < len(n.Elems); i += 2 {
			pairs = append(pairs, n.Elems[i].Canon()+":"+n.Elems[i+1].Canon())
		}
		sb.WriteString(CanonMap(pairs))
	}
}
