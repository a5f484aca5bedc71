package main

import (
	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

// Val is a well-formed MessagePack value at the wire level: any kind in any
// format able to carry it.
type Val struct {
	K   mp.Kind
	F   byte     `json:",omitempty"` // integer format
	W   int      `json:",omitempty"` // width of the length header
	U   uint64   `json:",omitempty"`
	Neg bool     `json:",omitempty"`
	S   gen.Blob `json:",omitempty"`
	X   int8     `json:",omitempty"` // ext type
	E   []Val    `json:",omitempty"`
}

func (v Val) kind() mp.Kind { return v.K }

func (v Val) encode(dst []byte) []byte {
	var ok bool
	switch v.K {
	case mp.Nil:
		return append(dst, 0xc0)
	case mp.Bool:
		return append(dst, 0xc2|byte(v.U&1))
	case mp.Int:
		if dst, ok = mp.AppendInt(dst, v.U, v.Neg, v.F); !ok {
			kit.Bug("bad int format")
		}
		return dst
	case mp.F32:
		return append(dst, 0xca, byte(v.U>>24), byte(v.U>>16), byte(v.U>>8), byte(v.U))
	case mp.F64:
		dst = append(dst, 0xcb)
		for s := 56; s >= 0; s -= 8 {
			dst = append(dst, byte(v.U>>s))
		}
		return dst
	case mp.Str, mp.Bin, mp.Ext:
		if dst, ok = mp.AppendLen(dst, v.K, v.S.Len(), v.W); !ok {
			kit.Bug("bad length header %+v", v)
		}
		if v.K == mp.Ext {
			dst = append(dst, byte(v.X))
		}
		return append(dst, v.S.Bytes()...)
	case mp.Arr, mp.Map:
		n := len(v.E)
		if v.K == mp.Map {
			n /= 2
		}
		if dst, ok = mp.AppendLen(dst, v.K, n, v.W); !ok {
			kit.Bug("bad count header %+v", v)
		}
		for _, e := range v.E {
			dst = e.encode(dst)
		}
		return dst
	}
	kit.Bug("unknown kind %q", v.K)
	return nil
}

func (v Val) nodes() int {
	n := 1
	for _, e := range v.E {
		n += e.nodes()
	}
	return n
}

func (v Val) labels(l func(string, ...any)) {
	b := v.encode(nil)
	c := b[0]
	switch {
	case c <= 0x7f:
		l("fixint")
	case c <= 0x8f:
		l("fixmap")
	case c <= 0x9f:
		l("fixarray")
	case c <= 0xbf:
		l("fixstr")
	case c >= 0xe0:
		l("negative fixint")
	default:
		l("%#x", c)
	}
	for _, e := range v.E {
		e.labels(l)
	}
}

func width(t *rapid.T, n int, fix bool, widths ...int) int {
	var ok []int
	if fix {
		ok = append(ok, 0)
	}
	for _, w := range widths {
		if w == 4 || n>>(8*w) == 0 {
			ok = append(ok, w)
		}
	}
	return rapid.SampledFrom(ok).Draw(t, "width")
}

var allKinds = []mp.Kind{mp.Nil, mp.Bool, mp.Int, mp.Int, mp.F32, mp.F64, mp.Str, mp.Bin, mp.Ext, mp.Ext, mp.Arr, mp.Map}

func genVal(depth int) *rapid.Generator[Val] {
	return rapid.Custom(func(t *rapid.T) Val {
		kinds := allKinds
		if depth == 0 {
			kinds = kinds[:10]
		}
		v := Val{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch v.K {
		case mp.Bool:
			v.U = uint64(rapid.IntRange(0, 1).Draw(t, "b"))
		case mp.Int:
			c := genInt(t)
			v.U, v.Neg = c.U, c.Neg
			var fs []byte
			for _, f := range intFormats {
				if _, ok := mp.AppendInt(nil, v.U, v.Neg, f); ok {
					fs = append(fs, f)
				}
			}
			v.F = rapid.SampledFrom(fs).Draw(t, "format")
		case mp.F32:
			v.U = uint64(gen.F32Bits().Draw(t, "f"))
		case mp.F64:
			v.U = gen.F64Bits().Draw(t, "f")
		case mp.Str:
			v.S = gen.BlobOf(true).Draw(t, "s")
			v.W = width(t, v.S.Len(), v.S.Len() <= 31, 1, 2, 4)
		case mp.Bin:
			v.S = gen.BlobOf(true).Draw(t, "s")
			v.W = width(t, v.S.Len(), false, 1, 2, 4)
		case mp.Ext:
			if rapid.Bool().Draw(t, "fixext") {
				v.S = gen.Blob{Head: rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "x")[:rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(t, "fixlen")]}
				v.W = width(t, v.S.Len(), true, 1, 2, 4)
			} else {
				v.S = gen.BlobOf(true).Draw(t, "s")
				n := v.S.Len()
				v.W = width(t, n, n == 1 || n == 2 || n == 4 || n == 8 || n == 16, 1, 2, 4)
			}
			v.X = rapid.SampledFrom([]int8{-1, -1, 13, 0, 1, 127, -128}).Draw(t, "ext")
		case mp.Arr:
			v.E = rapid.SliceOfN(genVal(depth-1), 0, 18).Draw(t, "elems")
			v.W = width(t, len(v.E), len(v.E) <= 15, 2, 4)
		case mp.Map:
			n := rapid.IntRange(0, 17).Draw(t, "n")
			v.E = rapid.SliceOfN(genVal(depth-1), 2*n, 2*n).Draw(t, "elems")
			v.W = width(t, n, n <= 15, 2, 4)
		}
		return v
	})
}
