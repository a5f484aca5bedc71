// Package gen holds generators shared by the check binaries. They are biased
// towards the boundaries of encodings.
package gen

import (
	"math"

	"pgregory.net/rapid"
)

// U64 yields integers concentrated around powers of two.
func U64() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		if rapid.IntRange(0, 3).Draw(t, "mode") == 0 {
			return rapid.Uint64().Draw(t, "u")
		}
		k := rapid.SampledFrom([]int{0, 4, 5, 7, 8, 15, 16, 31, 32, 33, 34, 62, 63, 64}).Draw(t, "pow")
		d := rapid.IntRange(-3, 3).Draw(t, "delta")
		var base uint64
		if k < 64 {
			base = 1 << k
		}
		return base + uint64(int64(d))
	})
}

// I64 yields signed integers concentrated around +-powers of two.
func I64() *rapid.Generator[int64] {
	return rapid.Custom(func(t *rapid.T) int64 {
		u := U64().Draw(t, "u")
		if rapid.Bool().Draw(t, "neg") {
			return int64(-u)
		}
		return int64(u)
	})
}

// U32 yields boundary-biased 32-bit numbers.
func U32() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 { return uint32(U64().Draw(t, "u")) })
}

// F64Bits yields float64 bit patterns, including all special classes.
func F64Bits() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		switch rapid.IntRange(0, 3).Draw(t, "fm") {
		case 0:
			return rapid.SampledFrom([]uint64{0, 1 << 63, math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)),
				0x7ff8000000000000, 0x7ff8000000000001, 0xfff8000000000123, 1, math.Float64bits(math.MaxFloat64), math.Float64bits(1)}).Draw(t, "fs")
		case 1:
			return math.Float64bits(float64(rapid.IntRange(-1000, 1000).Draw(t, "fi")) / 8)
		}
		return rapid.Uint64().Draw(t, "fb")
	})
}

// F32Bits yields float32 bit patterns.
func F32Bits() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		if rapid.Bool().Draw(t, "fs") {
			return rapid.SampledFrom([]uint32{0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 1, 0x7f7fffff, 0x3f800000}).Draw(t, "f")
		}
		return rapid.Uint32().Draw(t, "fb")
	})
}

// Blob is a byte string kept small in JSON: Head followed by Rep bytes of
// value Fill.
type Blob struct {
	Head []byte `json:",omitempty"`
	Rep  int    `json:",omitempty"`
	Fill byte   `json:",omitempty"`
}

// Bytes expands the blob.
func (b Blob) Bytes() []byte {
	out := make([]byte, len(b.Head)+b.Rep)
	copy(out, b.Head)
	for i := len(b.Head); i < len(out); i++ {
		out[i] = b.Fill + byte(i%7)
	}
	return out
}

// Len of the expanded blob.
func (b Blob) Len() int { return len(b.Head) + b.Rep }

var smallEdges = []int{0, 1, 15, 16, 31, 32, 33, 254, 255, 256, 257}
var bigEdges = []int{65534, 65535, 65536, 65537}

// BlobOf yields byte strings whose length sits at encoding boundaries; big
// allows lengths around 2^16.
func BlobOf(big bool) *rapid.Generator[Blob] {
	return rapid.Custom(func(t *rapid.T) Blob {
		m := rapid.IntRange(0, 19).Draw(t, "blobmode")
		switch {
		case m == 0 && big:
			return Blob{Rep: rapid.SampledFrom(bigEdges).Draw(t, "rep"), Fill: rapid.Byte().Draw(t, "fill")}
		case m < 6:
			return Blob{Rep: rapid.SampledFrom(smallEdges).Draw(t, "rep"), Fill: rapid.Byte().Draw(t, "fill")}
		}
		return Blob{Head: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")}
	})
}

// Sec yields timestamp seconds around every boundary of the timestamp
// formats, within the range time.Time prints and compares sanely.
func Sec() *rapid.Generator[int64] {
	return rapid.Custom(func(t *rapid.T) int64 {
		switch rapid.IntRange(0, 3).Draw(t, "secmode") {
		case 0:
			base := rapid.SampledFrom([]int64{0, 1 << 32, 1 << 34, 1 << 31, -1, -62135596800, 253402300799}).Draw(t, "base")
			return base + int64(rapid.IntRange(-2, 2).Draw(t, "d"))
		case 1:
			return rapid.Int64Range(-62135596800, 253402300799).Draw(t, "sec")
		case 2:
			return rapid.Int64Range(0, 1<<35).Draw(t, "sec")
		}
		return rapid.Int64Range(-1<<40, 1<<40).Draw(t, "sec")
	})
}

// NSec yields nanoseconds.
func NSec() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		if rapid.Bool().Draw(t, "nsz") {
			return rapid.SampledFrom([]uint32{0, 0, 1, 999999999, 500000000}).Draw(t, "ns")
		}
		return rapid.Uint32Range(0, 999999999).Draw(t, "ns")
	})
}
