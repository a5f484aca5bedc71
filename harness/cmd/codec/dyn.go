package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/nanobus/iota/go/zz_verif/gen"
	"github.com/nanobus/iota/go/zz_verif/kit"
	"github.com/nanobus/iota/go/zz_verif/ref/mp"
	"pgregory.net/rapid"
)

// DV describes a dynamically typed Go value.
type DV struct {
	T  string   // go type: nil bool int int8..int64 uint uint8..uint64 f32 f64 string bytes time; list:<elem>; map:<key>
	I  int64    `json:",omitempty"`
	U  uint64   `json:",omitempty"`
	S  gen.Blob `json:",omitempty"`
	NS uint32   `json:",omitempty"`
	L  []DV     `json:",omitempty"` // list elements or map values
	KS []DV     `json:",omitempty"` // map keys
}

var intTypes = []string{"int", "int8", "int16", "int32", "int64"}
var uintTypes = []string{"uint", "uint8", "uint16", "uint32", "uint64"}
var scalarTypes = append(append([]string{"nil", "bool", "f32", "f64", "string", "bytes", "time"}, intTypes...), uintTypes...)

// Every list and map type the dynamic writer supports.
var listTypes = []string{"any", "string", "time", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64"}
var mapTypes = []string{"string=string", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "any"}

func genScalar(typ string, big bool) *rapid.Generator[DV] {
	return rapid.Custom(func(t *rapid.T) DV {
		v := DV{T: typ}
		switch typ {
		case "nil":
			rapid.Bool().Draw(t, "nothing")
		case "bool":
			v.U = uint64(rapid.IntRange(0, 1).Draw(t, "b"))
		case "int8":
			v.I = int64(int8(gen.I64().Draw(t, "i")))
		case "int16":
			v.I = int64(int16(gen.I64().Draw(t, "i")))
		case "int32":
			v.I = int64(int32(gen.I64().Draw(t, "i")))
		case "int", "int64":
			v.I = gen.I64().Draw(t, "i")
		case "uint8":
			v.U = uint64(uint8(gen.U64().Draw(t, "u")))
		case "uint16":
			v.U = uint64(uint16(gen.U64().Draw(t, "u")))
		case "uint32":
			v.U = uint64(uint32(gen.U64().Draw(t, "u")))
		case "uint", "uint64":
			v.U = gen.U64().Draw(t, "u")
		case "f32":
			v.U = uint64(gen.F32Bits().Draw(t, "f"))
		case "f64":
			v.U = gen.F64Bits().Draw(t, "f")
		case "string", "bytes":
			v.S = gen.BlobOf(big).Draw(t, "s")
		case "time":
			v.I, v.NS = gen.Sec().Draw(t, "sec"), gen.NSec().Draw(t, "nsec")
		default:
			kit.Bug("no generator for %q", typ)
		}
		return v
	})
}

func genDyn(depth int, big bool) *rapid.Generator[DV] {
	return rapid.Custom(func(t *rapid.T) DV {
		m := rapid.IntRange(0, 9).Draw(t, "shape")
		if depth == 0 || m < 4 {
			return genScalar(rapid.SampledFrom(scalarTypes).Draw(t, "scalar"), big).Draw(t, "v")
		}
		max := 5
		if rapid.IntRange(0, 9).Draw(t, "wide") == 0 {
			max = 20
		}
		if m < 7 {
			typ := rapid.SampledFrom(listTypes).Draw(t, "elem")
			g := genDyn(depth-1, big)
			if typ != "any" {
				g = genScalar(typ, big)
			}
			return DV{T: "list:" + typ, L: rapid.SliceOfN(g, 0, max).Draw(t, "elems")}
		}
		typ := rapid.SampledFrom(mapTypes).Draw(t, "key")
		v := DV{T: "map:" + typ}
		n := rapid.IntRange(0, max).Draw(t, "n")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			kt := typ
			switch typ {
			case "any":
				kt = rapid.SampledFrom([]string{"string", "bool", "int", "int64", "uint64", "uint8", "f64", "f32"}).Draw(t, "kt")
			case "string=string":
				kt = "string"
			}
			k := genScalar(kt, false).Draw(t, "k")
			if kt == "f32" && math.Float32frombits(uint32(k.U)) != math.Float32frombits(uint32(k.U)) {
				continue
			}
			if kt == "f64" && math.Float64frombits(k.U) != math.Float64frombits(k.U) {
				continue
			}
			if (kt == "f32" && uint32(k.U) == 1<<31) || (kt == "f64" && k.U == 1<<63) {
				k.U = 0 // -0 and 0 are the same map key
			}
			if seen[k.canon()] {
				continue
			}
			seen[k.canon()] = true
			v.KS = append(v.KS, k)
			if typ == "string=string" {
				v.L = append(v.L, genScalar("string", big).Draw(t, "v"))
			} else {
				v.L = append(v.L, genDyn(depth-1, big).Draw(t, "v"))
			}
		}
		return v
	})
}

func list[T any](l []DV) []T {
	out := make([]T, len(l))
	for i, e := range l {
		out[i] = e.value().(T)
	}
	return out
}

func mapOf[K comparable](v DV) map[K]any {
	out := map[K]any{}
	for i, k := range v.KS {
		out[k.value().(K)] = v.L[i].value()
	}
	return out
}

// value builds the Go value.
func (v DV) value() any {
	switch v.T {
	case "nil":
		return nil
	case "bool":
		return v.U == 1
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "f32":
		return math.Float32frombits(uint32(v.U))
	case "f64":
		return math.Float64frombits(v.U)
	case "string":
		return string(v.S.Bytes())
	case "bytes":
		return v.S.Bytes()
	case "time":
		return time.Unix(v.I, int64(v.NS))
	case "list:any":
		out := make([]any, len(v.L))
		for i, e := range v.L {
			out[i] = e.value()
		}
		return out
	case "list:string":
		return list[string](v.L)
	case "list:time":
		return list[time.Time](v.L)
	case "list:bool":
		return list[bool](v.L)
	case "list:int":
		return list[int](v.L)
	case "list:int8":
		return list[int8](v.L)
	case "list:int16":
		return list[int16](v.L)
	case "list:int32":
		return list[int32](v.L)
	case "list:int64":
		return list[int64](v.L)
	case "list:uint":
		return list[uint](v.L)
	case "list:uint16":
		return list[uint16](v.L)
	case "list:uint32":
		return list[uint32](v.L)
	case "list:uint64":
		return list[uint64](v.L)
	case "map:string=string":
		out := map[string]string{}
		for i, k := range v.KS {
			out[k.value().(string)] = v.L[i].value().(string)
		}
		return out
	case "map:string":
		return mapOf[string](v)
	case "map:int":
		return mapOf[int](v)
	case "map:int8":
		return mapOf[int8](v)
	case "map:int16":
		return mapOf[int16](v)
	case "map:int32":
		return mapOf[int32](v)
	case "map:int64":
		return mapOf[int64](v)
	case "map:uint":
		return mapOf[uint](v)
	case "map:uint8":
		return mapOf[uint8](v)
	case "map:uint16":
		return mapOf[uint16](v)
	case "map:uint32":
		return mapOf[uint32](v)
	case "map:uint64":
		return mapOf[uint64](v)
	case "map:any":
		out := map[any]any{}
		for i, k := range v.KS {
			out[k.value()] = v.L[i].value()
		}
		return out
	}
	kit.Bug("no Go value for %q", v.T)
	return nil
}

// canon is the canonical rendering of the described value.
func (v DV) canon() string {
	switch {
	case v.T == "nil":
		return "nil"
	case v.T == "bool":
		return fmt.Sprint(v.U == 1)
	case strings.HasPrefix(v.T, "int"):
		return mp.CanonInt(uint64(v.I), v.I < 0)
	case strings.HasPrefix(v.T, "uint"):
		return mp.CanonInt(v.U, false)
	case v.T == "f32":
		return mp.CanonF32(uint32(v.U))
	case v.T == "f64":
		return mp.CanonF64(v.U)
	case v.T == "string":
		return mp.CanonStr(v.S.Bytes())
	case v.T == "bytes":
		return mp.CanonBin(v.S.Bytes())
	case v.T == "time":
		return mp.CanonTime(v.I, v.NS)
	case strings.HasPrefix(v.T, "list:"):
		var p []string
		for _, e := range v.L {
			p = append(p, e.canon())
		}
		return "[" + strings.Join(p, ",") + "]"
	case strings.HasPrefix(v.T, "map:"):
		var p []string
		for i, k := range v.KS {
			p = append(p, k.canon()+":"+v.L[i].canon())
		}
		return mp.CanonMap(p)
	}
	kit.Bug("no canon for %q", v.T)
	return ""
}

// canonAny renders a value returned by the dynamic reader.
func canonAny(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(v)
	case int:
		return mp.CanonInt(uint64(v), v < 0)
	case int8:
		return canonInt(v)
	case int16:
		return canonInt(v)
	case int32:
		return canonInt(v)
	case int64:
		return canonInt(v)
	case uint:
		return mp.CanonInt(uint64(v), false)
	case uint8:
		return canonUint(v)
	case uint16:
		return canonUint(v)
	case uint32:
		return canonUint(v)
	case uint64:
		return canonUint(v)
	case float32:
		return mp.CanonF32(math.Float32bits(v))
	case float64:
		return mp.CanonF64(math.Float64bits(v))
	case string:
		return mp.CanonStr([]byte(v))
	case []byte:
		return mp.CanonBin(v)
	case time.Time:
		return canonTime(v)
	case *time.Time:
		if v == nil {
			return "nil"
		}
		return canonTime(*v)
	case []any:
		var p []string
		for _, e := range v {
			p = append(p, canonAny(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[any]any:
		var p []string
		for k, e := range v {
			p = append(p, canonAny(k)+":"+canonAny(e))
		}
		return mp.CanonMap(p)
	case map[string]any:
		var p []string
		for k, e := range v {
			p = append(p, mp.CanonStr([]byte(k))+":"+canonAny(e))
		}
		return mp.CanonMap(p)
	}
	return fmt.Sprintf("<%T>", x)
}

func (v DV) size() int {
	n := 1
	for _, e := range v.L {
		n += e.size()
	}
	return n
}

func (v DV) types(m map[string]bool) {
	m[v.T] = true
	for _, e := range v.L {
		e.types(m)
	}
}

func labelTypes(v DV, label func(string, ...any)) {
	m := map[string]bool{}
	v.types(m)
	var k []string
	for t := range m {
		k = append(k, t)
	}
	sort.Strings(k)
	for _, t := range k {
		label(t)
	}
}
