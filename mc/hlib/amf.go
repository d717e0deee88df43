package hlib

import (
	"encoding/binary"
	"math"
)

// AMF0 encodings, written independently of the library under test.

func AStr(s string) []byte {
	return append([]byte{2, byte(len(s) >> 8), byte(len(s))}, s...)
}

func ANum(f float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return b
}

func ABool(v bool) []byte {
	if v {
		return []byte{1, 1}
	}
	return []byte{1, 0}
}

func ANull() []byte { return []byte{5} }

func props(kv []any) []byte {
	var b []byte
	for i := 0; i < len(kv); i += 2 {
		k := kv[i].(string)
		b = append(b, byte(len(k)>>8), byte(len(k)))
		b = append(b, k...)
		b = append(b, kv[i+1].([]byte)...)
	}
	return append(b, 0, 0, 9)
}

// AObj is an object of name, encoded value pairs.
func AObj(kv ...any) []byte { return append([]byte{3}, props(kv)...) }

// AArr is an ECMA array.
func AArr(kv ...any) []byte {
	n := len(kv) / 2
	return append([]byte{8, 0, 0, byte(n >> 8), byte(n)}, props(kv)...)
}

func Cat(p ...[]byte) []byte {
	var b []byte
	for _, x := range p {
		b = append(b, x...)
	}
	return b
}
