// Package amf0 is a stand-in for github.com/WatchBeam/amf0, which is not
// available offline. It implements the part of AMF0 that the rtmp packages use
// (number, boolean, string, object, null, ECMA array) behind the same names.
package amf0

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
)

// AmfType is any AMF0 value.
type AmfType interface {
	Marker() byte
	Decode(r io.Reader) error
	Encode(w io.Writer) (int, error)
}

var (
	ErrUnknownMarker = errors.New("amf0: unknown marker")
	endMarker        = []byte{0, 0, 9}
)

type String string

func NewString(s string) *String { v := String(s); return &v }

func (s *String) Marker() byte { return 0x02 }
func (s *String) Decode(r io.Reader) error {
	v, err := readStr(r)
	if err != nil {
		return err
	}
	*s = String(v)
	return nil
}
func (s *String) Encode(w io.Writer) (int, error) {
	return w.Write(append([]byte{2}, str(string(*s))...))
}

func str(s string) []byte {
	b := make([]byte, 2, 2+len(s))
	binary.BigEndian.PutUint16(b, uint16(len(s)))
	return append(b, s...)
}

func readStr(r io.Reader) (string, error) {
	var l [2]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return "", err
	}
	b := make([]byte, binary.BigEndian.Uint16(l[:]))
	if _, err := io.ReadFull(r, b); err != nil {
		return "", err
	}
	return string(b), nil
}

type Number float64

func NewNumber(n float64) *Number { v := Number(n); return &v }

func (n *Number) Marker() byte { return 0 }
func (n *Number) Decode(r io.Reader) error {
	var b [8]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = Number(math.Float64frombits(binary.BigEndian.Uint64(b[:])))
	return nil
}
func (n *Number) Encode(w io.Writer) (int, error) {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(float64(*n)))
	return w.Write(b)
}

type Bool bool

func NewBool(b bool) *Bool { v := Bool(b); return &v }

func (b *Bool) Marker() byte { return 1 }
func (b *Bool) Decode(r io.Reader) error {
	var c [1]byte
	if _, err := io.ReadFull(r, c[:]); err != nil {
		return err
	}
	*b = c[0] != 0
	return nil
}
func (b *Bool) Encode(w io.Writer) (int, error) {
	if *b {
		return w.Write([]byte{1, 1})
	}
	return w.Write([]byte{1, 0})
}

type Null struct{}

func NewNull() *Null { return new(Null) }

func (n *Null) Marker() byte                    { return 5 }
func (n *Null) Decode(r io.Reader) error        { return nil }
func (n *Null) Encode(w io.Writer) (int, error) { return w.Write([]byte{5}) }

type Undefined struct{}

func (n *Undefined) Marker() byte                    { return 6 }
func (n *Undefined) Decode(r io.Reader) error        { return nil }
func (n *Undefined) Encode(w io.Writer) (int, error) { return w.Write([]byte{6}) }

// Paired is an ordered list of named values.
type Paired struct {
	pairs []pair
}

type pair struct {
	Key   string
	Value AmfType
}

func NewPaired() *Paired { return &Paired{} }

func (p *Paired) Add(key string, v AmfType) *Paired {
	p.pairs = append(p.pairs, pair{key, v})
	return p
}

func (p *Paired) Get(key string) (AmfType, error) {
	if p != nil {
		for _, e := range p.pairs {
			if e.Key == key {
				return e.Value, nil
			}
		}
	}
	return nil, fmt.Errorf("amf0: no such key: %s", key)
}

func (p *Paired) Size() int {
	if p == nil {
		return 0
	}
	return len(p.pairs)
}

func (p *Paired) Len() int { return p.Size() }

func (p *Paired) decode(r io.Reader) error {
	for {
		k, err := readStr(r)
		if err != nil {
			return err
		}
		if k == "" {
			var m [1]byte
			if _, err := io.ReadFull(r, m[:]); err != nil {
				return err
			}
			if m[0] == 9 {
				return nil
			}
			v, err := decodeAs(m[0], r)
			if err != nil {
				return err
			}
			p.Add(k, v)
			continue
		}
		v, err := Decode(r)
		if err != nil {
			return err
		}
		p.Add(k, v)
	}
}

func (p *Paired) encode(b *bytes.Buffer) error {
	if p != nil {
		for _, e := range p.pairs {
			b.Write(str(e.Key))
			if _, err := e.Value.Encode(b); err != nil {
				return err
			}
		}
	}
	b.Write(endMarker)
	return nil
}

type Object struct{ *Paired }

func NewObject() *Object { return &Object{NewPaired()} }

func (o *Object) Marker() byte { return 3 }
func (o *Object) Decode(r io.Reader) error {
	o.Paired = NewPaired()
	return o.Paired.decode(r)
}
func (o *Object) Encode(w io.Writer) (int, error) {
	b := bytes.NewBuffer([]byte{3})
	if err := o.Paired.encode(b); err != nil {
		return 0, err
	}
	return w.Write(b.Bytes())
}

type Array struct{ *Paired }

func NewArray() *Array { return &Array{NewPaired()} }

func (a *Array) Marker() byte { return 8 }
func (a *Array) Decode(r io.Reader) error {
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return err
	}
	a.Paired = NewPaired()
	return a.Paired.decode(r)
}
func (a *Array) Encode(w io.Writer) (int, error) {
	b := bytes.NewBuffer([]byte{8, 0, 0, 0, 0})
	binary.BigEndian.PutUint32(b.Bytes()[1:], uint32(a.Size()))
	if err := a.Paired.encode(b); err != nil {
		return 0, err
	}
	return w.Write(b.Bytes())
}

// Decode reads one value of any type.
func Decode(r io.Reader) (AmfType, error) {
	var m [1]byte
	if _, err := io.ReadFull(r, m[:]); err != nil {
		return nil, err
	}
	return decodeAs(m[0], r)
}

func decodeAs(m byte, r io.Reader) (AmfType, error) {
	var v AmfType
	switch m {
	case 0:
		v = new(Number)
	case 1:
		v = new(Bool)
	case 2:
		v = new(String)
	case 3:
		v = NewObject()
	case 5:
		v = new(Null)
	case 6:
		v = new(Undefined)
	case 8:
		v = NewArray()
	default:
		return nil, ErrUnknownMarker
	}
	if err := v.Decode(r); err != nil {
		return nil, err
	}
	return v, nil
}

// Encode writes one value.
func Encode(v AmfType, w io.Writer) (int, error) { return v.Encode(w) }

type unencodable struct{ err error }

func (u *unencodable) Marker() byte                    { return 0x0d }
func (u *unencodable) Decode(r io.Reader) error        { return u.err }
func (u *unencodable) Encode(w io.Writer) (int, error) { return 0, u.err }

// Unencodable is a value whose encoding fails with err. It exists for tests.
func Unencodable(err error) AmfType { return &unencodable{err} }
