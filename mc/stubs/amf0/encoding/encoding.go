// Package encoding maps structs to sequences of AMF0 values.
package encoding

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

var nullType = reflect.TypeOf((*amf0.Null)(nil))

// Marshal encodes the fields of the struct that t points to, in order. Like a
// bytes.Buffer, the result may have spare capacity.
func Marshal(t interface{}) ([]byte, error) {
	v := reflect.ValueOf(t)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	buf := new(bytes.Buffer)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := v.Type().Field(i)
		if ft.Name == "_" {
			if ft.Type == nullType {
				buf.WriteByte(5)
			}
			continue
		}
		var a amf0.AmfType
		switch {
		case f.Kind() == reflect.String:
			a = amf0.NewString(f.String())
		case f.Kind() == reflect.Float64:
			a = amf0.NewNumber(f.Float())
		case f.Kind() == reflect.Bool:
			a = amf0.NewBool(f.Bool())
		case f.Kind() == reflect.Ptr && f.IsNil():
			a = amf0.NewNull()
		case f.Kind() == reflect.Ptr:
			x, ok := f.Interface().(amf0.AmfType)
			if !ok {
				return nil, fmt.Errorf("amf0: cannot marshal %s", f.Type())
			}
			a = x
		case f.Kind() == reflect.Struct:
			p := reflect.New(f.Type())
			p.Elem().Set(f)
			x, ok := p.Interface().(amf0.AmfType)
			if !ok {
				return nil, fmt.Errorf("amf0: cannot marshal %s", f.Type())
			}
			a = x
		default:
			return nil, fmt.Errorf("amf0: cannot marshal %s", f.Type())
		}
		if _, err := a.Encode(buf); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

// Unmarshal decodes into the fields of the struct that dest points to, in
// order. A null leaves an object, array or null field as it is.
func Unmarshal(r io.Reader, dest interface{}) error {
	v := reflect.ValueOf(dest).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		a, err := amf0.Decode(r)
		if err != nil {
			return err
		}
		if v.Type().Field(i).Name == "_" {
			continue
		}
		if _, null := a.(*amf0.Null); null && f.Kind() == reflect.Ptr {
			continue
		}
		switch x := a.(type) {
		case *amf0.String:
			if f.Kind() == reflect.String {
				f.SetString(string(*x))
				continue
			}
		case *amf0.Number:
			if f.Kind() == reflect.Float64 {
				f.SetFloat(float64(*x))
				continue
			}
		case *amf0.Bool:
			if f.Kind() == reflect.Bool {
				f.SetBool(bool(*x))
				continue
			}
		}
		av := reflect.ValueOf(a)
		if f.Kind() == reflect.Ptr && av.Type() == f.Type() {
			f.Set(av)
			continue
		}
		if f.Kind() == reflect.Struct && av.Elem().Type() == f.Type() {
			f.Set(av.Elem())
			continue
		}
		return fmt.Errorf("amf0: cannot store %T in a field of type %s", a, f.Type())
	}
	return nil
}
