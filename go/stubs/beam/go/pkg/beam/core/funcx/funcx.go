// Package funcx stands in for Beam's description of user functions.
package funcx

import (
	"context"
	"fmt"
	"reflect"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/typex"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
)

type FnParamKind int

const (
	FnIllegal   FnParamKind = 0x1
	FnContext   FnParamKind = 0x2
	FnEventTime FnParamKind = 0x4
	FnValue     FnParamKind = 0x8
	FnIter      FnParamKind = 0x10
	FnReIter    FnParamKind = 0x20
	FnEmit      FnParamKind = 0x40
	FnType      FnParamKind = 0x80
	FnWindow    FnParamKind = 0x200
)

type ReturnKind int

const (
	RetIllegal   ReturnKind = 0x1
	RetEventTime ReturnKind = 0x2
	RetValue     ReturnKind = 0x4
	RetError     ReturnKind = 0x10
)

type FnParam struct {
	Kind FnParamKind
	T    reflect.Type
}

type ReturnParam struct {
	Kind ReturnKind
	T    reflect.Type
}

type Fn struct {
	Fn    reflectx.Func
	Param []FnParam
	Ret   []ReturnParam
}

var (
	ContextType = reflect.TypeOf((*context.Context)(nil)).Elem()
	ErrorType   = reflect.TypeOf((*error)(nil)).Elem()
	typeType    = reflect.TypeOf((*reflect.Type)(nil)).Elem()
)

func isValue(t reflect.Type) bool {
	if t == ContextType || t == ErrorType || t == typeType || t == typex.EventTimeType || t == typex.WindowType {
		return false
	}
	switch t.Kind() {
	case reflect.Invalid, reflect.UnsafePointer, reflect.Uintptr, reflect.Chan, reflect.Func:
		return false
	case reflect.Interface:
		return typex.IsUniversal(t) || t.NumMethod() > 0
	}
	return true
}

func IsIter(t reflect.Type) bool {
	if t.Kind() != reflect.Func || t.NumIn() == 0 || t.NumOut() != 1 || t.Out(0).Kind() != reflect.Bool {
		return false
	}
	for i := 0; i < t.NumIn(); i++ {
		if t.In(i).Kind() != reflect.Ptr || !isValue(t.In(i).Elem()) {
			return false
		}
	}
	return true
}

func IsReIter(t reflect.Type) bool {
	return t.Kind() == reflect.Func && t.NumIn() == 0 && t.NumOut() == 1 && IsIter(t.Out(0))
}

func IsEmit(t reflect.Type) bool {
	if t.Kind() != reflect.Func || t.NumOut() > 0 || t.NumIn() == 0 {
		return false
	}
	skip := 0
	if t.In(0) == typex.EventTimeType {
		skip = 1
	}
	if t.NumIn()-skip > 2 || t.NumIn() == skip {
		return false
	}
	for i := 0; i < t.NumIn(); i++ {
		if !isValue(t.In(i)) && !(i == 0 && t.In(i) == typex.EventTimeType) {
			return false
		}
	}
	return true
}

func New(f reflectx.Func) (*Fn, error) {
	t := f.Type()
	r := &Fn{Fn: f}
	for i := 0; i < t.NumIn(); i++ {
		p := t.In(i)
		k := FnIllegal
		switch {
		case p == ContextType:
			k = FnContext
		case p == typex.EventTimeType:
			k = FnEventTime
		case p == typex.WindowType:
			k = FnWindow
		case p == typeType:
			k = FnType
		case isValue(p):
			k = FnValue
		case IsEmit(p):
			k = FnEmit
		case IsIter(p):
			k = FnIter
		case IsReIter(p):
			k = FnReIter
		default:
			return nil, fmt.Errorf("bad parameter type for %s: %v", f.Name(), p)
		}
		r.Param = append(r.Param, FnParam{k, p})
	}
	for i := 0; i < t.NumOut(); i++ {
		p := t.Out(i)
		k := RetIllegal
		switch {
		case p == ErrorType:
			k = RetError
		case p == typex.EventTimeType:
			k = RetEventTime
		case isValue(p):
			k = RetValue
		default:
			return nil, fmt.Errorf("bad return type for %s: %v", f.Name(), p)
		}
		r.Ret = append(r.Ret, ReturnParam{k, p})
	}
	return r, nil
}

func (f *Fn) Params(mask FnParamKind) []int {
	var r []int
	for i, p := range f.Param {
		if p.Kind&mask != 0 {
			r = append(r, i)
		}
	}
	return r
}

func (f *Fn) Returns(mask ReturnKind) []int {
	var r []int
	for i, p := range f.Ret {
		if p.Kind&mask != 0 {
			r = append(r, i)
		}
	}
	return r
}
