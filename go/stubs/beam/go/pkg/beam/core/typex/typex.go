// Package typex stands in for Beam's type system.
package typex

import (
	"fmt"
	"reflect"
)

type T any
type U any
type V any
type W any
type X any
type Y any
type Z any

type KV struct{}
type CoGBK struct{}
type EventTime int64
type Window interface{ MaxTimestamp() EventTime }

var (
	TType     = reflect.TypeOf((*T)(nil)).Elem()
	UType     = reflect.TypeOf((*U)(nil)).Elem()
	VType     = reflect.TypeOf((*V)(nil)).Elem()
	WType     = reflect.TypeOf((*W)(nil)).Elem()
	XType     = reflect.TypeOf((*X)(nil)).Elem()
	YType     = reflect.TypeOf((*Y)(nil)).Elem()
	ZType     = reflect.TypeOf((*Z)(nil)).Elem()
	KVType    = reflect.TypeOf(KV{})
	CoGBKType = reflect.TypeOf(CoGBK{})

	EventTimeType = reflect.TypeOf(EventTime(0))
	WindowType    = reflect.TypeOf((*Window)(nil)).Elem()
)

func IsUniversal(t reflect.Type) bool {
	switch t {
	case TType, UType, VType, WType, XType, YType, ZType:
		return true
	}
	return false
}

type FullType interface {
	Type() reflect.Type
	Components() []FullType
	String() string
}

type tree struct {
	t     reflect.Type
	comps []FullType
}

func (t *tree) Type() reflect.Type     { return t.t }
func (t *tree) Components() []FullType { return t.comps }
func (t *tree) String() string         { return fmt.Sprint(t.t, t.comps) }

func New(t reflect.Type, comps ...FullType) FullType { return &tree{t, comps} }
func NewKV(k, v FullType) FullType                   { return New(KVType, k, v) }
func IsKV(t FullType) bool                           { return t.Type() == KVType }
func IsCoGBK(t FullType) bool                        { return t.Type() == CoGBKType }
