// Package reflectx stands in for Beam's reflective functions.
package reflectx

import "reflect"

type Func interface {
	Name() string
	Type() reflect.Type
	Call(args []any) []any
}

type fn struct{ v reflect.Value }

func MakeFunc(f any) Func {
	if g, ok := f.(Func); ok {
		return g
	}
	return &fn{reflect.ValueOf(f)}
}

func (f *fn) Name() string       { return f.v.Type().String() }
func (f *fn) Type() reflect.Type { return f.v.Type() }
func (f *fn) Call(args []any) []any {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.v.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	out := f.v.Call(in)
	r := make([]any, len(out))
	for i, o := range out {
		r[i] = o.Interface()
	}
	return r
}

type shim struct{ Func }

type Func0x0 interface {
	Func
	Call0x0()
}

func (s shim) Call0x0() {
	s.Call([]any{})
}

func ToFunc0x0(c Func) Func0x0 {
	if c.Type().NumIn() != 0 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func0x1 interface {
	Func
	Call0x1() any
}

func (s shim) Call0x1() any {
	o := s.Call([]any{})
	return o[0]
}

func ToFunc0x1(c Func) Func0x1 {
	if c.Type().NumIn() != 0 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func0x2 interface {
	Func
	Call0x2() (any, any)
}

func (s shim) Call0x2() (any, any) {
	o := s.Call([]any{})
	return o[0], o[1]
}

func ToFunc0x2(c Func) Func0x2 {
	if c.Type().NumIn() != 0 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func0x3 interface {
	Func
	Call0x3() (any, any, any)
}

func (s shim) Call0x3() (any, any, any) {
	o := s.Call([]any{})
	return o[0], o[1], o[2]
}

func ToFunc0x3(c Func) Func0x3 {
	if c.Type().NumIn() != 0 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func0x4 interface {
	Func
	Call0x4() (any, any, any, any)
}

func (s shim) Call0x4() (any, any, any, any) {
	o := s.Call([]any{})
	return o[0], o[1], o[2], o[3]
}

func ToFunc0x4(c Func) Func0x4 {
	if c.Type().NumIn() != 0 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func1x0 interface {
	Func
	Call1x0(a0 any)
}

func (s shim) Call1x0(a0 any) {
	s.Call([]any{a0})
}

func ToFunc1x0(c Func) Func1x0 {
	if c.Type().NumIn() != 1 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func1x1 interface {
	Func
	Call1x1(a0 any) any
}

func (s shim) Call1x1(a0 any) any {
	o := s.Call([]any{a0})
	return o[0]
}

func ToFunc1x1(c Func) Func1x1 {
	if c.Type().NumIn() != 1 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func1x2 interface {
	Func
	Call1x2(a0 any) (any, any)
}

func (s shim) Call1x2(a0 any) (any, any) {
	o := s.Call([]any{a0})
	return o[0], o[1]
}

func ToFunc1x2(c Func) Func1x2 {
	if c.Type().NumIn() != 1 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func1x3 interface {
	Func
	Call1x3(a0 any) (any, any, any)
}

func (s shim) Call1x3(a0 any) (any, any, any) {
	o := s.Call([]any{a0})
	return o[0], o[1], o[2]
}

func ToFunc1x3(c Func) Func1x3 {
	if c.Type().NumIn() != 1 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func1x4 interface {
	Func
	Call1x4(a0 any) (any, any, any, any)
}

func (s shim) Call1x4(a0 any) (any, any, any, any) {
	o := s.Call([]any{a0})
	return o[0], o[1], o[2], o[3]
}

func ToFunc1x4(c Func) Func1x4 {
	if c.Type().NumIn() != 1 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func2x0 interface {
	Func
	Call2x0(a0, a1 any)
}

func (s shim) Call2x0(a0, a1 any) {
	s.Call([]any{a0, a1})
}

func ToFunc2x0(c Func) Func2x0 {
	if c.Type().NumIn() != 2 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func2x1 interface {
	Func
	Call2x1(a0, a1 any) any
}

func (s shim) Call2x1(a0, a1 any) any {
	o := s.Call([]any{a0, a1})
	return o[0]
}

func ToFunc2x1(c Func) Func2x1 {
	if c.Type().NumIn() != 2 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func2x2 interface {
	Func
	Call2x2(a0, a1 any) (any, any)
}

func (s shim) Call2x2(a0, a1 any) (any, any) {
	o := s.Call([]any{a0, a1})
	return o[0], o[1]
}

func ToFunc2x2(c Func) Func2x2 {
	if c.Type().NumIn() != 2 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func2x3 interface {
	Func
	Call2x3(a0, a1 any) (any, any, any)
}

func (s shim) Call2x3(a0, a1 any) (any, any, any) {
	o := s.Call([]any{a0, a1})
	return o[0], o[1], o[2]
}

func ToFunc2x3(c Func) Func2x3 {
	if c.Type().NumIn() != 2 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func2x4 interface {
	Func
	Call2x4(a0, a1 any) (any, any, any, any)
}

func (s shim) Call2x4(a0, a1 any) (any, any, any, any) {
	o := s.Call([]any{a0, a1})
	return o[0], o[1], o[2], o[3]
}

func ToFunc2x4(c Func) Func2x4 {
	if c.Type().NumIn() != 2 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func3x0 interface {
	Func
	Call3x0(a0, a1, a2 any)
}

func (s shim) Call3x0(a0, a1, a2 any) {
	s.Call([]any{a0, a1, a2})
}

func ToFunc3x0(c Func) Func3x0 {
	if c.Type().NumIn() != 3 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func3x1 interface {
	Func
	Call3x1(a0, a1, a2 any) any
}

func (s shim) Call3x1(a0, a1, a2 any) any {
	o := s.Call([]any{a0, a1, a2})
	return o[0]
}

func ToFunc3x1(c Func) Func3x1 {
	if c.Type().NumIn() != 3 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func3x2 interface {
	Func
	Call3x2(a0, a1, a2 any) (any, any)
}

func (s shim) Call3x2(a0, a1, a2 any) (any, any) {
	o := s.Call([]any{a0, a1, a2})
	return o[0], o[1]
}

func ToFunc3x2(c Func) Func3x2 {
	if c.Type().NumIn() != 3 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func3x3 interface {
	Func
	Call3x3(a0, a1, a2 any) (any, any, any)
}

func (s shim) Call3x3(a0, a1, a2 any) (any, any, any) {
	o := s.Call([]any{a0, a1, a2})
	return o[0], o[1], o[2]
}

func ToFunc3x3(c Func) Func3x3 {
	if c.Type().NumIn() != 3 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func3x4 interface {
	Func
	Call3x4(a0, a1, a2 any) (any, any, any, any)
}

func (s shim) Call3x4(a0, a1, a2 any) (any, any, any, any) {
	o := s.Call([]any{a0, a1, a2})
	return o[0], o[1], o[2], o[3]
}

func ToFunc3x4(c Func) Func3x4 {
	if c.Type().NumIn() != 3 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func4x0 interface {
	Func
	Call4x0(a0, a1, a2, a3 any)
}

func (s shim) Call4x0(a0, a1, a2, a3 any) {
	s.Call([]any{a0, a1, a2, a3})
}

func ToFunc4x0(c Func) Func4x0 {
	if c.Type().NumIn() != 4 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func4x1 interface {
	Func
	Call4x1(a0, a1, a2, a3 any) any
}

func (s shim) Call4x1(a0, a1, a2, a3 any) any {
	o := s.Call([]any{a0, a1, a2, a3})
	return o[0]
}

func ToFunc4x1(c Func) Func4x1 {
	if c.Type().NumIn() != 4 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func4x2 interface {
	Func
	Call4x2(a0, a1, a2, a3 any) (any, any)
}

func (s shim) Call4x2(a0, a1, a2, a3 any) (any, any) {
	o := s.Call([]any{a0, a1, a2, a3})
	return o[0], o[1]
}

func ToFunc4x2(c Func) Func4x2 {
	if c.Type().NumIn() != 4 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func4x3 interface {
	Func
	Call4x3(a0, a1, a2, a3 any) (any, any, any)
}

func (s shim) Call4x3(a0, a1, a2, a3 any) (any, any, any) {
	o := s.Call([]any{a0, a1, a2, a3})
	return o[0], o[1], o[2]
}

func ToFunc4x3(c Func) Func4x3 {
	if c.Type().NumIn() != 4 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func4x4 interface {
	Func
	Call4x4(a0, a1, a2, a3 any) (any, any, any, any)
}

func (s shim) Call4x4(a0, a1, a2, a3 any) (any, any, any, any) {
	o := s.Call([]any{a0, a1, a2, a3})
	return o[0], o[1], o[2], o[3]
}

func ToFunc4x4(c Func) Func4x4 {
	if c.Type().NumIn() != 4 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func5x0 interface {
	Func
	Call5x0(a0, a1, a2, a3, a4 any)
}

func (s shim) Call5x0(a0, a1, a2, a3, a4 any) {
	s.Call([]any{a0, a1, a2, a3, a4})
}

func ToFunc5x0(c Func) Func5x0 {
	if c.Type().NumIn() != 5 || c.Type().NumOut() != 0 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func5x1 interface {
	Func
	Call5x1(a0, a1, a2, a3, a4 any) any
}

func (s shim) Call5x1(a0, a1, a2, a3, a4 any) any {
	o := s.Call([]any{a0, a1, a2, a3, a4})
	return o[0]
}

func ToFunc5x1(c Func) Func5x1 {
	if c.Type().NumIn() != 5 || c.Type().NumOut() != 1 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func5x2 interface {
	Func
	Call5x2(a0, a1, a2, a3, a4 any) (any, any)
}

func (s shim) Call5x2(a0, a1, a2, a3, a4 any) (any, any) {
	o := s.Call([]any{a0, a1, a2, a3, a4})
	return o[0], o[1]
}

func ToFunc5x2(c Func) Func5x2 {
	if c.Type().NumIn() != 5 || c.Type().NumOut() != 2 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func5x3 interface {
	Func
	Call5x3(a0, a1, a2, a3, a4 any) (any, any, any)
}

func (s shim) Call5x3(a0, a1, a2, a3, a4 any) (any, any, any) {
	o := s.Call([]any{a0, a1, a2, a3, a4})
	return o[0], o[1], o[2]
}

func ToFunc5x3(c Func) Func5x3 {
	if c.Type().NumIn() != 5 || c.Type().NumOut() != 3 {
		panic("incompatible func type")
	}
	return shim{c}
}

type Func5x4 interface {
	Func
	Call5x4(a0, a1, a2, a3, a4 any) (any, any, any, any)
}

func (s shim) Call5x4(a0, a1, a2, a3, a4 any) (any, any, any, any) {
	o := s.Call([]any{a0, a1, a2, a3, a4})
	return o[0], o[1], o[2], o[3]
}

func ToFunc5x4(c Func) Func5x4 {
	if c.Type().NumIn() != 5 || c.Type().NumOut() != 4 {
		panic("incompatible func type")
	}
	return shim{c}
}
