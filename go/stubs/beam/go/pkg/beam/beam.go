// Package beam stands in for Apache Beam: it runs a pipeline while it is built, in memory,
// and leaves every decision a runner may take to the harness - the order of the elements,
// how the inputs of a combination are spread over accumulators, the order in which these are
// merged, where elements and accumulators go through their coders, and which elements a
// sample keeps.
package beam

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"

	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/funcx"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/typex"
	"github.com/apache/beam/sdks/v2/go/pkg/beam/core/util/reflectx"
)

type (
	T         = typex.T
	U         = typex.U
	V         = typex.V
	W         = typex.W
	X         = typex.X
	Y         = typex.Y
	Z         = typex.Z
	FullType  = typex.FullType
	EventTime = typex.EventTime
	Window    = typex.Window
)

var (
	TType = typex.TType
	UType = typex.UType
	VType = typex.VType
	WType = typex.WType
	XType = typex.XType
	YType = typex.YType
	ZType = typex.ZType
)

// Decisions of the runner.
type Plan struct {
	Reverse bool // order of elements and of keys
	Split   int  // 0: one accumulator; 1: one per element, merged from the left; 2: from the right; 3: two halves and an empty one
	Coders  bool // elements and accumulators are encoded and decoded on their way
}

var (
	Run    Plan
	Choose = func(n int) int { panic("no decision") }
)

type EncodedType struct{ T reflect.Type }
type EncodedFunc struct{ Fn reflectx.Func }

func (w EncodedType) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprint(w.T)) }
func (w EncodedFunc) MarshalJSON() ([]byte, error) { return json.Marshal(w.Fn.Name()) }

type TypeDefinition struct {
	Var reflect.Type
	T   reflect.Type
}

type Option interface{}

type Scope struct{ name string }

func (s Scope) Scope(name string) Scope { return Scope{s.name + "/" + name} }
func (s Scope) IsValid() bool           { return true }
func (s Scope) String() string          { return s.name }

type Pipeline struct{}

func NewPipeline() *Pipeline        { return &Pipeline{} }
func (p *Pipeline) Root() Scope     { return Scope{} }
func Init()                         {}
func RegisterFunction(f any)        {}
func RegisterType(t reflect.Type)   {}
func RegisterDoFn(f any)            {}

type Elm struct {
	K, V  any
	Iters [][]any
}

type node struct {
	t    typex.FullType
	elms []Elm
}

type PCollection struct{ n *node }

func (p PCollection) IsValid() bool        { return p.n != nil }
func (p PCollection) Type() typex.FullType { return p.n.t }
func (p PCollection) String() string {
	if p.n == nil {
		return "(invalid)"
	}
	return p.n.t.String()
}

// Elements is how the harness reads a result.
func Elements(p PCollection) []Elm { return p.n.elms }

func ft(t reflect.Type) typex.FullType { return typex.New(t) }

// ---------------------------------------------------------------- coders

type coder struct{ enc, dec reflect.Value }

var coders = map[reflect.Type]coder{}

func RegisterCoder(t reflect.Type, encoder, decoder any) {
	coders[t] = coder{reflect.ValueOf(encoder), reflect.ValueOf(decoder)}
}

type ElementEncoder interface{ Encode(any, io.Writer) error }
type ElementDecoder interface{ Decode(io.Reader) (any, error) }

type elm struct{ t reflect.Type }

func NewElementEncoder(t reflect.Type) ElementEncoder {
	if t == nil {
		panic("no type to encode")
	}
	return elm{t}
}
func NewElementDecoder(t reflect.Type) ElementDecoder {
	if t == nil {
		panic("no type to decode")
	}
	return elm{t}
}

func errOf(v reflect.Value) error {
	if e, ok := v.Interface().(error); ok && e != nil {
		return e
	}
	return nil
}

func (e elm) Encode(v any, w io.Writer) error {
	if reflect.TypeOf(v) != e.t {
		panic(fmt.Sprintf("type mismatch: a value of type %T where the coder is that of %v", v, e.t))
	}
	if c, ok := coders[e.t]; ok {
		out := c.enc.Call([]reflect.Value{reflect.ValueOf(v)})
		if len(out) > 1 {
			if err := errOf(out[1]); err != nil {
				return err
			}
		}
		_, err := w.Write(out[0].Bytes())
		return err
	}
	rv := reflect.ValueOf(v)
	var b []byte
	switch e.t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b = binary.AppendVarint(nil, rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b = binary.AppendUvarint(nil, rv.Uint())
	case reflect.Float32, reflect.Float64:
		b = binary.BigEndian.AppendUint64(nil, math.Float64bits(rv.Float()))
	case reflect.String:
		b = append(binary.AppendUvarint(nil, uint64(rv.Len())), rv.String()...)
	case reflect.Bool:
		b = []byte{0}
		if rv.Bool() {
			b[0] = 1
		}
	case reflect.Slice:
		if e.t.Elem().Kind() == reflect.Uint8 {
			b = append(binary.AppendUvarint(nil, uint64(rv.Len())), rv.Bytes()...)
			break
		}
		fallthrough
	default:
		if e.t.Kind() == reflect.Struct || e.t.Kind() == reflect.Slice {
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(v); err != nil {
				return err
			}
			b = buf.Bytes()
		} else {
			j, err := json.Marshal(v)
			if err != nil {
				return err
			}
			b = j
		}
	}
	_, err := w.Write(b)
	return err
}

func (e elm) Decode(r io.Reader) (any, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if c, ok := coders[e.t]; ok {
		out := c.dec.Call([]reflect.Value{reflect.ValueOf(data)})
		if len(out) > 1 {
			if err := errOf(out[1]); err != nil {
				return nil, err
			}
		}
		return out[0].Interface(), nil
	}
	p := reflect.New(e.t)
	v := p.Elem()
	bad := fmt.Errorf("bytes %v are not those of a %v", data, e.t)
	rest := 0
	switch e.t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, n := binary.Varint(data)
		if n <= 0 || v.OverflowInt(x) {
			return nil, bad
		}
		rest = len(data) - n
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, n := binary.Uvarint(data)
		if n <= 0 || v.OverflowUint(x) {
			return nil, bad
		}
		rest = len(data) - n
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		if len(data) != 8 {
			return nil, bad
		}
		v.SetFloat(math.Float64frombits(binary.BigEndian.Uint64(data)))
	case reflect.String:
		x, n := binary.Uvarint(data)
		if n <= 0 || int(x) != len(data)-n {
			return nil, bad
		}
		v.SetString(string(data[n:]))
	case reflect.Bool:
		if len(data) != 1 {
			return nil, bad
		}
		v.SetBool(data[0] == 1)
	case reflect.Slice:
		if e.t.Elem().Kind() == reflect.Uint8 {
			x, n := binary.Uvarint(data)
			if n <= 0 || int(x) != len(data)-n {
				return nil, bad
			}
			v.SetBytes(append([]byte{}, data[n:]...))
			break
		}
		fallthrough
	default:
		if e.t.Kind() == reflect.Struct || e.t.Kind() == reflect.Slice {
			if err := gob.NewDecoder(bytes.NewReader(data)).Decode(p.Interface()); err != nil {
				return nil, err
			}
		} else if err := json.Unmarshal(data, p.Interface()); err != nil {
			return nil, err
		}
	}
	if rest != 0 {
		return nil, bad
	}
	return v.Interface(), nil
}

func roundtrip(t reflect.Type, v any) any {
	if t.Kind() == reflect.Interface {
		return v
	}
	var b bytes.Buffer
	if err := (elm{t}).Encode(v, &b); err != nil {
		panic(fmt.Sprintf("pipeline error: cannot encode %v: %v", t, err))
	}
	r, err := (elm{t}).Decode(&b)
	if err != nil {
		panic(fmt.Sprintf("pipeline error: cannot decode %v: %v", t, err))
	}
	return r
}

func keyOf(t reflect.Type, v any) string {
	var b bytes.Buffer
	if err := (elm{t}).Encode(v, &b); err != nil {
		panic(fmt.Sprintf("pipeline error: cannot encode the key: %v", err))
	}
	return b.String()
}

// pass checks that an element is of the type of its collection, and takes it through the coder.
func pass(t typex.FullType, v any) any {
	if t.Type().Kind() != reflect.Interface && reflect.TypeOf(v) != t.Type() {
		panic(fmt.Sprintf("type mismatch: an element of type %T in a collection of %v", v, t.Type()))
	}
	if Run.Coders {
		return roundtrip(t.Type(), v)
	}
	return v
}

func mk(t typex.FullType, elms []Elm) PCollection {
	out := make([]Elm, len(elms))
	for i, e := range elms {
		j := i
		if Run.Reverse {
			j = len(elms) - 1 - i
		}
		switch {
		case typex.IsKV(t):
			out[j] = Elm{K: pass(t.Components()[0], e.K), V: pass(t.Components()[1], e.V)}
		case typex.IsCoGBK(t):
			out[j] = e
		default:
			out[j] = Elm{V: pass(t, e.V)}
		}
	}
	return PCollection{&node{t, out}}
}

// ---------------------------------------------------------------- sources and simple transforms

func CreateList(s Scope, list any) PCollection {
	v := reflect.ValueOf(list)
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		panic("CreateList: not a list")
	}
	var elms []Elm
	for i := 0; i < v.Len(); i++ {
		elms = append(elms, Elm{V: v.Index(i).Interface()})
	}
	return mk(ft(v.Type().Elem()), elms)
}

// NewKV makes a collection of pairs for the harness.
func NewKV(kt, vt reflect.Type, ks, vs []any) PCollection {
	var elms []Elm
	for i := range ks {
		elms = append(elms, Elm{K: ks[i], V: vs[i]})
	}
	return mk(typex.NewKV(ft(kt), ft(vt)), elms)
}

func ValidateKVType(col PCollection) (typex.FullType, typex.FullType) {
	if !typex.IsKV(col.Type()) {
		panic(fmt.Sprintf("pcollection must be of KV type: %v", col))
	}
	return col.Type().Components()[0], col.Type().Components()[1]
}

func ValidateNonCompositeType(col PCollection) typex.FullType {
	if typex.IsKV(col.Type()) || typex.IsCoGBK(col.Type()) {
		panic("pcollection must be of non-composite type")
	}
	return col.Type()
}

func DropKey(s Scope, col PCollection) PCollection {
	_, vt := ValidateKVType(col)
	var out []Elm
	for _, e := range col.n.elms {
		out = append(out, Elm{V: e.V})
	}
	return mk(vt, out)
}

func DropValue(s Scope, col PCollection) PCollection {
	kt, _ := ValidateKVType(col)
	var out []Elm
	for _, e := range col.n.elms {
		out = append(out, Elm{V: e.K})
	}
	return mk(kt, out)
}

func SwapKV(s Scope, col PCollection) PCollection {
	kt, vt := ValidateKVType(col)
	var out []Elm
	for _, e := range col.n.elms {
		out = append(out, Elm{K: e.V, V: e.K})
	}
	return mk(typex.NewKV(vt, kt), out)
}

func AddFixedKey(s Scope, col PCollection) PCollection {
	t := ValidateNonCompositeType(col)
	var out []Elm
	for _, e := range col.n.elms {
		out = append(out, Elm{K: 0, V: e.V})
	}
	return mk(typex.NewKV(ft(reflect.TypeOf(0)), t), out)
}

func Reshuffle(s Scope, col PCollection) PCollection { return mk(col.n.t, col.n.elms) }

func same(a, b typex.FullType) bool { return a.String() == b.String() }

func Flatten(s Scope, cols ...PCollection) PCollection {
	if len(cols) == 0 {
		panic("Flatten needs at least 1 input, got 0")
	}
	var out []Elm
	for _, c := range cols {
		if !same(c.n.t, cols[0].n.t) {
			panic(fmt.Sprintf("mismatched Flatten input types: %v and %v", cols[0], c))
		}
		out = append(out, c.n.elms...)
	}
	return mk(cols[0].n.t, out)
}

type group struct {
	k     any
	elms  []Elm
	iters [][]any
}

func groups(cols ...PCollection) []*group {
	kt, _ := ValidateKVType(cols[0])
	idx := map[string]*group{}
	var order []string
	for i, c := range cols {
		t, _ := ValidateKVType(c)
		if !same(t, kt) {
			panic(fmt.Sprintf("mismatched key types: %v and %v", kt, t))
		}
		for _, e := range c.n.elms {
			h := keyOf(kt.Type(), e.K)
			g := idx[h]
			if g == nil {
				g = &group{k: e.K, iters: make([][]any, len(cols))}
				idx[h] = g
				order = append(order, h)
			}
			g.elms = append(g.elms, e)
			g.iters[i] = append(g.iters[i], e.V)
		}
	}
	sort.Strings(order)
	var out []*group
	for _, h := range order {
		out = append(out, idx[h])
	}
	return out
}

func CoGroupByKey(s Scope, cols ...PCollection) PCollection {
	var out []Elm
	for _, g := range groups(cols...) {
		out = append(out, Elm{K: g.k, Iters: g.iters})
	}
	comps := []typex.FullType{cols[0].n.t.Components()[0]}
	for _, c := range cols {
		comps = append(comps, c.n.t.Components()[1])
	}
	return mk(typex.New(typex.CoGBKType, comps...), out)
}

func GroupByKey(s Scope, col PCollection) PCollection { return CoGroupByKey(s, col) }

func XDistinct(col PCollection) PCollection {
	var out []Elm
	seen := map[string]bool{}
	for _, e := range col.n.elms {
		var h string
		if typex.IsKV(col.n.t) {
			a, b := ValidateKVType(col)
			h = fmt.Sprintf("%q %q", keyOf(a.Type(), e.K), keyOf(b.Type(), e.V))
		} else {
			h = keyOf(col.n.t.Type(), e.V)
		}
		if !seen[h] {
			seen[h] = true
			out = append(out, e)
		}
	}
	return mk(col.n.t, out)
}

func XCount(col PCollection) PCollection {
	t := ValidateNonCompositeType(col)
	var elms []Elm
	for _, e := range col.n.elms {
		elms = append(elms, Elm{K: e.V, V: 1})
	}
	return XSumPerKey(mk(typex.NewKV(t, ft(reflect.TypeOf(0))), elms))
}

func XSumPerKey(col PCollection) PCollection {
	_, vt := ValidateKVType(col)
	var out []Elm
	for _, g := range groups(col) {
		r := reflect.New(vt.Type()).Elem()
		for _, v := range g.iters[0] {
			x := reflect.ValueOf(v)
			switch vt.Type().Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				r.SetInt(r.Int() + x.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				r.SetUint(r.Uint() + x.Uint())
			case reflect.Float32, reflect.Float64:
				r.SetFloat(r.Float() + x.Float())
			default:
				panic(fmt.Sprintf("bad type to sum: %v", vt))
			}
		}
		out = append(out, Elm{K: g.k, V: r.Interface()})
	}
	return mk(col.n.t, out)
}

func XTop(col PCollection, n int, less any) PCollection {
	if n < 1 {
		panic(fmt.Sprintf("top: n must be > 0, got %d", n))
	}
	kt, vt := ValidateKVType(col)
	st := reflect.SliceOf(vt.Type())
	var out []Elm
	for _, g := range groups(col) {
		vals := g.iters[0]
		keep := make([]bool, len(vals))
		need := n
		if need > len(vals) {
			need = len(vals)
		}
		if need < len(vals) {
			// one of the subsets of that size
			var subsets []int
			for m := 0; m < 1<<len(vals); m++ {
				c := 0
				for b := m; b > 0; b &= b - 1 {
					c++
				}
				if c == need {
					subsets = append(subsets, m)
				}
			}
			m := subsets[Choose(len(subsets))]
			// which subset a decision means does not depend on the order of the elements
			idx := make([]int, len(vals))
			for i := range idx {
				idx[i] = i
			}
			sort.SliceStable(idx, func(a, b int) bool { return fmt.Sprintf("%#v", vals[idx[a]]) < fmt.Sprintf("%#v", vals[idx[b]]) })
			for i := range vals {
				keep[idx[i]] = m>>i&1 == 1
			}
		} else {
			for i := range keep {
				keep[i] = true
			}
		}
		s := reflect.MakeSlice(st, 0, need)
		for i, v := range vals {
			if keep[i] {
				s = reflect.Append(s, reflect.ValueOf(v))
			}
		}
		out = append(out, Elm{K: g.k, V: s.Interface()})
	}
	// lists reach the next step without a coder of their own: the elements have theirs
	c := Run.Coders
	Run.Coders = false
	defer func() { Run.Coders = c }()
	return mk(typex.NewKV(kt, ft(st)), out)
}

// ---------------------------------------------------------------- user functions

// clone is what a worker gets of a function: its exported fields.
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct {
			return v
		}
		p := reflect.New(v.Elem().Type())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(EncodedType{}) || v.Type() == reflect.TypeOf(EncodedFunc{}) {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				r.Field(i).Set(clone(v.Field(i)))
			}
		}
		return r
	}
	return v
}

func fail(err error) { panic(fmt.Sprintf("pipeline error: %v", err)) }

func setup(v reflect.Value) {
	if m := v.MethodByName("Setup"); m.IsValid() {
		in := []reflect.Value{}
		if m.Type().NumIn() == 1 {
			in = append(in, reflect.ValueOf(context.Background()))
		}
		for _, o := range m.Call(in) {
			if err := errOf(o); err != nil {
				fail(err)
			}
		}
	}
}

type binding map[reflect.Type]reflect.Type

func (b binding) bind(p, t reflect.Type) {
	if typex.IsUniversal(p) {
		if o, ok := b[p]; ok && o != t {
			panic(fmt.Sprintf("cannot bind %v to %v, already %v", p, t, o))
		}
		b[p] = t
		return
	}
	if p != t {
		panic(fmt.Sprintf("cannot bind a parameter of type %v to %v", p, t))
	}
}

func (b binding) real(p reflect.Type) reflect.Type {
	if typex.IsUniversal(p) {
		t, ok := b[p]
		if !ok {
			panic(fmt.Sprintf("type variable %v is not bound", p))
		}
		return t
	}
	if p.Kind() == reflect.Slice && typex.IsUniversal(p.Elem()) {
		return reflect.SliceOf(b.real(p.Elem()))
	}
	return p
}

func arg(p reflect.Type, v any) reflect.Value {
	if v == nil {
		return reflect.Zero(p)
	}
	rv := reflect.ValueOf(v)
	if p.Kind() == reflect.Slice && typex.IsUniversal(p.Elem()) {
		r := reflect.MakeSlice(p, rv.Len(), rv.Len())
		for i := 0; i < rv.Len(); i++ {
			r.Index(i).Set(rv.Index(i).Convert(p.Elem()))
		}
		return r
	}
	return rv.Convert(p)
}

func val(v reflect.Value) any {
	if v.Kind() == reflect.Interface && v.IsNil() {
		return nil
	}
	return v.Interface()
}

func process(dofn any) reflect.Value {
	v := reflect.ValueOf(dofn)
	if v.Kind() == reflect.Func {
		return v
	}
	v = clone(v)
	setup(v)
	m := v.MethodByName("ProcessElement")
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no ProcessElement", dofn))
	}
	return m
}

func bindIn(b binding, p, t reflect.Type) {
	if p.Kind() == reflect.Slice && typex.IsUniversal(p.Elem()) {
		if t.Kind() != reflect.Slice {
			panic(fmt.Sprintf("cannot bind %v to %v", p, t))
		}
		b.bind(p.Elem(), t.Elem())
		return
	}
	b.bind(p, t)
}

func run(dofn any, col PCollection, outputs bool, opts []Option) PCollection {
	f := process(dofn)
	t := f.Type()
	b := binding{}
	for _, o := range opts {
		d, ok := o.(TypeDefinition)
		if !ok {
			panic("only type definitions are known")
		}
		if !typex.IsUniversal(d.Var) || d.T == nil {
			panic(fmt.Sprintf("bad type definition: %v", d))
		}
		b[d.Var] = d.T
	}
	i := 0
	ctx := t.NumIn() > 0 && t.In(0) == funcx.ContextType
	if ctx {
		i++
	}
	// main input
	comps := []typex.FullType{col.n.t}
	kv, co := typex.IsKV(col.n.t), typex.IsCoGBK(col.n.t)
	if kv || co {
		comps = col.n.t.Components()
	}
	first := i
	for n, c := range comps {
		if i >= t.NumIn() {
			panic(fmt.Sprintf("%v takes too few inputs for %v", t, col))
		}
		p := t.In(i)
		if co && n > 0 {
			if !funcx.IsIter(p) || p.NumIn() != 1 {
				panic(fmt.Sprintf("%v: parameter %d is not an iterator", t, i))
			}
			bindIn(b, p.In(0).Elem(), c.Type())
		} else {
			bindIn(b, p, c.Type())
		}
		i++
	}
	// emitters
	var emits []reflect.Type
	for ; i < t.NumIn(); i++ {
		if !funcx.IsEmit(t.In(i)) {
			panic(fmt.Sprintf("%v: unexpected parameter %d", t, i))
		}
		emits = append(emits, t.In(i))
	}
	if len(emits) > 1 {
		panic("several outputs")
	}
	// outputs
	nret := t.NumOut()
	hasErr := nret > 0 && t.Out(nret-1) == funcx.ErrorType
	if hasErr {
		nret--
	}
	var outT []reflect.Type
	for j := 0; j < nret; j++ {
		outT = append(outT, b.real(t.Out(j)))
	}
	if len(emits) == 1 {
		if nret > 0 {
			panic("both an emitter and a result")
		}
		for j := 0; j < emits[0].NumIn(); j++ {
			outT = append(outT, b.real(emits[0].In(j)))
		}
	}
	if !outputs {
		if len(outT) > 0 {
			panic("ParDo0 with outputs")
		}
	} else if len(outT) != 1 && len(outT) != 2 {
		panic(fmt.Sprintf("%v: %d outputs", t, len(outT)))
	}
	var out []Elm
	add := func(vs []reflect.Value) {
		if len(vs) == 2 {
			out = append(out, Elm{K: val(vs[0]), V: val(vs[1])})
		} else {
			out = append(out, Elm{V: val(vs[0])})
		}
	}
	for _, e := range col.n.elms {
		var in []reflect.Value
		if ctx {
			in = append(in, reflect.ValueOf(context.Background()))
		}
		at := first
		if kv || co {
			in = append(in, arg(t.In(at), e.K))
			at++
		}
		if co {
			for _, it := range e.Iters {
				items := it
				if Run.Reverse {
					items = nil
					for k := len(it) - 1; k >= 0; k-- {
						items = append(items, it[k])
					}
				}
				pos := 0
				ft := t.In(at)
				in = append(in, reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
					if pos >= len(items) {
						return []reflect.Value{reflect.ValueOf(false)}
					}
					a[0].Elem().Set(arg(ft.In(0).Elem(), items[pos]))
					pos++
					return []reflect.Value{reflect.ValueOf(true)}
				}))
				at++
			}
		} else {
			in = append(in, arg(t.In(at), e.V))
		}
		for _, em := range emits {
			in = append(in, reflect.MakeFunc(em, func(a []reflect.Value) []reflect.Value {
				add(a)
				return nil
			}))
		}
		r := f.Call(in)
		if hasErr {
			if err := errOf(r[len(r)-1]); err != nil {
				fail(err)
			}
			r = r[:len(r)-1]
		}
		if nret > 0 {
			add(r)
		}
	}
	if !outputs {
		return PCollection{}
	}
	if len(outT) == 2 {
		return mk(typex.NewKV(ft(outT[0]), ft(outT[1])), out)
	}
	return mk(ft(outT[0]), out)
}

func ParDo(s Scope, dofn any, col PCollection, opts ...Option) PCollection {
	if !col.IsValid() {
		panic("invalid PCollection")
	}
	return run(dofn, col, true, opts)
}

func ParDo0(s Scope, dofn any, col PCollection, opts ...Option) { run(dofn, col, false, opts) }

type combiner struct {
	fn              reflect.Value
	b               binding
	accT            reflect.Type
	create, add     reflect.Value
	merge, extract  reflect.Value
}

func call(f reflect.Value, args ...any) any {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = arg(f.Type().In(i), a)
	}
	out := f.Call(in)
	if len(out) == 2 {
		if err := errOf(out[1]); err != nil {
			fail(err)
		}
	}
	return val(out[0])
}

func (c *combiner) ship(a any) any {
	if Run.Coders {
		return roundtrip(c.accT, a)
	}
	return a
}

func (c *combiner) acc(vals []any) any {
	a := call(c.create)
	for _, v := range vals {
		a = call(c.add, a, v)
	}
	return c.ship(a)
}

func (c *combiner) combine(vals []any) any {
	if Run.Reverse {
		var r []any
		for i := len(vals) - 1; i >= 0; i-- {
			r = append(r, vals[i])
		}
		vals = r
	}
	var a any
	switch Run.Split {
	case 0:
		a = c.acc(vals)
	case 1:
		a = call(c.create)
		for _, v := range vals {
			a = c.ship(call(c.merge, a, c.acc([]any{v})))
		}
	case 2:
		a = c.acc(nil)
		for i := len(vals) - 1; i >= 0; i-- {
			a = c.ship(call(c.merge, c.acc([]any{vals[i]}), a))
		}
	case 3:
		h := len(vals) / 2
		a = c.ship(call(c.merge, c.acc(vals[:h]), c.acc(vals[h:])))
		a = c.ship(call(c.merge, a, c.acc(nil)))
	}
	if c.extract.IsValid() {
		return call(c.extract, a)
	}
	return a
}

// CombinePerKey runs as on several workers: the one that extracts the output has a function
// of its own, that did not see the inputs.
func CombinePerKey(s Scope, fn any, col PCollection, opts ...Option) PCollection {
	kt, vt := ValidateKVType(col)
	worker := func() *combiner {
		f := clone(reflect.ValueOf(fn))
		setup(f)
		c := &combiner{fn: f, b: binding{}, create: f.MethodByName("CreateAccumulator"), add: f.MethodByName("AddInput"),
			merge: f.MethodByName("MergeAccumulators"), extract: f.MethodByName("ExtractOutput")}
		c.accT = c.create.Type().Out(0)
		return c
	}
	c := worker()
	p := c.add.Type().In(1)
	bindIn(c.b, p, vt.Type())
	outT := c.accT
	if c.extract.IsValid() {
		outT = c.b.real(c.extract.Type().Out(0))
	}
	var out []Elm
	for _, g := range groups(col) {
		if Run.Split > 0 {
			c.extract = worker().extract
		}
		out = append(out, Elm{K: g.k, V: c.combine(g.iters[0])})
	}
	return mk(typex.NewKV(kt, ft(outT)), out)
}

func Combine(s Scope, fn any, col PCollection, opts ...Option) PCollection {
	return DropKey(s, CombinePerKey(s, fn, AddFixedKey(s, col)))
}
