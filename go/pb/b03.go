package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/apache/beam/sdks/v2/go/pkg/beam"
	"github.com/google/differential-privacy/privacy-on-beam/v3/pbeam"
)

// row is a record of the model: its privacy identifier, its key (pairs only) and its value.
type row struct {
	id   int64
	k    string
	v    int64
	pair bool
}

// step is a function given to ParDo, or DropKey / DropValue.
type step struct {
	name                string
	emit, kvIn, kvOut   bool
	hasErr, hasCtx      bool
	drop                string
	salt                int64 // tells functions of the same shape apart
}

func shapes() []step {
	var out []step
	for m := 0; m < 32; m++ {
		s := step{emit: m&1 > 0, kvIn: m&2 > 0, kvOut: m&4 > 0, hasErr: m&8 > 0, hasCtx: m&16 > 0, salt: int64(m % 5)}
		s.name = fmt.Sprintf("func(ctx:%t pair:%t) (emit:%t pair:%t err:%t)", s.hasCtx, s.kvIn, s.emit, s.kvOut, s.hasErr)
		out = append(out, s)
	}
	return append(out, step{name: "DropKey", kvIn: true, drop: "key"}, step{name: "DropValue", kvIn: true, drop: "value"})
}

type out1 struct {
	k string
	v int64
}

// apply is what the function computes: one or several outputs for an input.
func (s step) apply(k string, v int64) []out1 {
	x := v*3 + s.salt + int64(len(k))
	base := out1{fmt.Sprintf("%s%d", k, (v+s.salt)%3), x % 17}
	if !s.emit {
		return []out1{base}
	}
	switch v % 3 {
	case 0:
		return nil
	case 1, -1:
		return []out1{base}
	}
	return []out1{base, {base.k + "x", base.v + 1}}
}

// function builds the Go function of the shape.
func (s step) function(fail bool) any {
	ti, ts := reflect.TypeOf(int64(0)), reflect.TypeOf("")
	var in, out []reflect.Type
	if s.hasCtx {
		in = append(in, reflect.TypeOf((*context.Context)(nil)).Elem())
	}
	if s.kvIn {
		in = append(in, ts)
	}
	in = append(in, ti)
	var res []reflect.Type
	if s.kvOut {
		res = append(res, ts)
	}
	res = append(res, ti)
	if s.emit {
		in = append(in, reflect.FuncOf(res, nil, false))
	} else {
		out = append(out, res...)
	}
	et := reflect.TypeOf((*error)(nil)).Elem()
	if s.hasErr {
		out = append(out, et)
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		i := 0
		if s.hasCtx {
			i++
		}
		k := ""
		if s.kvIn {
			k = args[i].String()
			i++
		}
		v := args[i].Int()
		i++
		vals := func(o out1) []reflect.Value {
			var r []reflect.Value
			if s.kvOut {
				r = append(r, reflect.ValueOf(o.k))
			}
			return append(r, reflect.ValueOf(o.v))
		}
		var ret []reflect.Value
		for _, o := range s.apply(k, v) {
			if s.emit {
				args[i].Call(vals(o))
			} else {
				ret = vals(o)
			}
		}
		if s.hasErr {
			e := reflect.Zero(et)
			if fail {
				e = reflect.ValueOf(errors.New("refused record")).Convert(et)
			}
			ret = append(ret, e)
		}
		return ret
	}).Interface()
}

// state of a collection in a chain.
const (
	ints = iota
	pairs
	strs
)

func (s step) next(st int) (int, bool) {
	if s.kvIn != (st == pairs) || st == strs {
		return 0, false
	}
	switch s.drop {
	case "key":
		return ints, true
	case "value":
		return strs, true
	}
	if s.kvOut {
		return pairs, true
	}
	return ints, true
}

func (s step) model(in []row) []row {
	var out []row
	for _, r := range in {
		switch s.drop {
		case "key":
			out = append(out, row{id: r.id, v: r.v})
		case "value":
			out = append(out, row{id: r.id, k: r.k})
		default:
			for _, o := range s.apply(r.k, r.v) {
				x := row{id: r.id, v: o.v, pair: s.kvOut}
				if s.kvOut {
					x.k = o.k
				}
				out = append(out, x)
			}
		}
	}
	return out
}

func (s step) real(sc beam.Scope, p pbeam.PrivatePCollection) pbeam.PrivatePCollection {
	switch s.drop {
	case "key":
		return pbeam.DropKey(sc, p)
	case "value":
		return pbeam.DropValue(sc, p)
	}
	return pbeam.ParDo(sc, s.function(false), p)
}

var parDoRows = []row{{id: 1, v: 1}, {id: 1, v: 2}, {id: 1, v: 2}, {id: 2, v: 2}, {id: 2, v: 3}, {id: 3, v: 5}, {id: 3, v: -4}, {id: 4, v: 8}}

// lookAt observes a private collection through its aggregations, without noise: which records
// belong to the same privacy identifier shows in the clamped sums and the counts of identifiers.
func lookAt(sc beam.Scope, p func() pbeam.PrivatePCollection, st int) string {
	var out []string
	add := func(f func() beam.PCollection) {
		defer func() {
			if r := recover(); r != nil {
				out = append(out, fmt.Sprint("panic: ", r))
			}
		}()
		out = append(out, render(beam.Elements(f()), true))
	}
	sel := pbeam.PartitionSelectionParams{}
	if st == pairs {
		for _, b := range [][2]float64{{-1000, 1000}, {0, 6}, {-5, 10}} {
			add(func() beam.PCollection {
				return pbeam.SumPerKey(sc, p(), pbeam.SumParams{MaxPartitionsContributed: 20, MinValue: b[0], MaxValue: b[1], PartitionSelectionParams: sel})
			})
		}
		return strings.Join(out, " | ")
	}
	for _, m := range []int64{1, 2, 100} {
		add(func() beam.PCollection {
			return pbeam.Count(sc, p(), pbeam.CountParams{MaxPartitionsContributed: 20, MaxValue: m, PartitionSelectionParams: sel})
		})
	}
	return strings.Join(out, " | ")
}

func clamp(x, lo, hi int64) int64 {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func lookModel(rows []row, st int) string {
	var out []string
	per := map[string]map[int64]int64{}
	for _, r := range rows {
		k, v := r.k, r.v
		if st == ints {
			k, v = fmt.Sprint(r.v), 1
		} else if st == strs {
			v = 1
		}
		if per[k] == nil {
			per[k] = map[int64]int64{}
		}
		per[k][r.id] += v
	}
	bounds := [][2]int64{{-1000, 1000}, {0, 6}, {-5, 10}}
	if st != pairs {
		bounds = [][2]int64{{0, 1}, {0, 2}, {0, 100}}
	}
	for _, b := range bounds {
		var o []string
		for k, m := range per {
			var t int64
			for _, v := range m {
				t += clamp(v, b[0], b[1])
			}
			o = append(o, fmt.Sprintf("%s=%d", k, t))
		}
		sort.Strings(o)
		out = append(out, strings.Join(o, " "))
	}
	return strings.Join(out, " | ")
}

func testSpec() *pbeam.PrivacySpec {
	s, err := pbeam.NewPrivacySpec(pbeam.PrivacySpecParams{AggregationEpsilon: 1, PartitionSelectionEpsilon: 1, PartitionSelectionDelta: 0.5, TestMode: pbeam.TestModeWithContributionBounding})
	if err != nil {
		panic(err)
	}
	return s
}

func makeInts(sc beam.Scope, rows []row) pbeam.PrivatePCollection {
	var ks, vs []any
	for _, r := range rows {
		ks = append(ks, r.id)
		vs = append(vs, r.v)
	}
	return pbeam.MakePrivate(sc, beam.NewKV(reflect.TypeOf(int64(0)), reflect.TypeOf(int64(0)), ks, vs), testSpec())
}

func chain(c *Ctx, seq []step, st int, pls []beam.Plan) {
	rows := parDoRows
	var names []string
	for _, s := range seq {
		rows = s.model(rows)
		names = append(names, s.name)
	}
	want := lookModel(rows, st)
	for _, pl := range pls {
		beam.Run = pl
		var got string
		func() {
			defer func() {
				if r := recover(); r != nil {
					got = fmt.Sprint("panic: ", r)
				}
			}()
			sc := beam.NewPipeline().Root()
			got = lookAt(sc, func() pbeam.PrivatePCollection {
				p := makeInts(sc, parDoRows)
				for _, s := range seq {
					p = s.real(sc, p)
				}
				return p
			}, st)
		}()
		c.Transitions += len(seq)
		c.Evals++
		c.StateS(got)
		if got != want {
			c.Fail("chain "+names[len(names)-1], "records %v through %s under %+v: aggregations show %q, must show %q", parDoRows, strings.Join(names, " -> "), pl, got, want)
			return
		}
	}
	c.Trace(strings.Join(names, " -> "))
}

func init() {
	lists["B03"] = func(tier string) []map[string]any {
		var out []map[string]any
		for i, s := range shapes() {
			if !s.kvIn {
				out = append(out, map[string]any{"kind": "chain", "first": float64(i), "tier": tier})
			}
		}
		for _, k := range []string{"errors", "signatures", "structs"} {
			out = append(out, map[string]any{"kind": k, "first": 0.0, "tier": tier})
		}
		return out
	}
	explorers["B03"] = func(c *Ctx, cs map[string]any) {
		beam.Choose = func(n int) int { return 0 }
		setDraws(Conf{})
		quick := cs["tier"].(string) == "quick"
		switch cs["kind"].(string) {
		case "chain":
			sh := shapes()
			depth := 3
			pls := []beam.Plan{{}, {Reverse: true, Split: 1, Coders: true}}
			if quick {
				pls = pls[1:]
			} else {
				depth = 4
			}
			var rec func(seq []step, st int)
			rec = func(seq []step, st int) {
				chain(c, seq, st, pls)
				if len(seq) == depth {
					return
				}
				for i, s := range sh {
					if n, ok := s.next(st); ok {
						if depth == 4 && len(seq) >= 2 && i%3 != 0 && s.drop == "" {
							continue
						}
						rec(append(append([]step{}, seq...), s), n)
					}
				}
			}
			s := sh[int(cs["first"].(float64))]
			n, _ := s.next(ints)
			rec([]step{s}, n)
		case "errors":
			parDoErrors(c)
		case "signatures":
			signatures(c, quick)
		case "structs":
			structs(c)
		}
	}
}

// parDoErrors: an error of the function is an error of the pipeline.
func parDoErrors(c *Ctx) {
	for _, s := range shapes() {
		if !s.hasErr || s.drop != "" {
			continue
		}
		msg := "no error"
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprint(r)
				}
			}()
			sc := beam.NewPipeline().Root()
			p := makeInts(sc, parDoRows)
			if s.kvIn {
				p = pbeam.ParDo(sc, func(v int64) (string, int64) { return "k", v }, p)
			}
			pbeam.ParDo(sc, s.function(true), p)
		}()
		c.Transitions++
		c.StateS(s.name)
		c.Check(strings.Contains(msg, "refused record"), "error "+s.name, "%s returns an error for a record; the pipeline goes on: %s", s.name, msg)
		c.Trace(s.name + ": " + msg)
	}
}

// signatures: of all the signatures with up to a number of parameters and results, ParDo takes
// exactly the documented ones.
func signatures(c *Ctx, quick bool) {
	ti, ts := reflect.TypeOf(int64(0)), reflect.TypeOf("")
	ctx := reflect.TypeOf((*context.Context)(nil)).Elem()
	et := reflect.TypeOf((*error)(nil)).Elem()
	ev := reflect.TypeOf(beam.EventTime(0))
	bt := reflect.TypeOf((*beam.T)(nil)).Elem()
	emit1, emit2 := reflect.TypeOf(func(int64) {}), reflect.TypeOf(func(string, int64) {})
	emitT := reflect.FuncOf([]reflect.Type{bt}, nil, false)
	emit3 := reflect.TypeOf(func(string, int64, int64) {})
	iter := reflect.TypeOf(func(*int64) bool { return false })
	reiter := reflect.TypeOf(func() func(*int64) bool { return nil })
	ch := reflect.TypeOf(make(chan int))
	ins := []reflect.Type{ctx, ti, ts, emit1, emit2, emitT, emit3, iter, reiter, ev, bt, ch, et}
	outs := []reflect.Type{ti, ts, et, ev, bt, ch, ctx}
	var tuples func(al []reflect.Type, n int) [][]reflect.Type
	tuples = func(al []reflect.Type, n int) [][]reflect.Type {
		res := [][]reflect.Type{{}}
		level := res
		for i := 0; i < n; i++ {
			var next [][]reflect.Type
			for _, t := range level {
				for _, a := range al {
					next = append(next, append(append([]reflect.Type{}, t...), a))
				}
			}
			res = append(res, next...)
			level = next
		}
		return res
	}
	nin, nout := 4, 3
	if quick {
		ins = []reflect.Type{ctx, ti, ts, emit1, emit2, emitT, emit3, iter, ev, bt}
		outs = []reflect.Type{ti, ts, et, ev, bt}
	}
	isVal := func(t reflect.Type) bool { return t == ti || t == ts }
	documented := func(in, out []reflect.Type) (kvIn bool, ok bool) {
		i := 0
		if i < len(in) && in[i] == ctx {
			i++
		}
		n := 0
		for i < len(in) && isVal(in[i]) {
			i++
			n++
		}
		if n < 1 || n > 2 {
			return false, false
		}
		emits := i < len(in) && (in[i] == emit1 || in[i] == emit2)
		if emits {
			i++
		}
		if i < len(in) {
			return false, false
		}
		j, m := 0, 0
		for j < len(out) && isVal(out[j]) {
			j++
			m++
		}
		if j < len(out) && out[j] == et {
			j++
		}
		if j < len(out) || emits && m > 0 || !emits && (m < 1 || m > 2) {
			return false, false
		}
		return n == 2, true
	}
	outTuples := tuples(outs, nout)
	for _, in := range tuples(ins, nin) {
		for _, out := range outTuples {
			if len(in)+len(out) > 5 {
				continue
			}
			kvIn, want := documented(in, out)
			f := reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
				var r []reflect.Value
				for _, t := range out {
					r = append(r, reflect.Zero(t))
				}
				return r
			}).Interface()
			msg := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						msg = fmt.Sprint(r)
					}
				}()
				sc := beam.NewPipeline().Root()
				var p pbeam.PrivatePCollection
				vt := ti
				vals := 0
				for _, t := range in {
					if isVal(t) {
						vt = t
						vals++
					}
				}
				first := ti
				for _, t := range in {
					if isVal(t) {
						first = t
						break
					}
				}
				p = pbeam.MakePrivate(sc, beam.NewKV(ti, vt, nil, nil), testSpec())
				if vals == 2 || kvIn {
					g := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{vt}, []reflect.Type{first, vt}, false), func(args []reflect.Value) []reflect.Value {
						return []reflect.Value{reflect.Zero(first), reflect.Zero(vt)}
					}).Interface()
					p = pbeam.ParDo(sc, g, p)
				}
				pbeam.ParDo(sc, f, p)
			}()
			c.Transitions++
			c.Evals++
			c.State("%t %t", want, msg == "")
			if want && msg != "" {
				c.Fail("signature", "ParDo refuses the documented signature %T: %s", f, msg)
			}
			if !want && msg == "" {
				c.Fail("signature taken", "ParDo takes the signature %T, which it cannot handle", f)
			}
		}
	}
	c.Trace("all signatures")
}

type deep struct {
	Name string
	Num  *int64
}

type visitor struct {
	ID    int64
	SID   string
	Ptr   *int64
	In    deep
	InP   *deep
	List  []int64
	Map   map[string]int64
	Val   int64
	F     float64
	B     bool
}

// structs: the identifier of a record is the field the path names.
func structs(c *Ctx) {
	one, two, zero := int64(1), int64(2), int64(0)
	all := []visitor{
		{ID: 1, SID: "x", Ptr: &one, In: deep{"p", &two}, InP: &deep{"p", &one}, Val: 1, F: 1.5, B: true},
		{ID: 1, SID: "1", Ptr: &two, In: deep{"q", &zero}, InP: nil, Val: 2, F: 1.5},
		{ID: 2, SID: "x", Ptr: nil, In: deep{"p", nil}, InP: &deep{"", nil}, Val: 4, F: 2, B: true},
		{ID: 0, SID: "", Ptr: &zero, In: deep{"", nil}, InP: &deep{"p", &two}, Val: 8, F: 0},
		{ID: -1, SID: "0", Ptr: &one, In: deep{"q", &two}, InP: &deep{"q", &zero}, Val: 16, F: -2},
	}
	num := func(p *int64) int64 {
		if p == nil {
			return 0
		}
		return *p
	}
	paths := map[string]func(v visitor) any{
		"ID": func(v visitor) any { return v.ID }, "SID": func(v visitor) any { return v.SID }, "Ptr": func(v visitor) any { return num(v.Ptr) },
		"In.Name": func(v visitor) any { return v.In.Name }, "In.Num": func(v visitor) any { return num(v.In.Num) },
		"InP.Name": func(v visitor) any {
			if v.InP == nil {
				return ""
			}
			return v.InP.Name
		},
		"InP.Num": func(v visitor) any {
			if v.InP == nil {
				return int64(0)
			}
			return num(v.InP.Num)
		},
		"F": func(v visitor) any { return v.F }, "B": func(v visitor) any { return v.B },
		"": nil, "Nope": nil, "In": nil, "InP": nil, "List": nil, "Map": nil, "ID.X": nil, "In.Nope": nil, "In.Num.X": nil, ".ID": nil, "ID.": nil, "id": nil,
	}
	for path, idOf := range paths {
		for m := 1; m < 1<<len(all); m++ {
			var recs []visitor
			var rows []row
			ids := map[any]int64{}
			for i, v := range all {
				if m>>i&1 == 0 {
					continue
				}
				recs = append(recs, v)
				if idOf != nil {
					x := idOf(v)
					if _, ok := ids[x]; !ok {
						ids[x] = int64(len(ids) + 1)
					}
					rows = append(rows, row{id: ids[x], k: "k", v: v.Val, pair: true})
				}
			}
			got := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						got = fmt.Sprint("panic: ", r)
					}
				}()
				sc := beam.NewPipeline().Root()
				got = lookAt(sc, func() pbeam.PrivatePCollection {
					p := pbeam.MakePrivateFromStruct(sc, beam.CreateList(sc, recs), testSpec(), path)
					return pbeam.ParDo(sc, func(v visitor) (string, int64) { return "k", v.Val }, p)
				}, pairs)
			}()
			c.Transitions++
			c.StateS(path + got)
			if idOf == nil {
				c.Check(strings.Contains(got, "panic: "), "struct path", "MakePrivateFromStruct takes the path %q: %s", path, got)
				continue
			}
			if want := lookModel(rows, pairs); got != want {
				c.Fail("struct path", "MakePrivateFromStruct by %q on records %+v: sums %q, must be %q", path, recs, got, want)
			}
			c.Evals++
		}
		c.Trace("path " + path)
	}
}
