package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Histories of aggregations: every sequence of operations up to a depth over four objects
// (two alike, one with other parameters, one deserialized), compared with a model.

const (
	sDefault = iota
	sMerged
	sSerialized
	sReturned
)

type model struct {
	state int
	adds  []int
	p     params
}

type op struct {
	name string
	kind string
	i, j int
	k    int
}

func opsFor(k *kind) []op {
	n := []string{"A", "B", "C", "D"}
	var o []op
	add := func(i, v int) { o = append(o, op{fmt.Sprintf("add(%s,#%d)", n[i], v), "add", i, 0, v}) }
	add(0, 0)
	add(0, 1)
	add(0, 2)
	add(1, 1)
	if k.nAdd > 3 {
		add(1, 3)
	}
	add(2, 0)
	add(3, 0)
	mg := func(i, j int) { o = append(o, op{fmt.Sprintf("merge(%s,%s)", n[i], n[j]), "merge", i, j, 0}) }
	mg(0, 1)
	mg(1, 0)
	mg(0, 2)
	mg(0, 3)
	mg(3, 1)
	for _, i := range []int{0, 1, 3} {
		o = append(o, op{fmt.Sprintf("copy(%s->D)", n[i]), "enc", i, 3, 0})
	}
	for _, i := range []int{0, 1, 3} {
		o = append(o, op{fmt.Sprintf("result(%s)", n[i]), "res", i, 0, 0})
	}
	for m := 1; m < k.modes; m++ {
		if k.name == "partition selection" && m > 2 {
			break
		}
		o = append(o, op{fmt.Sprintf("result%d(A)", m), "res", 0, 0, m})
	}
	o = append(o, op{"interval(A)", "ci", 0, 0, 0})
	return o
}

type world struct {
	c    *Ctx
	k    *kind
	objs [4]obj
	ms   [4]*model
	hist []string
	base params
}

func (w *world) key() string { return w.k.name + ": " + strings.Join(w.hist, " ") }

func newWorld(c *Ctx, k *kind, p params, other func(*params)) *world {
	w := &world{c: c, k: k, base: p}
	for i := 0; i < 3; i++ {
		q := p
		if i == 2 {
			other(&q)
		}
		o, err := k.mk(q)
		if err != nil {
			c.Fail(k.name+": new", "constructor refused valid parameters: %v", err)
			return nil
		}
		w.objs[i], w.ms[i] = o, &model{p: q}
	}
	return w
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > 1e-9 {
			return false
		}
	}
	return true
}

func compatible(a, b *model) bool { return a.p == b.p }

// step runs one operation on the real objects and the model; false: stop.
func (w *world) step(o op) bool {
	c := w.c
	if o.i == 3 && w.objs[3] == nil || o.kind == "merge" && o.j == 3 && w.objs[3] == nil {
		return true
	}
	w.hist = append(w.hist, o.name)
	c.Transitions++
	x, m := w.objs[o.i], w.ms[o.i]
	switch o.kind {
	case "add":
		err := x.Add(o.k)
		if !c.Check((err == nil) == (m.state == sDefault), w.key(), "add in state %d: error %v", m.state, err) {
			return false
		}
		if err == nil {
			m.adds = append(append([]int{}, m.adds...), o.k)
		}
	case "merge":
		m2 := w.ms[o.j]
		err := x.Merge(w.objs[o.j])
		ok := m.state == sDefault && m2.state == sDefault && compatible(m, m2)
		if !c.Check((err == nil) == ok, w.key(), "merge in states %d, %d, compatible %v: error %v", m.state, m2.state, compatible(m, m2), err) {
			return false
		}
		if ok {
			m.adds = append(append([]int{}, m.adds...), m2.adds...)
			m2.state = sMerged
		}
	case "enc":
		b, err := x.Encode()
		ok := m.state == sDefault || m.state == sSerialized
		if !c.Check((err == nil) == ok, w.key(), "serialization in state %d: error %v", m.state, err) {
			return false
		}
		if ok {
			d, err := x.Decode(b)
			if !c.Check(err == nil, w.key(), "deserialization: %v", err) {
				return false
			}
			m.state = sSerialized
			w.objs[3], w.ms[3] = d, &model{sDefault, m.adds, m.p}
		}
	case "res":
		return w.result(o.i, o.k)
	case "ci":
		if w.k.name != "variance" && w.k.name != "standard deviation" && w.k.name != "quantiles" && w.k.name != "partition selection" {
			err := x.CI()
			return c.Check((err == nil) == (m.state == sReturned), w.key(), "confidence interval in state %d: error %v", m.state, err)
		}
	}
	return true
}

func (w *world) result(i, mode int) bool {
	c := w.c
	x, m := w.objs[i], w.ms[i]
	rec := &recorder{}
	s, err := x.Result(rec, mode)
	ok := m.state == sDefault || w.k.multi && m.state == sReturned
	if !c.Check((err == nil) == ok, w.key(), "result in state %d: error %v, result %q", m.state, err, s) {
		return false
	}
	if !ok {
		return c.Check(len(rec.calls) == 0, w.key(), "a refused request still releases %v", rec.calls)
	}
	calls, want := expected(w.k, m.p, m.adds, mode)
	var got []float64
	for _, q := range rec.calls {
		got = append(got, q.x)
	}
	sort.Float64s(got)
	if calls != nil && !c.Check(sameFloats(got, calls), w.key(), "values handed to the noise %v, contributions %v give %v", rec.calls, m.adds, calls) {
		return false
	}
	if m.state == sReturned && !c.Check(len(rec.calls) == 0, w.key(), "asking again draws noise again: %v", rec.calls) {
		return false
	}
	m.state = sReturned
	return c.Check(s == want, w.key(), "result %q, contributions %v give %q", s, m.adds, want)
}

func (w *world) stateString() string {
	s := w.k.name
	for _, m := range w.ms {
		if m != nil {
			a := append([]int{}, m.adds...)
			sort.Ints(a)
			s += fmt.Sprintf("|%d%v", m.state, a)
		} else {
			s += "|-"
		}
	}
	return s
}

func baseFor(k *kind) params {
	p := base()
	if k.name == "partition selection" {
		p.del = 0.05
		p.pre = 2
	}
	return p
}

func runHistories(c *Ctx, k *kind, p params, other func(*params), ops []op, depth int, first int) {
	seq := make([]int, depth)
	seq[0] = first
	for {
		w := newWorld(c, k, p, other)
		if w == nil {
			return
		}
		c.guard(k.name+": history", func() {
			good := true
			for _, i := range seq {
				if !w.step(ops[i]) {
					good = false
					break
				}
				c.StateS(w.stateString())
			}
			if good {
				for i := 0; i < 4; i++ {
					if w.objs[i] != nil {
						w.hist = append(w.hist, fmt.Sprintf("result(%s)", string(rune('A'+i))))
						mode := 0
						if k.name == "partition selection" {
							mode = 4
						}
						if !w.result(i, mode) {
							break
						}
					}
				}
			}
			if w.c.nfails[k.name+": history"] > 0 {
				w.c.Fail(w.key(), "panic in this history")
			}
		})
		c.Trace(w.key())
		j := depth - 1
		for ; j > 0; j-- {
			seq[j]++
			if seq[j] < len(ops) {
				break
			}
			seq[j] = 0
		}
		if j == 0 || len(c.Fails) > 20 {
			return
		}
	}
}

func init() {
	lists["G01"] = func(tier string) (out []map[string]any) {
		depth := 4
		if tier != "quick" {
			depth = 5
		}
		for i := range kinds {
			n := len(opsFor(&kinds[i]))
			for a := 0; a < n; a++ {
				out = append(out, map[string]any{"kind": i, "first": a, "depth": depth})
			}
			out = append(out, map[string]any{"kind": i, "diffs": true})
			out = append(out, map[string]any{"kind": i, "diffs": true, "pairs": true})
		}
		return
	}
	explorers["G01"] = func(c *Ctx, cs map[string]any) {
		zeroNoise()
		k := &kinds[int(cs["kind"].(float64))]
		p := baseFor(k)
		ops := opsFor(k)
		if cs["diffs"] == nil {
			other := k.diffs[0]
			runHistories(c, k, p, other, ops, int(cs["depth"].(float64)), int(cs["first"].(float64)))
			return
		}
		if cs["pairs"] != nil {
			pairs(c, k)
			return
		}
		// every single difference of parameters, with every short history, from two starting points
		start2 := p
		start2.l0, start2.lower, start2.linf = 2, 1, 2 // (partition selection stays below its Gaussian branch)
		// two differences at once, and bounds of the same magnitude or width: never compatible
		all := append(append([]func(*params){}, k.diffs...), dMirror, dSwap, dZero)
		for _, start := range []params{p, start2} {
			for i := range all {
				for j := 0; j <= i; j++ {
					q := start
					if all[i](&q); j < i {
						all[j](&q)
					}
					if !k.bounded && (i >= len(k.diffs) || j >= len(k.diffs)) || q == start {
						continue
					}
					for n := 0; n < 3; n++ {
						a, err1 := k.mk(start)
						b, err2 := k.mk(q)
						key := fmt.Sprintf("%s: %+v merges %+v after %d", k.name, start, q, n)
						c.Transitions++
						if err1 != nil || err2 != nil {
							continue
						}
						if n&1 != 0 {
							a.Add(0)
						}
						if n&2 != 0 {
							b.Add(0)
						}
						c.Check(a.Merge(b) != nil, k.name+": merge of different parameters", "%s", key)
						c.Check(b.Merge(a) != nil, k.name+": merge of different parameters", "%s, the other way round", key)
						c.StateS(key)
					}
				}
			}
			for _, d := range k.diffs {
				for a := range ops {
					runHistories(c, k, start, d, ops, 2, a)
				}
			}
		}
	}
}

// pairs: every ordered pair of a grid of parameters merges if and only if the two are alike.
func pairs(c *Ctx, k *kind) {
	var grids [][]params
	var g []params
	contributions := k.name == "mean" || k.name == "variance" || k.name == "standard deviation" || k.name == "quantiles"
	pre := k.name == "partition selection"
	for l0 := int64(1); l0 <= 6; l0++ {
		for linf := int64(1); linf <= 6; linf++ {
			p := baseFor(k)
			p.l0 = l0
			if pre {
				p.pre = linf
			} else if contributions {
				p.linf = linf
			} else if linf > 1 {
				break
			}
			g = append(g, p)
		}
	}
	grids = append(grids, g)
	g = nil
	for _, eps := range []float64{0.25, 0.5, 1, 2, 4} {
		for _, del := range []float64{0.25e-3, 0.5e-3, 1e-3, 2e-3, 4e-3} {
			p := baseFor(k)
			p.eps, p.del, p.gauss = eps, del, !pre
			g = append(g, p)
		}
	}
	grids = append(grids, g)
	if k.bounded {
		g = nil
		for lo := -3; lo <= 3; lo++ {
			for up := lo + 1; up <= 3; up++ {
				p := baseFor(k)
				p.lower, p.upper = float64(lo), float64(up)
				g = append(g, p)
			}
		}
		grids = append(grids, g)
	}
	if k.name == "quantiles" {
		g = nil
		for h := 1; h <= 8; h++ {
			for _, br := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32, 64, 256, 1024} {
				if math.Pow(float64(br), float64(h)) <= 1024 {
					p := baseFor(k)
					p.height, p.br = h, br
					g = append(g, p)
				}
			}
		}
		grids = append(grids, g)
	}
	for _, g := range grids {
		for _, p := range g {
			for _, q := range g {
				a, err1 := k.mk(p)
				b, err2 := k.mk(q)
				key := fmt.Sprintf("%s: %+v merges %+v", k.name, p, q)
				c.Transitions++
				if !c.Check(err1 == nil && err2 == nil, k.name+": construction", "%s: %v %v", key, err1, err2) {
					continue
				}
				b.Add(0)
				err := a.Merge(b)
				if p == q {
					c.Check(err == nil, k.name+": merge of alike ones", "%s: %v", key, err)
				} else {
					c.Check(err != nil, k.name+": merge of different parameters", "%s", key)
				}
				c.StateS(key)
			}
		}
	}
}
