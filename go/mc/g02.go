package main

import (
	"fmt"
	"math"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
)

// Sensitivity: what reaches the noise on neighbouring datasets, and with which parameters.

type bnd struct{ lo, up float64 }

var floatBounds = []bnd{{0, 1}, {-2, 5}, {-7, -3}, {-1, 1}, {2.5, 1e6}, {-1e16, 1}, {-0.1, 0.2}, {-5, 5}, {0.1, 0.7}, {1e150, 1e153}, {-1e300, 1e-300}}
var intBounds = []bnd{{0, 1}, {-2, 5}, {-7, -3}, {-1, 1}, {3, 1000000}, {-9007199254740991, 4}, {-5, 5}, {0, 0x1p61}}

// menuFor lists values inside, at the edges and outside of the bounds.
func menuFor(b bnd, small bool) []float64 {
	m := []float64{b.lo, b.up, math.NaN(), math.Inf(1), math.Inf(-1), math.Nextafter(b.up, b.lo)}
	if !small {
		m = append(m, b.lo+(b.up-b.lo)/3, math.Nextafter(b.lo, b.up), b.up*2+1, b.lo*2-1, 0, math.MaxFloat64, -math.MaxFloat64)
	}
	return m
}

func intMenu(b bnd) []int64 {
	l, u := int64(b.lo), int64(b.up)
	return []int64{l, u, math.MaxInt64, math.MinInt64, l + 1, u - 1, 0, (l + u) / 2}
}

// multisets enumerates the multisets of up to k of n things.
func multisets(n, k int) [][]int {
	out := [][]int{{}}
	last := [][]int{{}}
	for s := 0; s < k; s++ {
		var next [][]int
		for _, m := range last {
			from := 0
			if len(m) > 0 {
				from = m[len(m)-1]
			}
			for i := from; i < n; i++ {
				next = append(next, append(append([]int{}, m...), i))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func fill(o obj, ks []int) error {
	for _, k := range ks {
		if err := o.Add(k); err != nil {
			return err
		}
	}
	return nil
}

// released runs one aggregation and returns what reached the noise.
func released(c *Ctx, k *kind, p params, mode int, ks []int) ([]call, bool) {
	o, err := k.mk(p)
	if err != nil {
		return nil, false
	}
	if err := fill(o, ks); err != nil {
		c.Fail(k.name+": add", "%v", err)
		return nil, false
	}
	rec := &recorder{}
	if k.name == "quantiles" {
		rec.off = func(int) float64 { return 1 << 40 }
	}
	c.Transitions++
	if _, err := o.Result(rec, mode); err != nil {
		c.Fail(k.name+": result", "%v", err)
		return nil, false
	}
	return rec.calls, true
}

// compare decides whether two releases of neighbouring datasets stay within the budget.
func compareReleases(c *Ctx, k *kind, p params, a, b []call, key string) {
	if !c.Check(len(a) == len(b), key, "%d releases against %d on a neighbouring dataset", len(a), len(b)) {
		return
	}
	var se, sd, cost, l2 float64
	for i := range a {
		x, y := a[i], b[i]
		if !c.Check(x.l0 == y.l0 && x.linf == y.linf && x.eps == y.eps && x.del == y.del, key, "the noise depends on the data: %v, %v", x, y) {
			return
		}
		d := math.Abs(x.x - y.x)
		if x.isInt {
			d = float64(x.xi - y.xi)
			if x.xi < y.xi {
				d = float64(y.xi - x.xi)
			}
		}
		if !c.Check(!math.IsNaN(d) && !math.IsInf(d, 0), key, "values not finite: %v, %v", x, y) {
			return
		}
		tol := 1 + 1e-9
		if k.name == "quantiles" {
			if i == 0 {
				se, sd = x.eps, x.del
			}
			c.Check(x.l0 == a[0].l0 && x.linf == a[0].linf && x.eps == a[0].eps && x.del == a[0].del, key, "nodes with different noise")
			cost += x.eps * d * float64(p.l0) / (float64(x.l0) * x.linf)
			l2 += d * d
			continue
		}
		se += x.eps
		sd += x.del
		if p.gauss {
			c.Check(math.Sqrt(float64(p.l0))*d <= x.linf*math.Sqrt(float64(x.l0))*tol, key, "neighbouring datasets move the value by %v in each of %d partitions; %v", d, p.l0, x)
			continue
		}
		cost += x.eps * d * float64(p.l0) / (float64(x.l0) * x.linf)
		c.Check(float64(p.l0)*d <= x.linf*float64(x.l0)*tol, key, "neighbouring datasets move the value by %v in each of %d partitions; %v", d, p.l0, x)
	}
	if p.gauss {
		c.Check(se <= p.eps*(1+1e-12) && sd <= p.del*(1+1e-12), key, "spends eps %v delta %v of %v, %v", se, sd, p.eps, p.del)
		if k.name == "quantiles" && len(a) > 0 {
			c.Check(math.Sqrt(l2*float64(p.l0)) <= a[0].linf*math.Sqrt(float64(a[0].l0))*(1+1e-9), key, "tree moves by %v (L2) in each of %d partitions; %v", math.Sqrt(l2), p.l0, a[0])
		}
		return
	}
	c.Check(cost <= p.eps*(1+1e-9) && sd == 0, key, "privacy loss %v of %v, delta %v", cost, p.eps, sd)
	if k.name == "quantiles" && len(a) > 0 {
		c.Check(se <= p.eps*(1+1e-12), key, "noise for eps %v of %v", se, p.eps)
	}
}

func listSens(tier string) (out []map[string]any) {
	for i := range kinds {
		if kinds[i].name == "partition selection" {
			continue
		}
		nb := len(floatBounds)
		if kinds[i].name == "sum of integers" {
			nb = len(intBounds)
		}
		if kinds[i].name == "count" {
			nb = 1
		}
		for b := 0; b < nb; b++ {
			out = append(out, map[string]any{"kind": i, "bounds": b, "deep": tier != "quick"})
		}
	}
	return append(out, map[string]any{"refused": true}, map[string]any{"overflow": true})
}

func runSens(c *Ctx, cs map[string]any) {
	zeroNoise()
	k := &kinds[int(cs["kind"].(float64))]
	bi := int(cs["bounds"].(float64))
	deep := cs["deep"].(bool)
	fb := bnd{}
	var n int
	switch k.name {
	case "count":
		n = 2
	case "sum of integers":
		fb = intBounds[bi]
		ivals = intMenu(fb)
		n = len(ivals)
	default:
		fb = floatBounds[bi]
		vals = menuFor(fb, !deep && k.name == "quantiles")
		n = len(vals)
	}
	linfs := []int64{1, 2}
	if deep {
		linfs = append(linfs, 3)
	}
	if k.name == "count" || k.name == "sum of integers" || k.name == "sum of floats" {
		linfs = []int64{1}
	}
	ranks = nil
	for i := 0; i < 40; i++ {
		ranks = append(ranks, (float64(i)+0.47)/40)
	}
	bases := multisets(n, 2)
	shapes := [][2]int{{0, 0}}
	if k.name == "quantiles" {
		shapes = [][2]int{{1, 2}, {2, 2}, {2, 3}, {3, 2}}
		if !deep {
			bases = multisets(n, 1)
		}
	}
	for _, l0 := range []int64{1, 3} {
		for _, linf := range linfs {
			users := multisets(n, int(linf))
			for _, g := range []bool{false, true} {
				for _, ed := range [][2]float64{{1, 1e-5}, {0.3, 0.1}} {
					for _, sh := range shapes {
						p := params{eps: ed[0], l0: l0, linf: linf, lower: fb.lo, upper: fb.up, gauss: g, height: sh[0], br: sh[1]}
						if g {
							p.del = ed[1]
						}
						name := fmt.Sprintf("%s l0=%d linf=%d bounds=[%v,%v] gauss=%v eps=%v tree=%v", k.name, l0, linf, fb.lo, fb.up, g, ed[0], sh)
						if o, err := k.mk(p); err != nil {
							c.StateS(name + " refused")
							c.Trace(name + " refused: " + err.Error())
							_ = o
							continue
						}
						for mode := 0; mode < k.modes; mode++ {
							if k.name == "count" && mode == 2 {
								continue // consumes noise or not, depending on the raw count
							}
							for _, bs := range bases {
								a, ok := released(c, k, p, mode, bs)
								if !ok {
									return
								}
								c.State("%s %d %v", name, mode, bs)
								for _, u := range users {
									if k.name == "count" && len(u) > 0 && u[0] != 0 {
										continue
									}
									key := fmt.Sprintf("%s mode=%d base=%v user=%v", name, mode, bs, u)
									b, ok := released(c, k, p, mode, append(append([]int{}, bs...), u...))
									if !ok {
										return
									}
									compareReleases(c, k, p, a, b, key)
									c.Trace(key)
								}
							}
						}
					}
				}
			}
		}
	}
}

// runRefused asks every constructor and noise for parameters for which no guarantee can hold.
func runRefused(c *Ctx) {
	zeroNoise()
	nan, inf := math.NaN(), math.Inf(1)
	type bad struct {
		name  string
		f     func(p *params)
		gauss int // 0: Laplace, 1: Gaussian, 2: both
	}
	bads := []bad{}
	for _, e := range []float64{0, -1, nan, inf, -inf, math.Exp2(-51)} {
		e := e
		bads = append(bads, bad{fmt.Sprintf("eps=%v", e), func(p *params) { p.eps = e }, 2})
	}
	for _, d := range []float64{-0.1, 1, 2, nan, inf} {
		d := d
		bads = append(bads, bad{fmt.Sprintf("delta=%v", d), func(p *params) { p.del = d }, 2})
	}
	bads = append(bads, bad{"delta=0", func(p *params) { p.del = 0 }, 1}, bad{"delta=0.1", func(p *params) { p.del = 0.1 }, 0})
	for _, l := range []int64{0, -1, math.MinInt64} {
		l := l
		bads = append(bads, bad{fmt.Sprintf("l0=%v", l), func(p *params) { p.l0 = l }, 2})
	}
	for i := range kinds {
		k := &kinds[i]
		all := bads
		if k.name != "count" && k.name != "partition selection" {
			for _, b := range []bnd{{1, 0}, {0, 0}, {5, -5}} {
				b := b
				all = append(all, bad{fmt.Sprintf("bounds=%v", b), func(p *params) { p.lower, p.upper = b.lo, b.up }, 2})
			}
		}
		if k.name != "count" && k.name != "partition selection" && k.name != "sum of integers" {
			for _, b := range []bnd{{nan, 1}, {0, nan}, {-inf, 1}, {0, inf}, {-inf, inf}, {nan, nan}} {
				b := b
				all = append(all, bad{fmt.Sprintf("bounds=%v", b), func(p *params) { p.lower, p.upper = b.lo, b.up }, 2})
			}
		}
		if k.name == "mean" || k.name == "variance" || k.name == "standard deviation" || k.name == "quantiles" {
			for _, l := range []int64{0, -1, math.MinInt64} {
				l := l
				all = append(all, bad{fmt.Sprintf("linf=%v", l), func(p *params) { p.linf = l }, 2})
			}
			all = append(all, bad{"bounds equal", func(p *params) { p.lower, p.upper = 2, 2 }, 2})
		}
		if k.name == "quantiles" {
			all = append(all, bad{"height=-1", func(p *params) { p.height = -1 }, 2}, bad{"branching=1", func(p *params) { p.br = 1 }, 2}, bad{"branching=-2", func(p *params) { p.br = -2 }, 2})
		}
		if k.name == "partition selection" {
			all = append(all, bad{"pre=-1", func(p *params) { p.pre = -1 }, 2}, bad{"delta=0", func(p *params) { p.del = 0 }, 2})
		}
		for _, b := range all {
			for _, g := range []bool{false, true} {
				if b.gauss == 0 && g || b.gauss == 1 && !g {
					continue
				}
				if g && (b.name == "delta=1" || b.name == "delta=2") && (k.name == "mean" || k.name == "variance" || k.name == "standard deviation") {
					continue // split among the parts before it is checked; nothing is promised for delta >= 1
				}
				p := base()
				p.gauss = g
				if g {
					p.del = 1e-5
				}
				if k.name == "partition selection" {
					p.del = 1e-5
					if b.gauss == 0 || b.name == "eps=4.440892098500626e-16" {
						continue
					}
				}
				key := fmt.Sprintf("%s %s gauss=%v", k.name, b.name, g)
				if o, err := k.mk(p); !c.Check(err == nil && o != nil, key, "valid parameters refused: %v", err) {
					continue
				}
				b.f(&p)
				c.guard(key, func() {
					_, err := k.mk(p)
					c.Check(err != nil, key, "accepted")
				})
				c.StateS(key)
				c.Transitions++
				c.Trace(key)
			}
		}
	}
	// the noises themselves
	for _, g := range []bool{false, true} {
		n := params{gauss: g}.noise()
		d := 0.0
		if g {
			d = 1e-5
		}
		type args struct {
			l0             int64
			linf, eps, del float64
		}
		ok := args{1, 1, 1, d}
		var list []args
		for _, e := range []float64{0, -1, nan, inf, -inf, math.Exp2(-51)} {
			list = append(list, args{1, 1, e, d})
		}
		for _, x := range []float64{-0.1, 1, 2, nan, inf} {
			list = append(list, args{1, 1, 1, x})
		}
		if g {
			list = append(list, args{1, 1, 1, 0})
		} else {
			list = append(list, args{1, 1, 1, 1e-9})
		}
		for _, x := range []float64{0, -1, nan, inf, -inf} {
			list = append(list, args{1, x, 1, d})
		}
		for _, x := range []int64{0, -1} {
			list = append(list, args{x, 1, 1, d})
		}
		for _, a := range list {
			key := fmt.Sprintf("%v %+v", n, a)
			c.guard(key, func() {
				_, err := n.AddNoiseFloat64(0, a.l0, a.linf, a.eps, a.del)
				c.Check(err != nil, key, "AddNoiseFloat64 accepts")
				if a.linf == math.Trunc(a.linf) {
					_, err = n.AddNoiseInt64(0, a.l0, int64(a.linf), a.eps, a.del)
					c.Check(err != nil, key, "AddNoiseInt64 accepts")
					_, err = n.ComputeConfidenceIntervalInt64(0, a.l0, int64(a.linf), a.eps, a.del, 0.1)
					c.Check(err != nil, key, "ComputeConfidenceIntervalInt64 accepts")
				}
				_, err = n.Threshold(a.l0, a.linf, a.eps, a.del, 0.01)
				c.Check(err != nil, key, "Threshold accepts")
				_, err = n.ComputeConfidenceIntervalFloat64(0, a.l0, a.linf, a.eps, a.del, 0.1)
				c.Check(err != nil, key, "ComputeConfidenceIntervalFloat64 accepts")
			})
			c.StateS(key)
			c.Trace(key)
		}
		for _, td := range []float64{0, -1, 1, nan, inf, 1 - d/2} {
			if !g && td < 1 && td > 0 {
				continue
			}
			_, err := n.Threshold(ok.l0, ok.linf, ok.eps, ok.del, td)
			c.Check(err != nil, fmt.Sprintf("%v threshold delta %v", n, td), "Threshold accepts")
		}
		for _, al := range []float64{0, 1, -1, 2, nan, inf} {
			_, err := n.ComputeConfidenceIntervalFloat64(0, 1, 1, 1, d, al)
			c.Check(err != nil, fmt.Sprintf("%v alpha %v", n, al), "accepts")
			_, err = n.ComputeConfidenceIntervalInt64(0, 1, 1, 1, d, al)
			c.Check(err != nil, fmt.Sprintf("%v alpha %v (int)", n, al), "accepts")
		}
	}
	// results with unusable ranks or thresholds
	for _, pre := range []int64{-1, math.MinInt64} {
		x, _ := dpagg.NewCount(&dpagg.CountOptions{Epsilon: 1, MaxPartitionsContributed: 1, Noise: noise.Laplace()})
		_, err := x.PreThresholdedResult(pre, 0.01)
		c.Check(err != nil, fmt.Sprintf("pre-threshold %d", pre), "accepted")
	}
	for _, r := range []float64{-0.1, 1.1, inf, -inf} {
		q, _ := dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: 1, MaxPartitionsContributed: 1, MaxContributionsPerPartition: 1, Lower: 0, Upper: 1, Noise: noise.Laplace()})
		_, err := q.Result(r)
		c.Check(err != nil, fmt.Sprintf("rank %v", r), "accepted")
	}
}

// runOverflow: parameters at the edge of the number formats are refused, or the sensitivity handed on covers the true one.
func runOverflow(c *Ctx) {
	zeroNoise()
	big := []int64{1, 2, 3, 1 << 31, 1<<32 + 1, 1 << 62, math.MaxInt64}
	ints := []int64{1, -1, 3, 1 << 31, -(1<<32 + 1), 1 << 62, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	for _, lo := range ints {
		for _, up := range ints {
			p := base()
			o, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: p.eps, MaxPartitionsContributed: 1, Lower: lo, Upper: up, Noise: noise.Laplace()})
			key := fmt.Sprintf("sum of integers bounds=[%d,%d]", lo, up)
			c.StateS(key)
			c.Trace(key)
			c.Transitions++
			if err != nil {
				continue
			}
			rec := &recorder{base: o.Noise}
			o.Noise = rec
			o.Add(math.MinInt64)
			_, err = o.Result()
			if c.Check(err == nil && len(rec.calls) == 1, key, "no release: %v", err) {
				q := rec.calls[0]
				need := math.Max(math.Abs(float64(lo)), math.Abs(float64(up)))
				c.Check(q.linf >= need*(1-1e-12) && q.xi == lo, key, "%v", q)
			}
		}
	}
	floats := []float64{1, 1e100, 1e154, 1.3e154, 1.4e154, 1e200, 1e308, math.MaxFloat64}
	for _, ki := range []int{3, 4, 5} {
		for _, linf := range big {
			for _, lo := range floats {
				for _, up := range floats {
					for _, sg := range [][2]float64{{-1, 1}, {-1, -1}, {1, 1}} {
						k := &kinds[ki]
						p := base()
						p.linf, p.lower, p.upper = linf, lo*sg[0], up*sg[1]
						key := fmt.Sprintf("%s linf=%d bounds=[%v,%v]", k.name, linf, p.lower, p.upper)
						c.StateS(key)
						c.Trace(key)
						c.Transitions++
						c.guard(key, func() {
							o, err := k.mk(p)
							if err != nil {
								return
							}
							vals = []float64{p.lower, p.upper}
							for v := 0; v < 2; v++ {
								o, _ = k.mk(p)
								o.Add(v)
								rec := &recorder{}
								_, err := o.Result(rec, 0)
								c.Check(err == nil, key, "result: %v", err)
								cost := 0.0
								for _, q := range rec.calls {
									c.Check(math.Abs(q.x) <= q.linf*(1+1e-9)/float64(linf) && !math.IsInf(q.linf, 0), key, "one contribution moves the value by %v; %v", q.x, q)
									cost += q.eps
								}
								c.Check(cost <= p.eps*(1+1e-12), key, "spends %v", cost)
							}
						})
					}
				}
			}
		}
	}
}

func init() {
	lists["G02"] = listSens
	explorers["G02"] = func(c *Ctx, cs map[string]any) {
		switch {
		case cs["refused"] != nil:
			runRefused(c)
		case cs["overflow"] != nil:
			runOverflow(c)
		default:
			runSens(c, cs)
		}
	}
}
