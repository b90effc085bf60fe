package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"sort"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// drawn counts the draws since the last state: a sampler that never ends is reported.
var drawn int

// zeroNoise makes every draw of the real noises come out as zero.
func zeroNoise() {
	rand.OnUniform = func() float64 {
		if drawn++; drawn > 3000000 {
			panic("more than 3000000 random draws")
		}
		return math.Ldexp(1, -1000)
	}
	rand.OnBoolean = func() bool {
		if drawn++; drawn > 3000000 {
			panic("more than 3000000 random draws")
		}
		return true
	}
	rand.OnGeometric = func() float64 { return 1 }
	rand.OnI63n = func(int64) int64 { return 0 }
}

// gaussianDraws makes Gaussian draws zero: magnitude 0, sign +, offset 0.
func gaussianZero() {
	zeroNoise()
	rand.OnBoolean = func() bool { return false }
}

// params is one configuration of an aggregation.
type params struct {
	eps, del     float64
	l0, linf     int64
	lower, upper float64
	gauss        bool
	height, br   int
	pre          int64
}

func (p params) noise() noise.Noise {
	if p.gauss {
		return noise.Gaussian()
	}
	return noise.Laplace()
}

// obj is an aggregation under test.
type obj interface {
	Add(k int) error
	Merge(o obj) error
	// Result asks for the result, with the noise replaced by rec; s describes it.
	Result(rec *recorder, mode int) (s string, err error)
	CI() error
	Encode() ([]byte, error)
	Decode(b []byte) (obj, error)
}

type kind struct {
	name   string
	nAdd   int
	mk     func(p params) (obj, error)
	expect func(p params, adds []int) (calls []float64, result string)
	modes  int
	multi  bool // results may be asked for several times
	diffs  []func(p *params)
	// bounded: with bounds and a number of contributions
	bounded bool
}

func dMirror(p *params) { p.lower, p.upper = -p.upper, -p.lower }
func dSwap(p *params)   { p.l0, p.linf = p.linf, p.l0 }
func dZero(p *params) {
	m := math.Max(math.Abs(p.lower), math.Abs(p.upper))
	p.lower, p.upper = 0, m
}

var vals = []float64{1, 100, math.NaN(), -5}
var ivals = []int64{1, 100, 3, -5}

func enc(v any) ([]byte, error) {
	var b bytes.Buffer
	err := gob.NewEncoder(&b).Encode(v)
	return b.Bytes(), err
}

func dec(b []byte, v any) error { return gob.NewDecoder(bytes.NewReader(b)).Decode(v) }

func f(x float64) string { return fmt.Sprintf("%.12g", x) }

func clamp(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

// ---- count

type countObj struct {
	c *dpagg.Count
	p params
}

func (o *countObj) Add(k int) error {
	switch k {
	case 0:
		return o.c.Increment()
	case 1:
		return o.c.IncrementBy(3)
	case 2:
		return o.c.IncrementBy(-1)
	}
	return o.c.IncrementBy(40)
}
func (o *countObj) Merge(x obj) error { return o.c.Merge(x.(*countObj).c) }
func (o *countObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.c.Noise
	old := o.c.Noise
	o.c.Noise = rec
	defer func() { o.c.Noise = old }()
	switch mode {
	case 1:
		r, err := o.c.ThresholdedResult(1e-5)
		return iptr(r), err
	case 2:
		r, err := o.c.PreThresholdedResult(3, 1e-5)
		return iptr(r), err
	}
	r, err := o.c.Result()
	return f(float64(r)), err
}
func iptr(r *int64) string {
	if r == nil {
		return "nil"
	}
	return f(float64(*r))
}
func fptr(r *float64) string {
	if r == nil {
		return "nil"
	}
	return f(*r)
}
func (o *countObj) CI() error               { _, err := o.c.ComputeConfidenceInterval(0.1); return err }
func (o *countObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *countObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.Count)
	err := dec(b, c)
	return &countObj{c, o.p}, err
}

// ---- int sum

type isumObj struct {
	c *dpagg.BoundedSumInt64
	p params
}

func (o *isumObj) Add(k int) error   { return o.c.Add(ivals[k]) }
func (o *isumObj) Merge(x obj) error { return o.c.Merge(x.(*isumObj).c) }
func (o *isumObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.c.Noise
	old := o.c.Noise
	o.c.Noise = rec
	defer func() { o.c.Noise = old }()
	if mode == 1 {
		r, err := o.c.ThresholdedResult(1e-5)
		return iptr(r), err
	}
	r, err := o.c.Result()
	return f(float64(r)), err
}
func (o *isumObj) CI() error               { _, err := o.c.ComputeConfidenceInterval(0.1); return err }
func (o *isumObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *isumObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedSumInt64)
	err := dec(b, c)
	return &isumObj{c, o.p}, err
}

// ---- float sum

type fsumObj struct {
	c *dpagg.BoundedSumFloat64
	p params
}

func (o *fsumObj) Add(k int) error   { return o.c.Add(vals[k]) }
func (o *fsumObj) Merge(x obj) error { return o.c.Merge(x.(*fsumObj).c) }
func (o *fsumObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.c.Noise
	old := o.c.Noise
	o.c.Noise = rec
	defer func() { o.c.Noise = old }()
	if mode == 1 {
		r, err := o.c.ThresholdedResult(1e-5)
		return fptr(r), err
	}
	r, err := o.c.Result()
	return f(r), err
}
func (o *fsumObj) CI() error               { _, err := o.c.ComputeConfidenceInterval(0.1); return err }
func (o *fsumObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *fsumObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedSumFloat64)
	err := dec(b, c)
	return &fsumObj{c, o.p}, err
}

// ---- mean

type meanObj struct {
	c *dpagg.BoundedMean
	p params
}

func (o *meanObj) Add(k int) error   { return o.c.Add(vals[k]) }
func (o *meanObj) Merge(x obj) error { return o.c.Merge(x.(*meanObj).c) }
func (o *meanObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.p.noise()
	a, b := o.c.Count.Noise, o.c.NormalizedSum.Noise
	o.c.Count.Noise, o.c.NormalizedSum.Noise = rec, rec
	defer func() { o.c.Count.Noise, o.c.NormalizedSum.Noise = a, b }()
	r, err := o.c.Result()
	return f(r), err
}
func (o *meanObj) CI() error               { _, err := o.c.ComputeConfidenceInterval(0.1); return err }
func (o *meanObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *meanObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedMean)
	err := dec(b, c)
	return &meanObj{c, o.p}, err
}

// ---- variance

type varObj struct {
	c *dpagg.BoundedVariance
	p params
}

func swapVar(v *dpagg.BoundedVariance, rec *recorder) func() {
	a, b, c := v.Count.Noise, v.NormalizedSum.Noise, v.NormalizedSumOfSquares.Noise
	v.Count.Noise, v.NormalizedSum.Noise, v.NormalizedSumOfSquares.Noise = rec, rec, rec
	return func() { v.Count.Noise, v.NormalizedSum.Noise, v.NormalizedSumOfSquares.Noise = a, b, c }
}

func (o *varObj) Add(k int) error   { return o.c.Add(vals[k]) }
func (o *varObj) Merge(x obj) error { return o.c.Merge(x.(*varObj).c) }
func (o *varObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.p.noise()
	defer swapVar(o.c, rec)()
	if mode == 1 {
		r, err := o.c.ResultWithCountAndMean()
		return f(r.Count) + " " + f(r.Mean) + " " + f(r.Variance), err
	}
	r, err := o.c.Result()
	return f(r), err
}
func (o *varObj) CI() error               { return nil }
func (o *varObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *varObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedVariance)
	err := dec(b, c)
	return &varObj{c, o.p}, err
}

// ---- standard deviation

type sdObj struct {
	c *dpagg.BoundedStandardDeviation
	p params
}

func (o *sdObj) Add(k int) error   { return o.c.Add(vals[k]) }
func (o *sdObj) Merge(x obj) error { return o.c.Merge(x.(*sdObj).c) }
func (o *sdObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.p.noise()
	defer swapVar(&o.c.Variance, rec)()
	r, err := o.c.Result()
	return f(r), err
}
func (o *sdObj) CI() error               { return nil }
func (o *sdObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *sdObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedStandardDeviation)
	err := dec(b, c)
	return &sdObj{c, o.p}, err
}

// ---- quantiles

type qObj struct {
	c *dpagg.BoundedQuantiles
	p params
}

var ranks = []float64{0, 0.3, 0.5, 1}

func (o *qObj) Add(k int) error   { return o.c.Add(vals[k]) }
func (o *qObj) Merge(x obj) error { return o.c.Merge(x.(*qObj).c) }
func (o *qObj) Result(rec *recorder, mode int) (string, error) {
	rec.base = o.p.noise()
	old := o.c.Noise
	o.c.Noise = rec
	defer func() { o.c.Noise = old }()
	s := ""
	for _, r := range ranks {
		v, err := o.c.Result(r)
		if err != nil {
			return "", err
		}
		s += f(v) + " "
	}
	return s, nil
}
func (o *qObj) CI() error               { return nil }
func (o *qObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *qObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.BoundedQuantiles)
	err := dec(b, c)
	return &qObj{c, o.p}, err
}

// ---- partition selection

type selObj struct {
	c *dpagg.PreAggSelectPartition
	p params
}

func (o *selObj) Add(k int) error {
	switch k {
	case 0:
		return o.c.Increment()
	case 1:
		return o.c.IncrementBy(3)
	case 2:
		return o.c.IncrementBy(-1)
	}
	return o.c.IncrementBy(40)
}
func (o *selObj) Merge(x obj) error { return o.c.Merge(x.(*selObj).c) }

// Result asks for the decision with a uniform draw at the middle of the keep probabilities of two neighbouring counts.
func (o *selObj) Result(rec *recorder, mode int) (string, error) {
	if mode > 0 {
		n := mode
		u := (keepRef(o.p, n) + keepRef(o.p, n-1)) / 2
		rand.OnUniform = func() float64 { return u }
		defer zeroNoise()
	}
	r, err := o.c.ShouldKeepPartition()
	return fmt.Sprint(r), err
}
func (o *selObj) CI() error               { return nil }
func (o *selObj) Encode() ([]byte, error) { return enc(o.c) }
func (o *selObj) Decode(b []byte) (obj, error) {
	c := new(dpagg.PreAggSelectPartition)
	err := dec(b, c)
	return &selObj{c, o.p}, err
}

// keepRef is the documented recurrence of the keep probability for l0 <= 3.
func keepRef(p params, n int) float64 {
	pre := int(p.pre)
	if pre < 1 {
		pre = 1
	}
	n -= pre - 1
	pe, pd := p.eps/float64(p.l0), p.del/float64(p.l0)
	x := 0.0
	for i := 0; i < n; i++ {
		a := x*math.Exp(pe) + pd
		b := 1 - math.Exp(-pe)*(1-x-pd)
		x = math.Min(math.Min(a, b), 1)
	}
	return x
}

// quantRef is an independent model of the quantile tree without noise.
func quantRef(p params, xs []float64, rank float64) float64 {
	return quantRefCount(p, xs, rank, nil)
}

func quantRefCount(p params, xs []float64, rank float64, noiseOf func(count float64) float64) float64 {
	leaves := 1
	for i := 0; i < p.height; i++ {
		leaves *= p.br
	}
	cnt := make([]float64, leaves)
	for _, x := range xs {
		if math.IsNaN(x) {
			continue
		}
		x = clamp(x, p.lower, p.upper)
		i := int((x - p.lower) / (p.upper - p.lower) * float64(leaves))
		if i >= leaves {
			i = leaves - 1
		}
		cnt[i]++
	}
	rank = clamp(rank, 0.005, 0.995)
	lo, w := 0, leaves // current node covers [lo, lo+w)
	for w > 1 {
		cw := w / p.br
		c := make([]float64, p.br)
		tot := 0.0
		for j := range c {
			for i := lo + j*cw; i < lo+(j+1)*cw; i++ {
				c[j] += cnt[i]
			}
			if noiseOf != nil {
				c[j] += noiseOf(c[j])
			}
			tot += math.Max(0, c[j])
		}
		kept := 0.0
		for _, v := range c {
			if v >= tot*0.0075 {
				kept += v
			}
		}
		if kept == 0 {
			break
		}
		part := 0.0
		for j, v := range c {
			if v < tot*0.0075 {
				continue
			}
			if (part+v)/kept >= rank-1e-6 {
				rank = clamp((rank-part/kept)/(v/kept), 0, 1)
				lo, w = lo+j*cw, cw
				break
			}
			part += v
		}
	}
	h := (p.upper - p.lower) / float64(leaves)
	return p.lower + h*(float64(lo)+rank*float64(w))
}

func sel(adds []int, v []float64) (out []float64) {
	for _, k := range adds {
		out = append(out, v[k])
	}
	return
}

var cnts = []float64{1, 3, -1, 40}

func sumOf(x []float64) (s float64) {
	for _, v := range x {
		s += v
	}
	return
}

// stats returns the number, the centered sum and the centered sum of squares of clamped non-NaN values.
func stats(p params, adds []int) (n, s, q float64) {
	mid := (p.lower + p.upper) / 2
	for _, x := range sel(adds, vals) {
		if !math.IsNaN(x) {
			y := clamp(x, p.lower, p.upper) - mid
			n, s, q = n+1, s+y, q+y*y
		}
	}
	return
}

func sorted(x []float64) []float64 { sort.Float64s(x); return x }

func base() params { return params{eps: 1, l0: 1, linf: 1, lower: -2, upper: 6, height: 2, br: 3} }

func thresholded(p params, v float64, linf float64, int64s bool, pre int64) string {
	t, _ := p.noise().Threshold(p.l0, linf, p.eps, p.del, 1e-5)
	if int64s {
		t = math.Ceil(t + 0.5)
	}
	if v < t+float64(pre) {
		return "nil"
	}
	return f(v)
}

var dEps = func(p *params) { p.eps *= 2 }
var dDel = func(p *params) {
	p.gauss = true
	p.del = 2e-5
}
var dL0 = func(p *params) { p.l0++ }
var dLinf = func(p *params) { p.linf++ }
var dLo = func(p *params) { p.lower -= 8 }
var dUp = func(p *params) { p.upper += 8 }
var dGauss = func(p *params) {
	p.gauss = !p.gauss
	if p.gauss {
		p.del = 1e-5
	} else {
		p.del = 0
	}
}

// dShift keeps the width of the range.
var dShift = func(p *params) { p.lower, p.upper = p.lower+4, p.upper+4 }

var kinds = []kind{
	{name: "count", nAdd: 3, modes: 3, diffs: []func(*params){dEps, dL0, dGauss},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, Noise: p.noise()})
			return &countObj{c, p}, err
		},
		expect: nil},
	{name: "sum of integers", bounded: true, nAdd: 4, modes: 2, diffs: []func(*params){dEps, dL0, dLo, dUp, dGauss, dShift},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, Lower: int64(p.lower), Upper: int64(p.upper), Noise: p.noise()})
			return &isumObj{c, p}, err
		}},
	{name: "sum of floats", bounded: true, nAdd: 4, modes: 2, diffs: []func(*params){dEps, dL0, dLo, dUp, dGauss, dShift},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, Lower: p.lower, Upper: p.upper, Noise: p.noise()})
			return &fsumObj{c, p}, err
		}},
	{name: "mean", bounded: true, nAdd: 4, modes: 1, diffs: []func(*params){dEps, dL0, dLinf, dLo, dUp, dGauss, dShift},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, MaxContributionsPerPartition: p.linf, Lower: p.lower, Upper: p.upper, Noise: p.noise()})
			return &meanObj{c, p}, err
		}},
	{name: "variance", bounded: true, nAdd: 4, modes: 2, diffs: []func(*params){dEps, dL0, dLinf, dLo, dUp, dGauss, dShift},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedVariance(&dpagg.BoundedVarianceOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, MaxContributionsPerPartition: p.linf, Lower: p.lower, Upper: p.upper, Noise: p.noise()})
			return &varObj{c, p}, err
		}},
	{name: "standard deviation", bounded: true, nAdd: 4, modes: 1, diffs: []func(*params){dEps, dL0, dLinf, dLo, dUp, dGauss, dShift},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedStandardDeviation(&dpagg.BoundedStandardDeviationOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, MaxContributionsPerPartition: p.linf, Lower: p.lower, Upper: p.upper, Noise: p.noise()})
			return &sdObj{c, p}, err
		}},
	{name: "quantiles", bounded: true, nAdd: 4, modes: 1, multi: true, diffs: []func(*params){dEps, dL0, dLinf, dLo, dUp, dGauss, dShift, func(p *params) { p.height++ }, func(p *params) { p.br++ }},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, MaxContributionsPerPartition: p.linf, Lower: p.lower, Upper: p.upper, Noise: p.noise(), TreeHeight: p.height, BranchingFactor: p.br})
			return &qObj{c, p}, err
		}},
	{name: "partition selection", nAdd: 3, modes: 6, diffs: []func(*params){dEps, dL0, func(p *params) { p.del *= 2 }, func(p *params) { p.pre = 5 }},
		mk: func(p params) (obj, error) {
			c, err := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, PreThreshold: p.pre})
			return &selObj{c, p}, err
		}},
}

// expected gives the values that must reach the noise (sorted; nil when not observable) and the result under zero noise.
func expected(k *kind, p params, adds []int, mode int) (calls []float64, res string) {
	switch k.name {
	case "count":
		v := sumOf(sel(adds, cnts))
		switch mode {
		case 1:
			return []float64{v}, thresholded(p, v, 1, true, 0)
		case 2:
			if v < 3 {
				return nil, "nil" // whether noise is drawn does not matter
			}
			return []float64{v}, thresholded(p, v, 1, true, 2)
		}
		return []float64{v}, f(v)
	case "sum of integers":
		v := 0.0
		for _, a := range adds {
			v += clamp(float64(ivals[a]), p.lower, p.upper)
		}
		if mode == 1 {
			return []float64{v}, thresholded(p, v, math.Max(math.Abs(p.lower), math.Abs(p.upper)), true, 0)
		}
		return []float64{v}, f(v)
	case "sum of floats":
		v := 0.0
		for _, x := range sel(adds, vals) {
			if !math.IsNaN(x) {
				v += clamp(x, p.lower, p.upper)
			}
		}
		if mode == 1 {
			return []float64{v}, thresholded(p, v, math.Max(math.Abs(p.lower), math.Abs(p.upper)), false, 0)
		}
		return []float64{v}, f(v)
	case "mean":
		n, s, _ := stats(p, adds)
		return sorted([]float64{n, s}), f(clamp(s/math.Max(1, n)+(p.lower+p.upper)/2, p.lower, p.upper))
	case "variance", "standard deviation":
		n, s, q := stats(p, adds)
		c := math.Max(1, n)
		v := clamp(q/c-(s/c)*(s/c), 0, (p.upper-p.lower)*(p.upper-p.lower)/4)
		m := clamp(s/c+(p.lower+p.upper)/2, p.lower, p.upper)
		r := f(v)
		if k.name == "standard deviation" {
			r = f(math.Sqrt(v))
		} else if mode == 1 {
			r = f(n) + " " + f(m) + " " + f(v)
		}
		return sorted([]float64{n, s, q}), r
	case "quantiles":
		s := ""
		for _, r := range ranks {
			s += f(quantRef(p, sel(adds, vals), r)) + " "
		}
		return nil, s
	case "partition selection":
		v := int(sumOf(sel(adds, cnts)))
		pr := keepRef(p, v)
		if mode == 0 {
			return nil, fmt.Sprint(pr > 0)
		}
		u := (keepRef(p, mode) + keepRef(p, mode-1)) / 2
		return nil, fmt.Sprint(u < pr)
	}
	return nil, ""
}
