package main

import (
	"fmt"
	"math"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// Partition selection: the probability of keeping a partition, for every count.

func newSel(p params, n int64) (*dpagg.PreAggSelectPartition, error) {
	s, err := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, PreThreshold: p.pre})
	if err != nil {
		return nil, err
	}
	return s, s.IncrementBy(n)
}

// keepProb finds, by bisection over the uniform draw, the probability of keeping a partition of n.
func keepProb(c *Ctx, p params, n int64, key string) float64 {
	draws := 0
	dec := func(u float64) bool {
		s, err := newSel(p, n)
		if err != nil {
			c.Fail(key, "%v", err)
			return false
		}
		rand.OnUniform = func() float64 { draws++; return u }
		r, err := s.ShouldKeepPartition()
		c.Transitions++
		c.Check(err == nil, key, "%v", err)
		return r
	}
	lo, hi := math.SmallestNonzeroFloat64, 1.0
	a, b := dec(lo), dec(hi)
	switch {
	case a && b:
		return 1
	case !a && !b:
		return 0
	}
	l, h := math.Float64bits(lo), math.Float64bits(hi)
	for l+1 < h {
		m := (l + h) / 2
		if dec(math.Float64frombits(m)) == a {
			l = m
		} else {
			h = m
		}
	}
	x := math.Float64frombits(h)
	if !a {
		return 1 - x
	}
	return x
}

func runKeep(c *Ctx, p params, deep bool) {
	name := fmt.Sprintf("eps=%v delta=%v l0=%d pre=%d", p.eps, p.del, p.l0, p.pre)
	pre := p.pre
	if pre < 1 {
		pre = 1
	}
	pe, pd := p.eps/float64(p.l0), p.del/float64(p.l0)
	limit := 300
	if deep {
		limit = 3000
	}
	ref, prev := 0.0, 0.0
	hard := -1
	const tol = 1e-6 // relative; the closed forms lose some digits
	for _, n := range []int64{math.MinInt64, -1, 0} {
		q := keepProb(c, p, n, name)
		c.Check(q == 0, fmt.Sprintf("%s n=%d", name, n), "kept with probability %v", q)
	}
	cut := 0
	for n := int64(1); n <= int64(limit); n++ {
		key := fmt.Sprintf("%s n=%d", name, n)
		q := keepProb(c, p, n, key)
		c.State("%s %d", name, n)
		if n >= pre {
			ref = math.Min(math.Min(ref*math.Exp(pe)+pd, 1-math.Exp(-pe)*(1-ref-pd)), 1)
			c.Check(math.Abs(q-ref) <= tol*ref, key, "kept with probability %v, the recurrence gives %v", q, ref)
			c.Check(1-q <= (1-ref)*(1+1e-6)+1e-12, key, "dropped with probability %v, the recurrence gives %v", 1-q, 1-ref)
		} else {
			c.Check(q == 0, key, "kept with probability %v below the pre-threshold", q)
		}
		c.Check(q >= prev*(1-1e-9), key, "probability falls from %v to %v", prev, q)
		c.Check(q <= prev*math.Exp(pe)*(1+1e-12)+pd*(1+tol), key, "neighbouring counts are kept with %v and %v: beyond eps %v delta %v", prev, q, pe, pd)
		if n >= pre {
			c.Check(1-prev <= math.Exp(pe)*((1-q)*(1+1e-9)+3e-16)+pd*(1+tol)+1e-12, key, "neighbouring counts are dropped with %v and %v: beyond eps %v delta %v", 1-prev, 1-q, pe, pd)
		}
		if q == 1 && hard < 0 {
			hard = int(n)
		}
		if hard >= 0 {
			if cut++; cut > 5 {
				break
			}
		}
		prev = q
	}
	c.Trace(name)
	for _, n := range []int64{1 << 20, 1 << 40, math.MaxInt64} {
		if hard >= 0 {
			q := keepProb(c, p, n, name)
			c.Check(q == 1, fmt.Sprintf("%s n=%d", name, n), "kept with probability %v", q)
		}
	}
	if hard >= 0 {
		s, _ := newSel(p, 0)
		h, err := s.GetHardThreshold()
		c.Check(err == nil && h == hard, name+" hard threshold", "claims that %d units are always kept, %d are needed: %v", h, hard, err)
	}
}

// scripted makes the Gaussian sampler return one chosen value.
func scripted(g float64, sign bool, off int64) {
	n := 0
	rand.OnGeometric = func() float64 { return g }
	rand.OnBoolean = func() bool { return sign }
	rand.OnI63n = func(m int64) int64 {
		if off < 0 {
			return m + off
		}
		if off >= m {
			return m - 1
		}
		return off
	}
	rand.OnUniform = func() float64 {
		if n++; n > 1000 {
			panic("rejected for ever")
		}
		return math.Ldexp(1, -1000)
	}
}

func rejected(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}

// runGauss covers more than three partitions: Gaussian noise and a threshold.
func runGauss(c *Ctx, p params) {
	name := fmt.Sprintf("eps=%v delta=%v l0=%d pre=%d", p.eps, p.del, p.l0, p.pre)
	pre := p.pre
	if pre < 1 {
		pre = 1
	}
	th, err := noise.Gaussian().Threshold(p.l0, 1, p.eps, p.del/2, p.del/2)
	if !c.Check(err == nil, name, "%v", err) {
		return
	}
	T := int64(math.Ceil(th + 0.5)) // noise of integers is rounded
	draws := 0
	for g := 1; g <= 5; g++ {
		for _, sg := range []bool{false, true} {
			for _, o := range []float64{0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.999} {
				frac := o
				script := func() {
					scripted(float64(g), sg, 0)
					rand.OnI63n = func(m int64) int64 { draws++; return int64(frac * float64(m)) }
				}
				script()
				var v int64
				var err error
				if rejected(func() { v, err = noise.Gaussian().AddNoiseInt64(0, p.l0, 1, p.eps, p.del/2) }) {
					continue // no draw of this size is ever accepted
				}
				if !c.Check(err == nil, name, "%v", err) {
					return
				}
				base := T - v + pre - 1 // the smallest count that is kept
				for _, n := range []int64{-1, 0, 1, pre - 1, pre, base - 2, base - 1, base, base + 1, base + 50} {
					key := fmt.Sprintf("%s n=%d noise=%d", name, n, v)
					script()
					s, err := newSel(p, n)
					if !c.Check(err == nil, key, "%v", err) {
						return
					}
					draws = 0
					r, err := s.ShouldKeepPartition()
					c.Transitions++
					c.StateS(key)
					c.Check(err == nil && r == (n >= pre && n >= base), key, "kept: %v, threshold %d (with pre-threshold %d): %v", r, T, pre, err)
				}
			}
		}
	}
	c.Trace(name)
	s, _ := newSel(p, 0)
	c.guard(name, func() {
		h, err := s.GetHardThreshold()
		if err == nil {
			scripted(3, true, 0)
			s, _ := newSel(p, int64(h))
			r, err := s.ShouldKeepPartition()
			c.Check(err == nil && r, "hard threshold of more than three partitions", "%s: %d units are claimed to be always kept, and are dropped", name, h)
		}
	})
}

func init() {
	lists["G03"] = func(tier string) (out []map[string]any) {
		for _, e := range []float64{1e-15, 1e-10, 1e-5, 0.01, 0.1, 0.5, 1, math.Log(3), 3, 20, 50, 700} {
			for _, d := range []float64{1e-15, 1e-7, 1e-5, 0.001, 0.02, 0.3, 0.9, 1 - 1e-9} {
				for l0 := 1; l0 <= 3; l0++ {
					out = append(out, map[string]any{"eps": e, "del": d, "l0": l0, "deep": tier != "quick"})
				}
			}
			for _, l0 := range []int{4, 5, 20} {
				if e >= 1e-5 && e < 50 {
					out = append(out, map[string]any{"eps": e, "l0": l0})
				}
			}
		}
		return
	}
	explorers["G03"] = func(c *Ctx, cs map[string]any) {
		for _, pre := range []int64{0, 1, 2, 7} {
			p := params{eps: cs["eps"].(float64), l0: int64(cs["l0"].(float64)), pre: pre}
			if cs["del"] == nil {
				for _, d := range []float64{1e-9, 1e-5, 0.01, 0.3} {
					p.del = d
					runGauss(c, p)
				}
				continue
			}
			p.del = cs["del"].(float64)
			runKeep(c, p, cs["deep"].(bool))
		}
	}
}
