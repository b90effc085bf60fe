package main

import (
	"fmt"
	"math"

	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// The law of the noise: every branch of the samplers, with the exact probability of taking it.

// pow2ceil is the smallest power of two that is at least x.
func pow2ceil(x float64) float64 {
	f, e := math.Frexp(x)
	if f == 0.5 {
		return x
	}
	return math.Ldexp(1, e)
}

const tiny = 5e-324

// lapRun draws with the given uniforms (then the filler) and signs (then plus).
func lapRun(c *Ctx, add func() (float64, error), us []float64, filler float64, signs []bool) (v float64, nu, ns int, ok bool) {
	rand.OnUniform = func() float64 {
		nu++
		if nu > 5000 {
			panic("sampling does not end")
		}
		if nu <= len(us) {
			return us[nu-1]
		}
		return filler
	}
	rand.OnBoolean = func() bool {
		ns++
		if ns <= len(signs) {
			return signs[ns-1]
		}
		return true
	}
	c.Transitions++
	v, err := add()
	return v, nu, ns, err == nil
}

// sumExp is 1-exp(-l*k) for k steps.
func oneMinusExp(l float64, k float64) float64 { return -math.Expm1(-l * k) }

func runLaplace(c *Ctx, eps, linf float64, l0 int64, depth int, integer bool) {
	l1 := linf * float64(l0)
	g := pow2ceil(l1 / eps / (1 << 40))
	lam := g * eps / (l1 + g)
	name := fmt.Sprintf("Laplace integer=%v eps=%v l0=%d linf=%v", integer, eps, l0, linf)
	n := noise.Laplace()
	unit := g
	add := func() (float64, error) { return n.AddNoiseFloat64(0, l0, linf, eps, 0) }
	if integer {
		unit = 1
		if g >= 1 {
			unit = g
		}
		add = func() (float64, error) {
			r, err := n.AddNoiseInt64(0, l0, int64(linf), eps, 0)
			return float64(r), err
		}
	}
	exact := !integer || g >= 1 && l1/eps < 1e17 // outcomes identify samples
	// truncation: the sample exceeds the range of int64
	limit := oneMinusExp(lam, math.MaxInt64)
	if limit < 1-1e-6 {
		c.Fail(name, "truncated with probability %v", 1-limit)
		return
	}
	root := 0.5 // keeps the first draw inside
	// subtree gives the extreme samples of a path of decisions
	type node struct{ path []float64 }
	out := func(path []float64, filler float64) (float64, int) {
		v, nu, _, ok := lapRun(c, add, append([]float64{root}, path...), filler, nil)
		if !c.Check(ok, name, "error") {
			return 0, 0
		}
		return v / unit, nu
	}
	type frame struct {
		path        []float64
		left, right float64 // samples are in (left, right], counted from one
	}
	lo, _ := out(nil, tiny)
	c.Check(lo == 0, name, "smallest sample %v", lo)
	stack := []frame{{nil, 0, math.MaxInt64}}
	seen := 0
	for len(stack) > 0 {
		fr := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		key := fmt.Sprintf("%s path=%v", name, fr.path)
		c.StateS(key)
		if !exact {
			continue
		}
		// is there a decision left?
		_, nu := out(fr.path, tiny)
		if nu <= len(fr.path)+1 {
			c.Check(fr.left+1 == fr.right || fr.right-fr.left < fr.right*1e-15, key, "ends with samples (%v, %v] left", fr.left, fr.right)
			continue
		}
		app := func(u float64) []float64 { return append(append([]float64{}, fr.path...), u) }
		a, _ := out(app(tiny), tiny)
		b, _ := out(app(1), tiny)
		// samples minus one are reported
		if !c.Check(a == fr.left, key, "smallest sample %v, not %v", a, fr.left) || !c.Check(b > a && b < fr.right, key, "samples from %v and from %v, at most %v", a, b, fr.right) {
			return
		}
		mid := b
		// threshold of the decision
		l, h := tiny, 1.0
		for math.Nextafter(l, 2) < h && l < h*(1-1e-15) {
			m := l + (h-l)/2
			if l < h/16 {
				m = math.Sqrt(l) * math.Sqrt(h)
			}
			if v, _ := out(app(m), tiny); v == a {
				l = m
			} else {
				h = m
			}
		}
		want := oneMinusExp(lam, mid-fr.left) / oneMinusExp(lam, fr.right-fr.left)
		tol := 1e-12
		if mid > 1<<53 {
			tol = 1e-9
		}
		c.Check(math.Abs(l-want) <= tol*want+2e-16 || 1-want < 1e-15 && l > 1-1e-15, key, "samples up to %v have probability %v, not %v", mid, l, want)
		seen++
		if len(fr.path) < depth || (len(fr.path) < 3*depth && (allSame(fr.path))) {
			stack = append(stack, frame{app(tiny), fr.left, mid}, frame{app(1), mid, fr.right})
		}
	}
	c.Trace(fmt.Sprintf("%s nodes=%d", name, seen))
	// the sign, and zero
	for _, us := range [][]float64{{root}, {root, 0.9}, {root, 0.9, 0.1, 0.9}} {
		v, _, ns, ok := lapRun(c, add, us, tiny, []bool{true})
		w, nu, ns2, ok2 := lapRun(c, add, us, tiny, []bool{false, true})
		if v == 0 {
			if exact {
				c.Check(ok && ok2 && ns == 1 && ns2 == 2 && w == 0 && nu > 1, name, "zero with the negative sign is not drawn again: %v signs, then %v", ns, ns2)
			}
			continue
		}
		c.Check(ok && ok2 && ns == 1 && ns2 == 1 && v == -w, name, "signs give %v and %v", v, w)
	}
	// where the value goes
	if !integer {
		v, _, _, _ := lapRun(c, add, []float64{root, 0.7, 0.7, 0.2}, tiny, nil)
		for _, x := range []float64{0, g, g / 2, g * 0.75, g * 0.25, -g, -g * 1.6, g * 1000001, 1, -3.7, l1 * 12.3, -l1 * 1e7, l1 * 1e11} {
			got, _, _, ok := lapRun(c, func() (float64, error) { return n.AddNoiseFloat64(x, l0, linf, eps, 0) }, []float64{root, 0.7, 0.7, 0.2}, tiny, nil)
			d := got - v
			key := fmt.Sprintf("%s x=%v", name, x)
			c.Check(ok && math.Abs(d-x) <= g*0.5*(1+1e-12)+math.Abs(x)*3e-16, key, "moved to %v", d)
			c.Check(math.IsInf(got/g, 0) || got/g == math.Trunc(got/g), key, "%v is not a multiple of %v", got, g)
			c.StateS(key)
		}
		return
	}
	// integers: the noise is the float noise rounded, the value is exact or rounded to the granularity
	fadd := func() (float64, error) { return n.AddNoiseFloat64(0, l0, linf, eps, 0) }
	for _, sign := range []bool{true, false} {
		for k := 0; k < 64 && l1/eps < 1e17; k++ {
			us := []float64{root}
			for i := 0; i < 60; i++ {
				u := 0.99
				if i < 6 && k>>uint(i)&1 == 1 || i >= 6 && (i*k)%3 == 0 {
					u = 0.01
				}
				us = append(us, u)
			}
			ref, _, _, ok1 := lapRun(c, fadd, us, tiny, []bool{sign})
			for _, x := range []int64{0, 1, -1, 7, -1000003, 1 << 40, -(1 << 53) - 1} {
				got, _, _, ok := lapRun(c, func() (float64, error) {
					r, err := n.AddNoiseInt64(x, l0, int64(linf), eps, 0)
					return float64(r - x), err
				}, us, tiny, []bool{sign})
				key := fmt.Sprintf("%s x=%d script=%d sign=%v", name, x, k, sign)
				c.StateS(key)
				if g < 1 {
					c.Check(ok && ok1 && got == math.Round(ref), key, "noise %v, rounded from %v", got, ref)
				} else {
					c.Check(ok && ok1 && math.Abs(got-ref) <= g/2+math.Abs(ref)*3e-16, key, "noise %v, from %v with granularity %v", got, ref, g)
				}
			}
		}
	}
	c.Trace(name + " integers")
}

func allSame(p []float64) bool {
	for _, x := range p {
		if x != p[0] {
			return false
		}
	}
	return true
}

// gaussRun proposes one cell and offset; returns the outcome if accepted at u.
func gaussRun(c *Ctx, add func() (float64, error), geo float64, sign bool, off func(step int64) int64, u float64) (v float64, ok bool) {
	first := true
	defer func() {
		if r := recover(); r != nil {
			if r != "rejected" {
				panic(r)
			}
			ok = false
		}
	}()
	rand.OnGeometric = func() float64 {
		if !first {
			panic("rejected")
		}
		first = false
		return geo
	}
	rand.OnBoolean = func() bool { return sign }
	rand.OnI63n = func(m int64) int64 { return off(m) }
	rand.OnUniform = func() float64 { return u }
	c.Transitions++
	v, err := add()
	return v, err == nil
}

func runGaussian(c *Ctx, eps, del, linf float64, l0 int64, integer bool) {
	name := fmt.Sprintf("Gaussian integer=%v eps=%v delta=%v l0=%d linf=%v", integer, eps, del, l0, linf)
	n := noise.Gaussian()
	sigma := noise.SigmaForGaussian(l0, linf, eps, del)
	g := pow2ceil(2 * sigma / math.Exp2(57))
	sqrtN := 2 * sigma / g
	add := func() (float64, error) { return n.AddNoiseFloat64(0, l0, linf, eps, del) }
	var step int64
	norm := 0.0
	offs := []func(s int64) int64{
		func(s int64) int64 { step = s; return 0 },
		func(s int64) int64 { return s / 4 },
		func(s int64) int64 { return s / 2 },
		func(s int64) int64 { return s/4*3 + 1 },
		func(s int64) int64 { return s - 1 },
	}
	cut := sqrtN * math.Sqrt(math.Log(sqrtN)/2)
	mass := 0.0
	// cells tile the integers: outcomes seen at the edges
	edges := map[[2]float64]float64{}
	for geo := 1.0; geo <= 8; geo++ {
		for _, sign := range []bool{false, true} {
			for oi, off := range offs {
				key := fmt.Sprintf("%s cell=%v negative=%v offset=%d", name, geo, sign, oi)
				c.StateS(key)
				v, ok := gaussRun(c, add, geo, sign, off, 1e-300)
				if !ok {
					// never accepted: beyond the cut
					c.Check((geo-1)*float64(step)+float64(step) > cut*(1-1e-9), key, "a cell inside the range is never accepted")
					continue
				}
				m := v / g
				if off(step) == 0 || oi == 4 {
					s := 1.0
					if sign {
						s = -1
					}
					edges[[2]float64{geo * s, float64(oi)}] = m
				}
				l, h := 1e-300, 1.0
				if _, ok := gaussRun(c, add, geo, sign, off, 1); ok {
					c.Fail(key, "accepted with certainty: the proposal does not cover the density")
					continue
				}
				for l < h*(1-1e-14) {
					mm := l + (h-l)/2
					if l < h/16 {
						mm = math.Sqrt(l * h)
					}
					if _, ok := gaussRun(c, add, geo, sign, off, mm); ok {
						l = mm
					} else {
						h = mm
					}
				}
				// probability of this integer, up to a constant
				p := l * math.Exp2(-geo)
				want := math.Exp(-2 * m * m / (sqrtN * sqrtN))
				if norm == 0 {
					norm = p / want
				}
				c.Check(math.Abs(p-norm*want) <= 1e-9*norm*want, key, "outcome %v has probability %v relative to the first, not %v", v, p/norm, want)
				if oi == 0 {
					mass += p
				}
			}
		}
	}
	// the cells are adjacent: each begins where the one before ends
	for k := 1.0; k <= 3; k++ {
		if a, ok := edges[[2]float64{k, 4}]; ok {
			if b, ok := edges[[2]float64{k + 1, 0}]; ok {
				c.Check(b-a == 1 || b > 1<<53 && b-a <= b*4e-16 && b >= a, name, "cell %v ends at %v, the next begins at %v", k, a, b)
			}
		}
		if a, ok := edges[[2]float64{-k, 0}]; ok {
			if b, ok := edges[[2]float64{-k - 1, 4}]; ok {
				c.Check(a-b == 1 || b < -(1<<53) && a-b <= -b*4e-16 && b <= a, name, "negative cell %v begins at %v, the next ends at %v", k, a, b)
			}
		}
	}
	a, ok1 := edges[[2]float64{1, 0}]
	b, ok2 := edges[[2]float64{-1, 4}]
	c.Check(ok1 && ok2 && a == 0 && b == -1, name, "the innermost cells meet at %v and %v", b, a)
	c.Trace(name)
	// values
	for _, x := range []float64{0, 1, -3.7, sigma * 12.3, -sigma * 1e7, g * 0.5, g * 0.75, -g * 1.25} {
		got, ok := gaussRun(c, func() (float64, error) { return n.AddNoiseFloat64(x, l0, linf, eps, del) }, 1, false, offs[2], 1e-300)
		v, _ := gaussRun(c, add, 1, false, offs[2], 1e-300)
		key := fmt.Sprintf("%s x=%v", name, x)
		c.StateS(key)
		c.Check(ok && math.Abs(got-v-x) <= g*0.5*(1+1e-12)+math.Abs(x)*3e-16+math.Abs(v)*3e-16, key, "moved to %v", got-v)
		c.Check(got/g == math.Trunc(got/g), key, "%v is not a multiple of %v", got, g)
	}
	if !integer {
		return
	}
	for geo := 1.0; geo <= 4; geo++ {
		for _, sign := range []bool{false, true} {
			for oi, off := range offs {
				ref, ok1 := gaussRun(c, add, geo, sign, off, 1e-300)
				if !ok1 || math.Abs(ref) > 1<<62 {
					continue
				}
				for _, x := range []int64{0, 1, -1, 7, -1000003, 1 << 40, -(1 << 53) - 1} {
					x := x
					got, ok := gaussRun(c, func() (float64, error) {
						r, err := n.AddNoiseInt64(x, l0, int64(linf), eps, del)
						return float64(r - x), err
					}, geo, sign, off, 1e-300)
					key := fmt.Sprintf("%s x=%d cell=%v %v %d", name, x, geo, sign, oi)
					if g < 1 {
						c.Check(ok && got == math.Round(ref), key, "noise %v, rounded from %v", got, ref)
					} else {
						c.Check(ok && math.Abs(got-ref) <= g/2+math.Abs(ref)*3e-16, key, "noise %v, from %v with granularity %v", got, ref, g)
					}
				}
			}
		}
	}
}

// runWide: sensitivities whose product leaves the integers are refused.
func runWide(c *Ctx) {
	for _, l0 := range []int64{1, 2, 3, 1 << 31, 1<<32 + 1, 1 << 62, math.MaxInt64} {
		for _, linf := range []int64{1, 2, 3, 1 << 31, 1<<32 + 1, 1 << 62, math.MaxInt64} {
			key := fmt.Sprintf("Laplace integers l0=%d linf=%d", l0, linf)
			c.StateS(key)
			c.Trace(key)
			v, _, _, ok := lapRun(c, func() (float64, error) {
				r, err := noise.Laplace().AddNoiseInt64(0, l0, linf, 1, 0)
				return float64(r), err
			}, []float64{0.5, 0.9}, tiny, nil)
			if !ok {
				c.Check(float64(l0)*float64(linf) > math.MaxInt64*(1-1e-15), key, "refused")
				continue
			}
			// a median draw has about the size of the scale
			sc := float64(l0) * float64(linf)
			if sc < 4e18 {
				c.Check(math.Abs(v) >= sc*0.05-1 && math.Abs(v) <= sc*20+1, key, "noise %v for a sensitivity of %v", v, sc)
			} else {
				c.Check(sc <= math.MaxInt64, key, "accepted although the sensitivity %v cannot be represented", sc)
			}
		}
	}
}

func init() {
	lists["G05"] = func(tier string) (out []map[string]any) {
		depth := 6
		if tier != "quick" {
			depth = 10
		}
		for _, e := range []float64{1e-6, 0.01, 0.3, 1, math.Log(3), 10, 300} {
			for _, l0 := range []int64{1, 3, 1000} {
				for _, linf := range []float64{1, 3, 0.001, 12345.678, 1e12, 1e-200, 1e200} {
					out = append(out, map[string]any{"eps": e, "l0": l0, "linf": linf, "depth": depth})
					if linf == math.Trunc(linf) && linf < 1e15 {
						out = append(out, map[string]any{"eps": e, "l0": l0, "linf": linf, "depth": depth, "int": true})
					}
					if e <= 10 {
						for _, d := range []float64{1e-9, 1e-5, 0.1} {
							out = append(out, map[string]any{"eps": e, "del": d, "l0": l0, "linf": linf, "int": linf == math.Trunc(linf) && linf < 1e15})
						}
					}
				}
			}
		}
		return append(out, map[string]any{"wide": true})
	}
	explorers["G05"] = func(c *Ctx, cs map[string]any) {
		if cs["wide"] != nil {
			runWide(c)
			return
		}
		in := cs["int"] == true
		if cs["del"] != nil {
			runGaussian(c, cs["eps"].(float64), cs["del"].(float64), cs["linf"].(float64), int64(cs["l0"].(float64)), in)
			return
		}
		runLaplace(c, cs["eps"].(float64), cs["linf"].(float64), int64(cs["l0"].(float64)), int(cs["depth"].(float64)), in)
	}
}
