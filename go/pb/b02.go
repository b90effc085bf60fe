package main

import (
	"fmt"
	"math"

	"github.com/apache/beam/sdks/v2/go/pkg/beam"
	"github.com/google/differential-privacy/privacy-on-beam/v3/pbeam"
)

// ask is one request of a budget history: an aggregation and what it asks for.
type ask struct {
	agg      string
	gauss    bool
	public   bool
	e, d     float64 // for the aggregation
	se, sd   float64 // for the partition selection
	owner    int     // which of two specs
	collName string
}

func (a ask) String() string {
	n := "laplace"
	if a.gauss {
		n = "gauss"
	}
	p := "private"
	if a.public {
		p = "public"
	}
	return fmt.Sprintf("%s(spec %d %s %s agg=%g,%g sel=%g,%g)", a.agg, a.owner, n, p, a.e, a.d, a.se, a.sd)
}

// purse is the model of a budget: what is left and whether anything was taken from it.
type purse struct {
	e, d    float64
	touched bool
}

func (p *purse) take(e, d float64) (float64, float64, bool) {
	if e == 0 && d == 0 {
		if p.touched {
			return 0, 0, false
		}
		e, d = p.e, p.d
	}
	if e > p.e || d > p.d {
		return 0, 0, false
	}
	p.e -= e
	p.d -= d
	p.touched = true
	return e, d, true
}

type purses struct{ agg, sel purse }

// grant decides with the model: what the aggregation runs with, or that it is refused.
func grant(m *purses, a ask) (Conf, bool) {
	cf := Conf{Agg: a.agg, Gauss: a.gauss, L0: 1, LInf: 1, Lo: 0, Hi: 5, U: 0.02, B: true}
	ok := true
	if a.agg != "select" && a.agg != "selectkv" {
		if cf.Eps, cf.Del, ok = m.agg.take(a.e, a.d); !ok {
			return cf, false
		}
	}
	if a.public {
		cf.Public = "list"
		if a.sd != 0 || a.se != 0 && a.agg != "distinctid" {
			return cf, false
		}
	} else {
		se := a.se
		if a.agg == "distinctid" {
			se = 0
		}
		if cf.SEps, cf.SD, ok = m.sel.take(se, a.sd); !ok {
			return cf, false
		}
		if a.agg != "distinctid" && cf.SEps <= 0 || cf.SD <= 0 {
			return cf, false
		}
	}
	if a.agg != "select" && a.agg != "selectkv" {
		if cf.Eps <= 0 || a.gauss != (cf.Del > 0) {
			return cf, false
		}
	}
	return cf, true
}

var threeUsers = []Rec{{1, "b", 2}, {2, "b", 2}, {3, "b", 2}}

// request runs the aggregation with what is asked.
func request(a ask, cf Conf, spec *pbeam.PrivacySpec) (string, bool) {
	cf.Eps, cf.Del, cf.SEps, cf.SD = a.e, a.d, a.se, a.sd
	cf.Loose = true
	got := observe(threeUsers, cf, spec)
	return got, !(len(got) > 10 && got[:11] == "panic: log.")
}

func public_(p bool) string {
	if p {
		return "list"
	}
	return ""
}

func asks(full bool) []ask {
	var out []ask
	for _, agg := range allAggs {
		if agg == "variancestats" && !full {
			continue
		}
		if strings_(agg) {
			for _, s := range [][2]float64{{0, 0}, {0.5, 0.25}, {1, 0.5}, {0.5, 0}, {0, 0.25}, {2, 0.25}, {0.25, 0.75}} {
				out = append(out, ask{agg: agg, se: s[0], sd: s[1] / 2})
			}
			continue
		}
		type r struct {
			g, p         bool
			e, d, se, sd float64
		}
		rs := []r{
			{false, true, 0, 0, 0, 0}, {false, true, 0.5, 0, 0, 0}, {true, true, 0.5, 0.25, 0, 0},
			{false, false, 0.5, 0, 0, 0}, {false, false, 0.5, 0, 0.5, 0.25}, {true, false, 0, 0, 0, 0},
		}
		if full {
			rs = append(rs, []r{
				{true, true, 0, 0, 0, 0}, {false, true, 1, 0, 0, 0}, {false, true, 0.25, 0, 0.5, 0.25}, {false, true, 0.25, 0, 0, 0.25}, {false, true, 2, 0, 0, 0},
				{false, true, 0.5, 0.25, 0, 0}, {true, true, 0.5, 0, 0, 0}, {true, true, 0, 0.25, 0, 0}, {true, true, 0.25, 0.75, 0, 0},
				{false, false, 0, 0, 0, 0}, {false, false, 0.5, 0, 0.5, 0}, {false, false, 0.5, 0, 0, 0.25}, {false, false, 0.5, 0, 1, 0.5}, {false, false, 0.5, 0, 2, 0.25},
				{false, false, 0.5, 0, 0.25, 0.75}, {true, false, 0.5, 0.25, 0.5, 0.25},
			}...)
		}
		for _, x := range rs {
			out = append(out, ask{agg: agg, gauss: x.g, public: x.p, e: x.e, d: x.d / 2, se: x.se, sd: x.sd / 2})
		}
	}
	return out
}

var specs = [][4]float64{{1, 0.25, 1, 0.25}, {1, 0, 1, 0.25}, {1, 0, 0, 0}, {0, 0, 1, 0.25}}

// history runs a sequence on fresh specs and compares every step with the model; it reports
// whether every step was accepted, and what is left.
func history(c *Ctx, sp [4]float64, seq []ask) (bool, [2]purses) {
	var real [2]*pbeam.PrivacySpec
	var model [2]purses
	for i := range real {
		s, err := pbeam.NewPrivacySpec(pbeam.PrivacySpecParams{AggregationEpsilon: sp[0], AggregationDelta: sp[1], PartitionSelectionEpsilon: sp[2], PartitionSelectionDelta: sp[3]})
		if err != nil {
			c.Fail("spec", "NewPrivacySpec(%v) is refused: %v", sp, err)
			return false, model
		}
		real[i] = s
		model[i] = purses{purse{e: sp[0], d: sp[1]}, purse{e: sp[2], d: sp[3]}}
	}
	for i, a := range seq {
		cf, ok := grant(&model[a.owner], a)
		got, accepted := request(a, cf, real[a.owner])
		c.Transitions++
		c.State("%v %v %v %v", sp, model, a.agg, ok)
		if accepted != ok {
			word := map[bool]string{true: "granted", false: "refused"}
			c.Fail(a.agg+" budget", "spec %v, after %v: %v is %s (%q) but the budget left says it must be %s", sp, seq[:i], a, word[accepted], got, word[ok])
			return false, model
		}
		if !ok {
			return false, model
		}
		if want := reference(boundings(threeUsers, cf)[0], cf); got != want {
			c.Fail(a.agg+" budget", "spec %v, after %v: %v gives %q; with the budget it is granted (%g,%g and %g,%g) it is %q", sp, seq[:i], a, got, cf.Eps, cf.Del, cf.SEps, cf.SD, want)
			return false, model
		}
	}
	c.Evals++
	return true, model
}

func init() {
	lists["B02"] = func(tier string) []map[string]any {
		var out []map[string]any
		for i := range specs {
			for _, agg := range allAggs {
				out = append(out, map[string]any{"kind": "pairs", "spec": float64(i), "first": agg, "tier": tier})
			}
		}
		for _, agg := range allAggs {
			out = append(out, map[string]any{"kind": "triples", "spec": 0.0, "first": agg, "tier": tier})
			out = append(out, map[string]any{"kind": "two specs", "spec": 0.0, "first": agg, "tier": tier})
			out = append(out, map[string]any{"kind": "parts", "spec": 0.0, "first": agg, "tier": tier})
		}
		out = append(out, map[string]any{"kind": "specs", "spec": 0.0, "first": "", "tier": tier})
		return out
	}
	explorers["B02"] = func(c *Ctx, cs map[string]any) {
		beam.Run = beam.Plan{}
		beam.Choose = func(n int) int { return 0 }
		ranks = []float64{0.5}
		sp := specs[int(cs["spec"].(float64))]
		first := cs["first"].(string)
		quick := cs["tier"].(string) == "quick"
		switch cs["kind"].(string) {
		case "pairs":
			as := asks(true)
			for _, a := range as {
				if a.agg != first {
					continue
				}
				if ok, left := history(c, sp, []ask{a}); !ok {
					continue
				} else {
					probe(c, sp, []ask{a}, left)
				}
				for _, b := range as {
					seq := []ask{a, b}
					if ok, left := history(c, sp, seq); ok {
						c.Trace(fmt.Sprint(sp, seq))
						probe(c, sp, seq, left)
					}
				}
			}
		case "triples":
			as := asks(false)
			if quick {
				var f []ask
				for _, a := range as {
					if a.e != 0 || a.se != 0 {
						f = append(f, a)
					}
				}
				as = f
			}
			var rec func(seq []ask)
			rec = func(seq []ask) {
				if len(seq) == 3 {
					return
				}
				for _, a := range as {
					if len(seq) == 0 && a.agg != first {
						continue
					}
					s := append(append([]ask{}, seq...), a)
					if ok, left := history(c, sp, s); ok {
						if len(s) == 3 {
							c.Trace(fmt.Sprint(sp, s))
							probe(c, sp, s, left)
						}
						rec(s)
					}
				}
			}
			rec(nil)
		case "two specs":
			as := asks(false)
			for _, a := range as {
				if a.agg != first {
					continue
				}
				for _, b := range as {
					b.owner = 1
					for _, d := range as {
						if d.agg != a.agg && d.agg != b.agg {
							continue
						}
						if ok, _ := history(c, sp, []ask{a, b, d}); ok {
							c.Trace(fmt.Sprint(sp, a, b, d))
						}
					}
				}
			}
		case "parts":
			// n parts of a whole: all of them are granted, one more is not
			for n := 1; n <= 40; n++ {
				for _, whole := range []float64{1, 0.7, 3} {
					parts(c, first, n, whole)
				}
			}
		case "specs":
			newSpecs(c)
		}
	}
}

// probe: exactly what is left is granted, slightly more is not.
func probe(c *Ctx, sp [4]float64, seq []ask, left [2]purses) {
	l := left[0]
	more := math.Ldexp(1, -12)
	var tries []ask
	if l.agg.e > 0 {
		tries = append(tries, ask{agg: "count", public: true, e: l.agg.e}, ask{agg: "count", public: true, e: l.agg.e + more})
		if l.agg.d > 0 {
			tries = append(tries, ask{agg: "count", gauss: true, public: true, e: l.agg.e, d: l.agg.d}, ask{agg: "count", gauss: true, public: true, e: l.agg.e, d: l.agg.d + more})
		}
	} else {
		tries = append(tries, ask{agg: "count", public: true, e: more})
	}
	if l.sel.e > 0 && l.sel.d > 0 {
		tries = append(tries, ask{agg: "select", se: l.sel.e, sd: l.sel.d}, ask{agg: "select", se: l.sel.e + more, sd: l.sel.d}, ask{agg: "select", se: l.sel.e, sd: l.sel.d + more})
	} else {
		tries = append(tries, ask{agg: "select", se: more, sd: more})
	}
	for _, t := range tries {
		history(c, sp, append(append([]ask{}, seq...), t))
	}
}

func parts(c *Ctx, agg string, n int, whole float64) {
	d := 0.2
	spec, err := pbeam.NewPrivacySpec(pbeam.PrivacySpecParams{AggregationEpsilon: whole, AggregationDelta: d, PartitionSelectionEpsilon: whole, PartitionSelectionDelta: d})
	if err != nil {
		c.Fail("spec", "refused: %v", err)
		return
	}
	for i := 0; i <= n; i++ {
		a := ask{agg: agg, gauss: true, e: whole / float64(n), d: d / float64(n), se: whole / float64(n), sd: d / float64(n)}
		if agg == "distinctid" {
			a.se = 0
		}
		cf := Conf{Agg: agg, Gauss: true, L0: 1, LInf: 1, Hi: 5, U: 0.02, B: true}
		got, ok := request(a, cf, spec)
		c.Transitions++
		c.State("parts %s %d %g %d", agg, n, whole, i)
		if ok != (i < n) {
			c.Fail(agg+" parts", "budget %g,%g in %d equal parts: request %d is answered %q", whole, d, n, i+1, got)
			return
		}
	}
	c.Trace(fmt.Sprintf("%s: %g in %d parts, one more refused", agg, whole, n))
	c.Evals++
}

// newSpecs: which budgets make a spec.
func newSpecs(c *Ctx) {
	es := []float64{0, math.Ldexp(1, -51), math.Ldexp(1, -50), 1, -1, math.Inf(1), math.NaN()}
	ds := []float64{0, 1e-300, 0.5, 1, 1.5, -0.1, math.NaN(), math.Inf(1)}
	// an epsilon that no aggregation could use may be refused or not
	valE := func(e float64) bool { return e == 0 || e >= math.Ldexp(1, -50) && !math.IsInf(e, 1) }
	valD := func(d float64) bool { return d >= 0 && d < 1 }
	for _, e := range es {
		for _, d := range ds {
			for _, se := range es {
				for _, sd := range ds {
					for _, pre := range []int64{-1, 0, 1, 10} {
						_, err := pbeam.NewPrivacySpec(pbeam.PrivacySpecParams{AggregationEpsilon: e, AggregationDelta: d, PartitionSelectionEpsilon: se, PartitionSelectionDelta: sd, PreThreshold: pre})
						c.Transitions++
						c.Evals++
						if e == es[1] || se == es[1] {
							continue
						}
						want := valE(e) && valD(d) && valE(se) && valD(sd) && pre >= 0 && (pre == 0 || sd > 0) && (e > 0 || se > 0) && (se == 0 || sd > 0)
						c.State("spec %v", want)
						if (err == nil) != want {
							c.Fail("new spec", "NewPrivacySpec(aggregation %g,%g selection %g,%g pre-threshold %d): error %v, valid: %v", e, d, se, sd, pre, err, want)
						}
					}
				}
			}
		}
	}
}
