package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/apache/beam/sdks/v2/go/pkg/beam"
	"github.com/google/differential-privacy/privacy-on-beam/v3/pbeam"
)

// plans of the runner: all combinations of order, spreading and coders.
func plans(all bool) []beam.Plan {
	var out []beam.Plan
	for _, r := range []bool{false, true} {
		for sp := 0; sp < 4; sp++ {
			for _, c := range []bool{false, true} {
				p := beam.Plan{Reverse: r, Split: sp, Coders: c}
				if !all {
					switch p {
					case beam.Plan{}, beam.Plan{Reverse: true, Split: 1, Coders: true}, beam.Plan{Split: 2}, beam.Plan{Split: 3, Coders: true}:
					default:
						continue
					}
				}
				out = append(out, p)
			}
		}
	}
	return out
}

// decide runs f with every sequence of decisions.
func decide(f func()) int {
	var prefix []int
	runs := 0
	for {
		var taken, width []int
		beam.Choose = func(n int) int {
			i := len(taken)
			v := 0
			if i < len(prefix) {
				v = prefix[i]
			}
			taken = append(taken, v)
			width = append(width, n)
			return v
		}
		f()
		runs++
		i := len(taken) - 1
		for i >= 0 && taken[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return runs
		}
		prefix = append(append([]int{}, taken[:i]...), taken[i]+1)
	}
}

// datasets: all multisets of up to n records, and some larger ones.
func datasets(agg string, n int) [][]Rec {
	var abc []Rec
	vals := []float64{-3, 2}
	if agg == "count" || agg == "distinctid" || agg == "select" || agg == "selectkv" {
		vals = []float64{2}
	}
	for _, u := range []int64{1, 2} {
		for _, p := range []string{"a", "b", "c"} {
			for _, v := range vals {
				abc = append(abc, Rec{u, p, v})
			}
		}
	}
	var out [][]Rec
	var rec func(at int, cur []Rec)
	rec = func(at int, cur []Rec) {
		out = append(out, append([]Rec{}, cur...))
		if len(cur) == n {
			return
		}
		for i := at; i < len(abc); i++ {
			rec(i, append(cur, abc[i]))
		}
	}
	rec(0, nil)
	out = append(out,
		[]Rec{{1, "a", 1}, {1, "b", 2}, {1, "c", 7}},
		[]Rec{{1, "b", 1}, {1, "b", 2}, {1, "b", 7}},
		[]Rec{{1, "b", 1}, {1, "b", 1}, {2, "b", 1}, {3, "b", 4}},
		[]Rec{{1, "a", 1}, {1, "a", -2}, {1, "b", 7}, {1, "z", 3}},
		[]Rec{{1, "a", 1}, {1, "b", 7}, {2, "a", 2}, {2, "b", 3}},
		[]Rec{{1, "b", 1}, {1, "z", 7}, {2, "b", 2}, {2, "z", 3}, {3, "z", 3}},
		[]Rec{{1, "b", 1}, {2, "b", 7}, {3, "b", 2}, {4, "b", 3}, {5, "b", -3}},
		[]Rec{{1, "b", 0.5}, {2, "b", 0.25}, {1, "b", 2.5}, {1, "z", 2.5}},
	)
	if agg == "sum" || agg == "distinctperkey" || agg == "selectkv" {
		out = out[:len(out)-1]
	}
	return out
}

func confs(agg, public string, tier string) []Conf {
	base := Conf{Agg: agg, Public: public, Eps: 1, SEps: 0.5, SD: 0.25, Lo: 0, Hi: 5, L0: 1, LInf: 1, U: 0.3}
	if strings_(agg) {
		base.Eps = 1
	}
	var out []Conf
	add := func(f func(*Conf)) {
		c := base
		f(&c)
		if c.Public != "" {
			c.SEps, c.SD, c.Pre = 0, 0, 0
		}
		if c.Gauss {
			c.Del = 0.125
			c.U = 0.05
			c.B = true
		}
		out = append(out, c)
	}
	bounds := [][2]int64{{1, 1}, {2, 1}, {1, 2}, {2, 2}}
	for _, b := range bounds {
		for mode := 0; mode < 3; mode++ {
			for _, g := range []bool{false, true} {
				if mode == 2 && b != [2]int64{1, 1} || mode > 0 && g {
					continue
				}
				add(func(c *Conf) { c.L0, c.LInf, c.Mode, c.Gauss = b[0], b[1], mode, g })
			}
		}
	}
	add(func(c *Conf) { c.B = true })                                           // noise of the other sign
	add(func(c *Conf) { c.B, c.L0, c.LInf, c.Eps = true, 2, 2, 2; c.Lo = -4 }) // negative values allowed
	add(func(c *Conf) { c.L0, c.LInf, c.Lo, c.Hi, c.Mode = 2, 2, -4, 2, 1 })
	add(func(c *Conf) { c.L0, c.LInf, c.Lo, c.Hi, c.Eps = 3, 2, -4, 2, 4 })
	add(func(c *Conf) { c.Key = "int"; c.L0, c.LInf = 2, 2 })
	add(func(c *Conf) { c.Key = "int"; c.L0, c.LInf, c.Mode = 2, 2, 1 })
	if public == "" {
		add(func(c *Conf) { c.U = 0.1 })
		add(func(c *Conf) { c.U, c.L0 = 0.6, 2 })
		add(func(c *Conf) { c.Pre, c.L0, c.U = 2, 2, 0.3 })
		add(func(c *Conf) { c.Pre, c.L0, c.U, c.SD = 2, 1, 0.02, 0.01 })
		add(func(c *Conf) { c.SEps, c.SD, c.U = 2, 0.01, 0.2; c.L0 = 2 })
		add(func(c *Conf) { c.Pre, c.Mode = 3, 1 })
	}
	return out
}

func strings_(a string) bool { return a == "select" || a == "selectkv" }

func init() {
	lists["B01"] = func(tier string) []map[string]any {
		var out []map[string]any
		for _, a := range allAggs {
			pubs := []string{"", "list", "array", "col"}
			if strings_(a) {
				pubs = []string{""}
			}
			for _, p := range pubs {
				out = append(out, map[string]any{"agg": a, "public": p, "tier": tier})
			}
		}
		return out
	}
	explorers["B01"] = func(c *Ctx, cs map[string]any) {
		tier := cs["tier"].(string)
		agg, public := cs["agg"].(string), cs["public"].(string)
		n := 2
		if tier != "quick" {
			n = 3
		}
		data := datasets(agg, n)
		for _, cf := range confs(agg, public, tier) {
			if strings_(agg) && (cf.Gauss) {
				continue
			}
			for _, recs := range data {
				b01(c, recs, cf, plans(tier != "quick"))
			}
		}
	}
}

func b01(c *Ctx, recs []Rec, cf Conf, ps []beam.Plan) {
	want := map[string]bool{}
	for _, k := range boundings(recs, cf) {
		want[reference(k, cf)] = true
	}
	name := fmt.Sprintf("%s public=%q", cf.Agg, cf.Public)
	for _, p := range ps {
		got := map[string]bool{}
		c.Transitions += decide(func() {
			beam.Run = p
			spec, err := newSpec(cf)
			if err != nil {
				got["spec refused: "+err.Error()] = true
				return
			}
			got[observe(recs, cf, spec)] = true
		})
		j, _ := json.Marshal(struct {
			C Conf
			P beam.Plan
			R []Rec
		}{cf, p, recs})
		for g := range got {
			c.StateS(string(j) + g)
		}
		c.Trace(fmt.Sprintf("%s %s -> %d outputs", name, j, len(got)))
		c.Evals++
		for _, g := range keys(got) {
			if !want[g] {
				c.Fail(name, "%s gives %q, which no admissible bounding of the contributions gives: %q", j, g, keys(want))
				return
			}
		}
		for _, w := range keys(want) {
			if !got[w] {
				c.Fail(name, "%s never gives %q, the aggregation of an admissible bounding; it gives %q", j, w, keys(got))
				return
			}
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = pbeam.TestModeDisabled
