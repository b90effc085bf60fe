package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/google/differential-privacy/go/v3/dpagg"
)

// Quantiles: every small dataset, every noise outcome from a menu on every node that is looked at.

// leafEdges lists, exactly, the smallest float of every leaf as the tree places values.
func quantVals(p params, leaves int) []float64 {
	w := (p.upper - p.lower) / float64(leaves)
	out := []float64{p.lower, p.upper, math.Nextafter(p.upper, math.Inf(-1)), math.Nextafter(p.lower, math.Inf(1)), math.NaN(), math.Inf(1), math.Inf(-1)}
	for _, i := range []int{0, 1, leaves / 2, leaves - 1} {
		out = append(out, p.lower+w*(float64(i)+0.5))
	}
	return out
}

func quantParams() (out []params) {
	for _, b := range []bnd{{0, 1}, {-1, 1}, {-2, 7}, {-1e16, 1}, {3, 3.5}, {-1e300, 1e-300}, {1e15, 1e15 + 2}} {
		for _, sh := range [][2]int{{1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {1, 7}, {4, 2}} {
			p := base()
			p.lower, p.upper, p.height, p.br = b.lo, b.up, sh[0], sh[1]
			out = append(out, p)
		}
	}
	return
}

func newQuant(p params) (*dpagg.BoundedQuantiles, error) {
	return dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: p.eps, Delta: p.del, MaxPartitionsContributed: p.l0, MaxContributionsPerPartition: p.linf,
		Lower: p.lower, Upper: p.upper, Noise: p.noise(), TreeHeight: p.height, BranchingFactor: p.br})
}

// runQuantData: no noise; the result lies in the leaf of the value at that rank.
func runQuantData(c *Ctx, p params, size int) {
	zeroNoise()
	leaves := int(math.Pow(float64(p.br), float64(p.height)))
	menu := quantVals(p, leaves)
	w := (p.upper - p.lower) / float64(leaves)
	for _, ds := range multisets(len(menu), size) {
		q, err := newQuant(p)
		key := fmt.Sprintf("tree %d^%d bounds=[%v,%v] values=%v", p.br, p.height, p.lower, p.upper, sel(ds, menu))
		if !c.Check(err == nil, key, "%v", err) {
			return
		}
		var xs []float64
		for _, k := range ds {
			c.Transitions++
			if err := q.Add(menu[k]); !c.Check(err == nil, key, "%v", err) {
				return
			}
			if !math.IsNaN(menu[k]) {
				xs = append(xs, clamp(menu[k], p.lower, p.upper))
			}
		}
		sort.Float64s(xs)
		rec := &recorder{}
		q.Noise = rec
		last := math.Inf(-1)
		ulps := (math.Abs(p.lower) + math.Abs(p.upper)) * 4e-16 // interpolation rounds
		c.StateS(key)
		for _, r := range []float64{0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1} {
			v, err := q.Result(r)
			if !c.Check(err == nil && v >= p.lower-ulps && v <= p.upper+ulps, key, "rank %v gives %v: %v", r, v, err) {
				break
			}
			c.Check(v >= last-ulps, key, "rank %v gives %v, a smaller rank %v", r, v, last)
			last = v
			if len(xs) == 0 {
				mid := p.lower + (p.upper-p.lower)*clamp(r, 0.005, 0.995)
				c.Check(math.Abs(v-mid) <= (p.upper-p.lower)*1e-9+ulps, key, "no data: rank %v gives %v, not %v", r, v, mid)
				continue
			}
			// the value at this rank, with slack for the boundary cases of equal rank
			n := float64(len(xs))
			a := int(math.Floor(r*n - 1e-4))
			b := int(math.Floor(r*n + 1e-4))
			lo, hi := xs[clampInt(a, 0, len(xs)-1)], xs[clampInt(b, 0, len(xs)-1)]
			if r*n < 1e-4 {
				lo, hi = xs[0], xs[0]
			}
			t := w*(1+1e-6) + math.Abs(p.lower)*1e-15
			if math.Abs(r*n-math.Round(r*n)) < 1e-4 && a >= 0 && a < len(xs)-1 {
				hi = xs[a+1]
			}
			c.Check(v >= lo-t && v <= hi+t, key, "rank %v gives %v; the values at this rank are within [%v, %v], a leaf is %v wide", r, v, lo, hi, w)
		}
		c.Trace(key)
	}
}

func clampInt(x, a, b int) int {
	if x < a {
		return a
	}
	if x > b {
		return b
	}
	return x
}

// runQuantNoise: every assignment of noise from a menu to the nodes, compared with the reference.
func runQuantNoise(c *Ctx, p params, ds []float64, menu []float64, first int) {
	zeroNoise()
	// nodes are noised when first looked at: outcomes are chosen in that order, depth first
	var walk func(script []int)
	rs := []float64{0.5, 0, 1, 0.13, 0.31, 0.77}
	exec := func(script []int) int {
		q, err := newQuant(p)
		if err != nil {
			c.Fail("quantiles", "%v", err)
			return 0
		}
		for _, x := range ds {
			q.Add(x)
		}
		rec := &recorder{}
		rec.off = func(k int) float64 {
			if k < len(script) {
				return menu[script[k]]
			}
			return menu[0]
		}
		q.Noise = rec
		key := fmt.Sprintf("tree %d^%d values=%v noise=%v", p.br, p.height, ds, script)
		type rv struct{ r, v float64 }
		var got []rv
		for pass := 0; pass < 2; pass++ {
			before := len(rec.calls)
			for i, r := range rs {
				v, err := q.Result(r)
				c.Transitions++
				c.Check(err == nil && v >= p.lower-1e-9 && v <= p.upper+1e-9, key, "rank %v gives %v: %v", r, v, err)
				if pass == 1 {
					c.Check(v == got[i].v, key, "rank %v gives %v, and %v when asked again", r, got[i].v, v)
				} else {
					got = append(got, rv{r, v})
				}
			}
			c.Check(pass == 0 || len(rec.calls) == before, key, "asking again draws noise again")
		}
		nodes := 0
		for l, m := 1, p.br; l <= p.height; l, m = l+1, m*p.br {
			nodes += m
		}
		c.Check(len(rec.calls) <= nodes, key, "%d draws for %d nodes", len(rec.calls), nodes)
		s := append([]rv{}, got...)
		sort.Slice(s, func(i, j int) bool { return s[i].r < s[j].r })
		for i := 1; i < len(s); i++ {
			c.Check(s[i-1].v <= s[i].v*(1+1e-12)+1e-12, key, "rank %v gives %v, rank %v gives %v", s[i-1].r, s[i-1].v, s[i].r, s[i].v)
		}
		c.StateS(key)
		c.Trace(key)
		return len(rec.calls)
	}
	walk = func(script []int) {
		n := exec(script)
		for pos := len(script); pos < n; pos++ {
			for v := 1; v < len(menu); v++ {
				s := append([]int{}, script...)
				for len(s) < pos {
					s = append(s, 0)
				}
				walk(append(s, v))
			}
		}
	}
	if first == 0 {
		// all scripts with the first outcome 0: start without one, and skip position 0
		n := exec(nil)
		for pos := 1; pos < n; pos++ {
			for v := 1; v < len(menu); v++ {
				walk(append(make([]int, pos), v))
			}
		}
		return
	}
	walk([]int{first})
}

// runQuantRef: noise that is a function of the count of a node, for every function on the counts that occur; compared with the reference.
func runQuantRef(c *Ctx, p params, ds []float64, menu []float64) {
	zeroNoise()
	counts := []float64{}
	for x := 0; x <= len(ds); x++ {
		counts = append(counts, float64(x))
	}
	f := map[float64]float64{}
	idx := make([]int, len(counts))
	used := map[float64]bool{}
	for {
		for i, k := range idx {
			f[counts[i]] = menu[k]
		}
		q, err := newQuant(p)
		key := fmt.Sprintf("tree %d^%d values=%v noise by count=%v", p.br, p.height, ds, f)
		if !c.Check(err == nil, key, "%v", err) {
			return
		}
		for _, x := range ds {
			q.Add(x)
		}
		q.Noise = &recorder{offx: func(x float64) float64 { used[x] = true; return f[x] }}
		for _, r := range []float64{0.5, 0, 1, 0.13, 0.31, 0.77} {
			v, err := q.Result(r)
			c.Transitions++
			ref := quantRefCount(p, ds, r, func(n float64) float64 { return f[n] })
			c.Check(err == nil && math.Abs(ref-v) <= 1e-9*(math.Abs(p.lower)+math.Abs(p.upper)), key, "rank %v gives %v, the reference %v: %v", r, v, ref, err)
		}
		c.StateS(key)
		c.Trace(key)
		i := 0
		for ; i < len(idx); i++ {
			if !used[counts[i]] {
				continue
			}
			if idx[i]++; idx[i] < len(menu) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			return
		}
	}
}

// runQuantEdge: one level of nodes, every assignment of noised counts from a menu around the fraction below which a child counts as empty.
// At exactly that fraction either reading is accepted, but one of them everywhere.
func runQuantEdge(c *Ctx, br int, menu []float64, first int) {
	zeroNoise()
	p := base()
	p.lower, p.upper, p.height, p.br = 0, 8, 1, br
	idx := make([]int, br)
	idx[0] = first
	for {
		counts := make([]float64, br)
		for i, k := range idx {
			counts[i] = menu[k]
		}
		key := fmt.Sprintf("one level of %d nodes, noised counts %v", br, counts)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail(key, "the search fails: %v", e)
				}
			}()
			q, err := newQuant(p)
			if !c.Check(err == nil, key, "%v", err) {
				return
			}
			n := 0
			q.Noise = &recorder{offx: func(x float64) float64 {
				if n++; n > 100*br || int(x) >= br {
					panic("more nodes than the tree has are looked at")
				}
				return counts[int(x)] - x
			}}
			for i := 0; i < br; i++ { // entries tell the nodes apart
				for k := 0; k < i; k++ {
					q.Add((float64(i) + 0.5) * 8 / float64(br))
				}
			}
			last := math.Inf(-1)
			for _, r := range []float64{0, 0.005, 0.25, 0.5, 0.75, 0.985, 0.995, 1} {
				v, err := q.Result(r)
				c.Transitions++
				near := false
				var refs [2]float64
				for i, a := range []float64{0.0075 * (1 - 1e-9), 0.0075 * (1 + 1e-9)} {
					refs[i] = quantRefNodes(counts, r, a, 8)
					near = near || math.Abs(refs[i]-v) <= 1e-7
				}
				c.Check(err == nil && near, key, "rank %v gives %v, the reference %v: %v", r, v, refs, err)
				c.Check(v >= last-1e-7 && v >= 0 && v <= 8, key, "rank %v gives %v, a smaller rank %v", r, v, last)
				last = v
			}
			c.StateS(key)
		}()
		c.Trace(key)
		i := 1
		for ; i < br; i++ {
			if idx[i]++; idx[i] < len(menu) {
				break
			}
			idx[i] = 0
		}
		if i == br {
			return
		}
	}
}

func quantRefNodes(counts []float64, rank, alpha, width float64) float64 {
	rank = clamp(rank, 0.005, 0.995)
	tot, kept := 0.0, 0.0
	for _, v := range counts {
		tot += math.Max(0, v)
	}
	for _, v := range counts {
		if v >= tot*alpha {
			kept += v
		}
	}
	w := width / float64(len(counts))
	if kept == 0 {
		return rank * width
	}
	part := 0.0
	for j, v := range counts {
		if v < tot*alpha {
			continue
		}
		if (part+v)/kept >= rank-1e-6 {
			return w * (float64(j) + clamp((rank-part/kept)/(v/kept), 0, 1))
		}
		part += v
	}
	return math.NaN()
}

var edgeMenu = []float64{0, 3, 394, 397, 400, 2.9999, -3, 1}

var refDatasets = [][]float64{{0.5}, {0.5, 0.5, 6.5}, {0.5, 0.5, 0.5, 0.5, 1.5, 1.5, 4.5}, {7.9, 7.9, 7.9, 3.1, 3.1, 2.9}}
var noiseDatasets = [][]float64{{}, {0.5}, {0.5, 6.5}, {1, 1, 1, 5}}
var noiseMenu = []float64{0, 2, -3, 400}

func init() {
	lists["G07"] = func(tier string) (out []map[string]any) {
		for i := range quantParams() {
			out = append(out, map[string]any{"data": i, "deep": tier != "quick"})
		}
		for i := range noiseDatasets {
			for s, sh := range [][2]int{{1, 2}, {1, 3}, {2, 2}, {1, 5}, {3, 2}, {2, 3}} {
				if tier == "quick" && s > 3 {
					continue
				}
				m := len(noiseMenu)
				if s >= 4 {
					m = 2
				}
				for f := 0; f < m; f++ {
					out = append(out, map[string]any{"noise": i, "height": sh[0], "br": sh[1], "first": f, "menu": m})
				}
			}
		}
		for br := 2; br <= 4; br++ {
			for f := range edgeMenu {
				out = append(out, map[string]any{"edge": br, "first": f})
			}
		}
		for i := range refDatasets {
			for _, sh := range [][2]int{{1, 2}, {1, 3}, {2, 2}, {1, 5}, {3, 2}, {2, 3}, {1, 8}} {
				out = append(out, map[string]any{"ref": i, "height": sh[0], "br": sh[1], "deep": tier != "quick"})
			}
		}
		return
	}
	explorers["G07"] = func(c *Ctx, cs map[string]any) {
		if cs["data"] != nil {
			size := 4
			if cs["deep"].(bool) {
				size = 6
			}
			runQuantData(c, quantParams()[int(cs["data"].(float64))], size)
			return
		}
		if cs["edge"] != nil {
			runQuantEdge(c, int(cs["edge"].(float64)), edgeMenu, int(cs["first"].(float64)))
			return
		}
		if cs["ref"] != nil {
			p := base()
			p.lower, p.upper, p.height, p.br = 0, 8, int(cs["height"].(float64)), int(cs["br"].(float64))
			menu := []float64{0, 2, -3, 400, 0.005}
			if cs["deep"].(bool) {
				menu = append(menu, -1, 1)
			}
			runQuantRef(c, p, refDatasets[int(cs["ref"].(float64))], menu)
			return
		}
		p := base()
		p.lower, p.upper, p.height, p.br = 0, 8, int(cs["height"].(float64)), int(cs["br"].(float64))
		runQuantNoise(c, p, noiseDatasets[int(cs["noise"].(float64))], noiseMenu[:int(cs["menu"].(float64))], int(cs["first"].(float64)))
	}
}
