package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
)

// query asks the library for one number or decision; the reference is kept outside.
type query struct {
	Op           string
	G            bool
	L0, Linf, Xi int64
	Flinf, Eps   float64
	Del, Td, X   float64
	Alpha, Lo    float64
	Up, Off      float64
	Pre          int64
	Raws         []int64
}

func num(x float64) string { return strconv.FormatFloat(x, 'g', 17, 64) }

type deltaer interface {
	DeltaForThreshold(l0 int64, linf, eps, del, threshold float64) (float64, error)
}

func pair(ci noise.ConfidenceInterval, err error) []string {
	if err != nil {
		return []string{"error", err.Error()}
	}
	return []string{num(ci.LowerBound), num(ci.UpperBound)}
}

func one(x float64, err error) []string {
	if err != nil {
		return []string{"error", err.Error()}
	}
	return []string{num(x)}
}

func answer(q query) (out []string) {
	defer func() {
		if r := recover(); r != nil {
			out = []string{"panic", fmt.Sprint(r)}
		}
	}()
	n := params{gauss: q.G}.noise()
	switch q.Op {
	case "sigma":
		return one(noise.SigmaForGaussian(q.L0, q.Flinf, q.Eps, q.Del), nil)
	case "threshold":
		return one(n.Threshold(q.L0, q.Flinf, q.Eps, q.Del, q.Td))
	case "delta":
		d, ok := n.(deltaer)
		if !ok {
			return []string{"absent"}
		}
		return one(d.DeltaForThreshold(q.L0, q.Flinf, q.Eps, q.Del, q.X))
	case "cif":
		return pair(n.ComputeConfidenceIntervalFloat64(q.X, q.L0, q.Flinf, q.Eps, q.Del, q.Alpha))
	case "cii":
		return pair(n.ComputeConfidenceIntervalInt64(q.Xi, q.L0, q.Linf, q.Eps, q.Del, q.Alpha))
	case "keep":
		return decide(q, n)
	case "ci":
		return aggCI(q, n)
	}
	return []string{"error", "unknown"}
}

// decide lists, for every raw value, whether it is released when the noise is zero.
func decide(q query, n noise.Noise) (out []string) {
	for _, raw := range q.Raws {
		raw := raw
		rec := &recorder{base: n}
		r := "dropped"
		switch {
		case q.Linf == 0: // a float sum
			s, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Lower: -q.Flinf, Upper: q.Flinf, Noise: n})
			if err != nil {
				return []string{"error", err.Error()}
			}
			rec.offx = func(float64) float64 { return float64(raw) * q.X }
			s.Noise = rec
			v, err := s.ThresholdedResult(q.Td)
			if err != nil {
				return []string{"error", err.Error()}
			}
			if v != nil {
				r = "kept"
			}
		case q.Up != 0:
			s, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Lower: -q.Linf, Upper: q.Linf, Noise: n})
			if err != nil {
				return []string{"error", err.Error()}
			}
			rec.abs = &raw
			s.Noise = rec
			v, err := s.ThresholdedResult(q.Td)
			if err != nil {
				return []string{"error", err.Error()}
			}
			if v != nil {
				r = "kept"
			}
		default:
			c, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Noise: n})
			if err != nil {
				return []string{"error", err.Error()}
			}
			pre := q.Pre
			if pre > 0 {
				c.IncrementBy(pre)
			}
			rec.abs = &raw
			c.Noise = rec
			var v *int64
			if pre > 0 {
				v, err = c.PreThresholdedResult(pre, q.Td)
			} else {
				v, err = c.ThresholdedResult(q.Td)
			}
			if err != nil {
				return []string{"error", err.Error()}
			}
			if v != nil {
				r = "kept"
			}
		}
		out = append(out, r)
	}
	return
}

// aggCI gives the interval of an aggregation whose noisy value is Off (and Xi for the count of a mean), and what the noise says itself.
func aggCI(q query, n noise.Noise) []string {
	rec := &recorder{base: n}
	rec.offc = func(c call) float64 {
		if c.isInt {
			return float64(q.Xi)
		}
		return q.Off
	}
	switch int(q.X) {
	case 0:
		c, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Noise: n})
		if err != nil {
			return []string{"error", err.Error()}
		}
		c.Noise = rec
		r, _ := c.Result()
		c.Noise = n
		return append(append(pair(c.ComputeConfidenceInterval(q.Alpha)), pair(n.ComputeConfidenceIntervalInt64(r, rec.calls[0].l0, int64(rec.calls[0].linf), rec.calls[0].eps, rec.calls[0].del, q.Alpha))...), num(float64(r)))
	case 1:
		c, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Lower: int64(q.Lo), Upper: int64(q.Up), Noise: n})
		if err != nil {
			return []string{"error", err.Error()}
		}
		c.Noise = rec
		r, _ := c.Result()
		c.Noise = n
		return append(append(pair(c.ComputeConfidenceInterval(q.Alpha)), pair(n.ComputeConfidenceIntervalInt64(r, rec.calls[0].l0, int64(rec.calls[0].linf), rec.calls[0].eps, rec.calls[0].del, q.Alpha))...), num(float64(r)))
	case 2:
		c, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, Lower: q.Lo, Upper: q.Up, Noise: n})
		if err != nil {
			return []string{"error", err.Error()}
		}
		c.Noise = rec
		r, _ := c.Result()
		c.Noise = n
		return append(append(pair(c.ComputeConfidenceInterval(q.Alpha)), pair(n.ComputeConfidenceIntervalFloat64(r, rec.calls[0].l0, rec.calls[0].linf, rec.calls[0].eps, rec.calls[0].del, q.Alpha))...), num(r))
	}
	c, err := dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: q.Eps, Delta: q.Del, MaxPartitionsContributed: q.L0, MaxContributionsPerPartition: 1, Lower: q.Lo, Upper: q.Up, Noise: n})
	if err != nil {
		return []string{"error", err.Error()}
	}
	c.Count.Noise, c.NormalizedSum.Noise = rec, rec
	r, _ := c.Result()
	c.Count.Noise, c.NormalizedSum.Noise = n, n
	ci, err := c.ComputeConfidenceInterval(q.Alpha)
	out := append(pair(ci, err), num(r))
	// the smallest interval among those of the documented family, and the one nearest to what was returned
	var cc, sc call
	for _, x := range rec.calls {
		if x.isInt {
			cc = x
		} else {
			sc = x
		}
	}
	mid := q.Lo + (q.Up-q.Lo)/2
	best := math.Inf(1)
	contained := "no"
	tol := (math.Abs(q.Lo) + math.Abs(q.Up)) * 1e-9
	for i := 1; i < 1000; i++ {
		an := float64(i) / 1000 * q.Alpha
		ad := (q.Alpha - an) / (1 - an)
		s, err := n.ComputeConfidenceIntervalFloat64(sc.x+q.Off, sc.l0, sc.linf, sc.eps, sc.del, an)
		d, err2 := n.ComputeConfidenceIntervalInt64(cc.xi+q.Xi, cc.l0, int64(cc.linf), cc.eps, cc.del, ad)
		if err != nil || err2 != nil {
			continue
		}
		if q.Lo >= mid { // never: bounds of the normalized sum straddle zero
			continue
		}
		dl, du := math.Max(1, d.LowerBound), math.Max(1, d.UpperBound)
		lo := math.Min(s.LowerBound/dl, s.LowerBound/du)
		hi := math.Max(s.UpperBound/dl, s.UpperBound/du)
		lo, hi = clamp(lo+mid, q.Lo, q.Up), clamp(hi+mid, q.Lo, q.Up)
		best = math.Min(best, hi-lo)
		if ci.LowerBound <= lo+tol && ci.UpperBound >= hi-tol {
			contained = "yes"
		}
	}
	return append(out, num(best), contained)
}

func evalAll() {
	zeroNoise()
	var qs []query
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	out := make([][]string, len(qs))
	for i, q := range qs {
		out[i] = answer(q)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
