// Package distuv stands in for the part of gonum that the library uses.
package distuv

import "math"

var UnitNormal = Normal{Mu: 0, Sigma: 1}

type Normal struct {
	Mu, Sigma float64
	Src       any
}

func (n Normal) CDF(x float64) float64      { return 0.5 * math.Erfc(-(x-n.Mu)/(n.Sigma*math.Sqrt2)) }
func (n Normal) Survival(x float64) float64 { return 0.5 * math.Erfc((x-n.Mu)/(n.Sigma*math.Sqrt2)) }
func (n Normal) Prob(x float64) float64     { return math.Exp(n.LogProb(x)) }
func (n Normal) LogProb(x float64) float64 {
	d := (x - n.Mu) / n.Sigma
	return -0.5*d*d - math.Log(n.Sigma) - 0.5*math.Log(2*math.Pi)
}
func (n Normal) Quantile(p float64) float64 {
	if p < 0 || p > 1 {
		panic("distuv: bad percentile")
	}
	return n.Mu - n.Sigma*math.Sqrt2*math.Erfcinv(2*p)
}
func (n Normal) Mean() float64     { return n.Mu }
func (n Normal) StdDev() float64   { return n.Sigma }
func (n Normal) Variance() float64 { return n.Sigma * n.Sigma }
