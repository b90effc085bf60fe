package main

import (
	"fmt"

	"github.com/google/differential-privacy/go/v3/noise"
)

// call is one value handed to the noise.
type call struct {
	isInt          bool
	xi             int64
	x              float64
	l0             int64
	linf, eps, del float64
}

func (c call) String() string {
	return fmt.Sprintf("noise(%v; l0=%d linf=%v eps=%v delta=%v)", c.x, c.l0, c.linf, c.eps, c.del)
}

// recorder is a noise whose outcomes the harness decides.
type recorder struct {
	base  noise.Noise
	calls []call
	// off gives the noise of the k-th call.
	off func(k int) float64
	// offx gives it as a function of the value, instead.
	offx func(x float64) float64
	// offc gives it as a function of the call.
	offc func(c call) float64
	// abs is the noisy value itself, if set.
	abs *int64
}

func (r *recorder) offset() float64 {
	if r.offc != nil {
		return r.offc(r.calls[len(r.calls)-1])
	}
	if r.offx != nil {
		return r.offx(r.calls[len(r.calls)-1].x)
	}
	if r.off == nil {
		return 0
	}
	return r.off(len(r.calls) - 1)
}

func (r *recorder) AddNoiseInt64(x, l0, linf int64, eps, del float64) (int64, error) {
	r.calls = append(r.calls, call{true, x, float64(x), l0, float64(linf), eps, del})
	if r.abs != nil {
		return *r.abs, nil
	}
	return x + int64(r.offset()), nil
}

func (r *recorder) AddNoiseFloat64(x float64, l0 int64, linf, eps, del float64) (float64, error) {
	r.calls = append(r.calls, call{false, 0, x, l0, linf, eps, del})
	return x + r.offset(), nil
}

func (r *recorder) Threshold(l0 int64, linf, eps, nd, td float64) (float64, error) {
	return r.base.Threshold(l0, linf, eps, nd, td)
}

func (r *recorder) ComputeConfidenceIntervalInt64(x, l0, linf int64, eps, del, alpha float64) (noise.ConfidenceInterval, error) {
	return r.base.ComputeConfidenceIntervalInt64(x, l0, linf, eps, del, alpha)
}

func (r *recorder) ComputeConfidenceIntervalFloat64(x float64, l0 int64, linf, eps, del, alpha float64) (noise.ConfidenceInterval, error) {
	return r.base.ComputeConfidenceIntervalFloat64(x, l0, linf, eps, del, alpha)
}
