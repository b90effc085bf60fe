package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/apache/beam/sdks/v2/go/pkg/beam"
	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
	"github.com/google/differential-privacy/privacy-on-beam/v3/pbeam"
)

// Rec is a record of the input: a user, a partition and a value.
type Rec struct {
	User int64
	Part string
	Val  float64
}

var allAggs = []string{"count", "distinctid", "sum", "sumfloat", "mean", "quantiles", "variance", "variancestats", "distinctperkey", "select", "selectkv"}

// Conf is what an aggregation is asked.
type Conf struct {
	Agg      string
	Gauss    bool
	Public   string // "", "list", "array" or "col"
	Mode     int    // test mode
	L0, LInf int64
	Lo, Hi   float64
	Eps, Del float64 // aggregation
	SEps, SD float64 // partition selection
	Pre      int64
	U        float64 // what Uniform draws
	B        bool    // what Boolean draws
	Loose    bool    // ask for a selection budget with public partitions too
	Key      string  // type of the partition key: "" (string) or "int"
}

var publicParts = []string{"b", "z"}

func setDraws(cf Conf) {
	// Noise draws from a stream that starts again with every sample, partition selection
	// always draws the same: outputs do not depend on the order of the partitions.
	pos := 0
	rand.OnUniform = func() float64 {
		_, file, _, _ := runtime.Caller(2)
		if !strings.Contains(file, "/noise/") {
			return cf.U
		}
		if cf.Gauss {
			return 0.005
		}
		pos++
		return math.Mod(0.4+0.6180339887*float64(pos-1), 1)
	}
	rand.OnBoolean = func() bool { pos = 0; return cf.B }
	rand.OnGeometric = func() float64 { return 1 }
	rand.OnI63n = func(n int64) int64 { return n / 4 }
	rand.OnNormal = func() float64 { return 0.75 }
	rand.OnU64 = func() uint64 { return 12345 }
	rand.OnU8 = func() uint8 { return 7 }
}

func (cf Conf) kind() noise.Kind {
	if cf.Gauss {
		return noise.GaussianNoise
	}
	return noise.LaplaceNoise
}

func (cf Conf) pkind() pbeam.NoiseKind {
	if cf.Gauss {
		return pbeam.GaussianNoise{}
	}
	return pbeam.LaplaceNoise{}
}

// plain is the noise of the test modes: none.
type plain struct{}

func (plain) AddNoiseInt64(x, _, _ int64, _, _ float64) (int64, error)              { return x, nil }
func (plain) AddNoiseFloat64(x float64, _ int64, _, _, _ float64) (float64, error) { return x, nil }
func (plain) Threshold(_ int64, _, _, _, _ float64) (float64, error)                { return 0, nil }
func (plain) ComputeConfidenceIntervalInt64(x, _, _ int64, _, _, _ float64) (noise.ConfidenceInterval, error) {
	return noise.ConfidenceInterval{}, nil
}
func (plain) ComputeConfidenceIntervalFloat64(x float64, _ int64, _, _, _, _ float64) (noise.ConfidenceInterval, error) {
	return noise.ConfidenceInterval{}, nil
}

var ranks = []float64{0, 0.5, 1}

func keyOf(cf Conf, p string) any {
	if cf.Key == "int" {
		return int64(p[0])
	}
	return p
}

func toKV(r Rec) (string, float64)        { return r.Part, r.Val }
func toKVInt(r Rec) (string, int64)       { return r.Part, int64(r.Val) }
func toIntKV(r Rec) (int64, float64)      { return int64(r.Part[0]), r.Val }
func toIntKVInt(r Rec) (int64, int64)     { return int64(r.Part[0]), int64(r.Val) }
func toK(r Rec) string                    { return r.Part }
func toIntK(r Rec) int64                  { return int64(r.Part[0]) }

func makePrivate(s beam.Scope, recs []Rec, spec *pbeam.PrivacySpec) pbeam.PrivatePCollection {
	var ks, vs []any
	for _, r := range recs {
		ks = append(ks, r.User)
		vs = append(vs, r)
	}
	return pbeam.MakePrivate(s, beam.NewKV(reflect.TypeOf(int64(0)), reflect.TypeOf(Rec{}), ks, vs), spec)
}

func needsKV(agg string) bool { return agg != "count" && agg != "distinctid" && agg != "select" }

// prepared is the private collection in the form the aggregation takes.
func prepared(s beam.Scope, recs []Rec, spec *pbeam.PrivacySpec, cf Conf) pbeam.PrivatePCollection {
	p := makePrivate(s, recs, spec)
	ints := cf.Agg == "sum" || cf.Agg == "distinctperkey" || cf.Agg == "selectkv"
	switch {
	case !needsKV(cf.Agg) && cf.Key == "int":
		return pbeam.ParDo(s, toIntK, p)
	case !needsKV(cf.Agg):
		return pbeam.ParDo(s, toK, p)
	case cf.Key == "int" && ints:
		return pbeam.ParDo(s, toIntKVInt, p)
	case cf.Key == "int":
		return pbeam.ParDo(s, toIntKV, p)
	case ints:
		return pbeam.ParDo(s, toKVInt, p)
	}
	return pbeam.ParDo(s, toKV, p)
}

func (cf Conf) public(s beam.Scope) any {
	var list any = append([]string{}, publicParts...)
	if cf.Key == "int" {
		list = []int64{int64(publicParts[0][0]), int64(publicParts[1][0])}
	}
	switch cf.Public {
	case "":
		return nil
	case "array":
		if cf.Key == "int" {
			return [2]int64{int64(publicParts[0][0]), int64(publicParts[1][0])}
		}
		return [2]string{publicParts[0], publicParts[1]}
	case "col":
		return beam.CreateList(s, list)
	}
	return list
}

// aggregate asks the library.
func aggregate(s beam.Scope, p pbeam.PrivatePCollection, cf Conf) beam.PCollection {
	sel := pbeam.PartitionSelectionParams{Epsilon: cf.SEps, Delta: cf.SD}
	pub := cf.public(s)
	if pub != nil && !cf.Loose {
		sel = pbeam.PartitionSelectionParams{}
	}
	k := cf.pkind()
	switch cf.Agg {
	case "count":
		return pbeam.Count(s, p, pbeam.CountParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MaxValue: cf.LInf, AllowNegativeOutputs: cf.Lo < 0})
	case "distinctid":
		return pbeam.DistinctPrivacyID(s, p, pbeam.DistinctPrivacyIDParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionDelta: sel.Delta,
			PublicPartitions: pub, MaxPartitionsContributed: cf.L0})
	case "sum", "sumfloat":
		return pbeam.SumPerKey(s, p, pbeam.SumParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MinValue: cf.Lo, MaxValue: cf.Hi})
	case "mean":
		return pbeam.MeanPerKey(s, p, pbeam.MeanParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, MinValue: cf.Lo, MaxValue: cf.Hi})
	case "quantiles":
		return pbeam.QuantilesPerKey(s, p, pbeam.QuantilesParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, MinValue: cf.Lo, MaxValue: cf.Hi, Ranks: ranks})
	case "variance", "variancestats":
		vp := pbeam.VarianceParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, MinValue: cf.Lo, MaxValue: cf.Hi}
		if cf.Agg == "variance" {
			return pbeam.VariancePerKey(s, p, vp)
		}
		return pbeam.VarianceStatisticsPerKey(s, p, vp)
	case "distinctperkey":
		return pbeam.DistinctPerKey(s, p, pbeam.DistinctPerKeyParams{NoiseKind: k, AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionParams: sel, PublicPartitions: pub,
			MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf})
	case "select", "selectkv":
		return pbeam.SelectPartitions(s, p, pbeam.SelectPartitionsParams{Epsilon: cf.SEps, Delta: cf.SD, MaxPartitionsContributed: cf.L0})
	}
	panic("unknown aggregation " + cf.Agg)
}

func render(elms []beam.Elm, keyed bool) string {
	var out []string
	for _, e := range elms {
		if keyed {
			out = append(out, fmt.Sprintf("%v=%v", e.K, e.V))
		} else {
			out = append(out, fmt.Sprintf("%v", e.V))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// observe runs one pipeline and gives its output, or why there is none.
func observe(recs []Rec, cf Conf, spec *pbeam.PrivacySpec) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	setDraws(cf)
	s := beam.NewPipeline().Root()
	res := aggregate(s, prepared(s, recs, spec, cf), cf)
	return render(beam.Elements(res), !strings.HasPrefix(cf.Agg, "select"))
}

func newSpec(cf Conf) (*pbeam.PrivacySpec, error) {
	p := pbeam.PrivacySpecParams{AggregationEpsilon: cf.Eps, AggregationDelta: cf.Del, PartitionSelectionEpsilon: cf.SEps, PartitionSelectionDelta: cf.SD,
		PreThreshold: cf.Pre, TestMode: pbeam.TestMode(cf.Mode)}
	if cf.Public != "" {
		p.PartitionSelectionEpsilon, p.PartitionSelectionDelta, p.PreThreshold = 0, 0, 0
	}
	if strings.HasPrefix(cf.Agg, "select") {
		p.AggregationEpsilon, p.AggregationDelta = 0, 0
	}
	return pbeam.NewPrivacySpec(p)
}

// ------------------------------------------------------------ the reference

// kept is what a bounding leaves: partition -> user -> values.
type kept map[string]map[int64][]float64

func (cf Conf) isPublic(p string) bool {
	for _, q := range publicParts {
		if p == q {
			return true
		}
	}
	return false
}

func subsets(n, k int) [][]int {
	if k > n {
		k = n
	}
	var out [][]int
	var rec func(at int, cur []int)
	rec = func(at int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := at; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return out
}

// boundings lists everything contribution bounding may leave of the records.
func boundings(recs []Rec, cf Conf) []kept {
	type up struct {
		u int64
		p string
	}
	data := map[int64]map[string][]float64{}
	var users []int64
	for _, r := range recs {
		if cf.Public != "" && !cf.isPublic(r.Part) {
			continue
		}
		if data[r.User] == nil {
			data[r.User] = map[string][]float64{}
			users = append(users, r.User)
		}
		data[r.User][r.Part] = append(data[r.User][r.Part], r.Val)
	}
	limited := cf.Mode != 2
	perPart := limited && (cf.Agg == "mean" || cf.Agg == "quantiles" || cf.Agg == "variance" || cf.Agg == "variancestats" || cf.Agg == "distinctperkey")
	res := []kept{{}}
	for _, u := range users {
		var parts []string
		for p := range data[u] {
			parts = append(parts, p)
		}
		sort.Strings(parts)
		n := len(parts)
		if limited {
			n = int(cf.L0)
		}
		var options []map[string][]float64 // of this user
		for _, sub := range subsets(len(parts), n) {
			cur := []map[string][]float64{{}}
			for _, i := range sub {
				vals := data[u][parts[i]]
				m := len(vals)
				if perPart {
					m = int(cf.LInf)
				}
				var next []map[string][]float64
				for _, vs := range subsets(len(vals), m) {
					var pick []float64
					for _, j := range vs {
						pick = append(pick, vals[j])
					}
					for _, c := range cur {
						d := map[string][]float64{parts[i]: pick}
						for k, v := range c {
							d[k] = v
						}
						next = append(next, d)
					}
				}
				cur = next
			}
			options = append(options, cur...)
		}
		var next []kept
		for _, base := range res {
			for _, o := range options {
				d := kept{}
				for p, m := range base {
					d[p] = map[int64][]float64{}
					for a, b := range m {
						d[p][a] = b
					}
				}
				for p, vs := range o {
					if d[p] == nil {
						d[p] = map[int64][]float64{}
					}
					d[p][u] = vs
				}
				next = append(next, d)
			}
		}
		res = next
	}
	return res
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("reference: %v", err))
	}
	return v
}

func ck(err error) {
	if err != nil {
		panic(fmt.Sprintf("reference: %v", err))
	}
}

// reference aggregates directly with the Go library.
func reference(k kept, cf Conf) string {
	setDraws(cf)
	n := noise.ToNoise(cf.kind())
	if cf.Mode != 0 {
		n = plain{}
	}
	parts := map[string]bool{}
	for p := range k {
		parts[p] = true
	}
	if cf.Public != "" {
		parts = map[string]bool{}
		for _, p := range publicParts {
			parts[p] = true
		}
	}
	var out []string
	for p := range parts {
		users := k[p]
		if cf.Public == "" && cf.Mode == 0 && cf.Agg != "distinctid" {
			sp := must(dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: cf.SEps, Delta: cf.SD, PreThreshold: cf.Pre, MaxPartitionsContributed: cf.L0}))
			for range users {
				ck(sp.Increment())
			}
			if !must(sp.ShouldKeepPartition()) {
				continue
			}
		}
		lo, hi := cf.Lo, cf.Hi
		if cf.Mode == 2 && len(users) > 0 {
			lo, hi = math.Inf(-1), math.Inf(1)
		}
		var v any
		switch cf.Agg {
		case "select", "selectkv":
			out = append(out, fmt.Sprint(keyOf(cf, p)))
			continue
		case "count", "distinctperkey":
			l, h := int64(0), cf.LInf
			if cf.Mode == 2 {
				l, h = math.MinInt64, math.MaxInt64
			}
			bs := must(dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, Lower: l, Upper: h, Noise: n}))
			if cf.Agg == "count" {
				for _, vs := range users {
					ck(bs.Add(int64(len(vs))))
				}
			} else {
				// every distinct value, by one of the users that have it
				seen := map[float64]bool{}
				per := map[int64]int64{}
				for u, vs := range users {
					for _, x := range vs {
						if !seen[x] {
							seen[x] = true
							per[u]++
						}
					}
				}
				for _, c := range per {
					ck(bs.Add(c))
				}
			}
			r := must(bs.Result())
			if r < 0 && (cf.Agg == "distinctperkey" || cf.Lo >= 0) {
				r = 0
			}
			v = r
		case "distinctid":
			c := must(dpagg.NewCount(&dpagg.CountOptions{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, Noise: n}))
			for range users {
				ck(c.Increment())
			}
			var r int64
			if cf.Public != "" {
				r = must(c.Result())
			} else {
				q := must(c.PreThresholdedResult(cf.Pre, cf.SD))
				if q == nil {
					continue
				}
				r = *q
			}
			if r < 0 {
				r = 0
			}
			v = r
		case "sum":
			l, h := int64(cf.Lo), int64(cf.Hi)
			if cf.Mode == 2 {
				l, h = math.MinInt64, math.MaxInt64
			}
			bs := must(dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, Lower: l, Upper: h, Noise: n}))
			for _, vs := range users {
				var t int64
				for _, x := range vs {
					t += int64(x)
				}
				ck(bs.Add(t))
			}
			r := must(bs.Result())
			if r < 0 && cf.Lo >= 0 {
				r = 0
			}
			v = r
		case "sumfloat":
			if cf.Mode == 2 {
				lo, hi = math.Inf(-1), math.Inf(1)
			}
			bs := must(dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, Lower: lo, Upper: hi, Noise: n}))
			for _, vs := range users {
				t := 0.0
				for _, x := range vs {
					t += x
				}
				ck(bs.Add(t))
			}
			r := must(bs.Result())
			if r < 0 && cf.Lo >= 0 {
				r = 0
			}
			v = r
		case "mean":
			bm := must(dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, Lower: lo, Upper: hi, Noise: n}))
			for _, vs := range users {
				for _, x := range vs {
					ck(bm.Add(x))
				}
			}
			v = must(bm.Result())
		case "quantiles":
			bq := must(dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, Lower: cf.Lo, Upper: cf.Hi, Noise: n}))
			for _, vs := range users {
				for _, x := range vs {
					ck(bq.Add(x))
				}
			}
			var r []float64
			for _, q := range ranks {
				r = append(r, must(bq.Result(q)))
			}
			v = r
		case "variance", "variancestats":
			bv := must(dpagg.NewBoundedVariance(&dpagg.BoundedVarianceOptions{Epsilon: cf.Eps, Delta: cf.Del, MaxPartitionsContributed: cf.L0, MaxContributionsPerPartition: cf.LInf, Lower: lo, Upper: hi, Noise: n}))
			for _, vs := range users {
				for _, x := range vs {
					ck(bv.Add(x))
				}
			}
			r := must(bv.ResultWithCountAndMean())
			if cf.Agg == "variance" {
				v = r.Variance
			} else {
				v = pbeam.VarianceStatistics{Count: float64(r.Count), Mean: r.Mean, Variance: r.Variance}
			}
		}
		out = append(out, fmt.Sprintf("%v=%v", keyOf(cf, p), v))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
