package top

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

// LargestPerKey keeps n values of each key; the order is that of less, which the
// library makes random, so that any n of them can be kept.
func LargestPerKey(s beam.Scope, col beam.PCollection, n int, less any) beam.PCollection {
	return beam.XTop(col, n, less)
}
