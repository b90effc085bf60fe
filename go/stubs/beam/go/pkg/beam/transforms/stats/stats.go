package stats

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

func Count(s beam.Scope, col beam.PCollection) beam.PCollection     { return beam.XCount(col) }
func SumPerKey(s beam.Scope, col beam.PCollection) beam.PCollection { return beam.XSumPerKey(col) }
