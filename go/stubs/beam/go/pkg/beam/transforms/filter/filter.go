package filter

import "github.com/apache/beam/sdks/v2/go/pkg/beam"

func Distinct(s beam.Scope, col beam.PCollection) beam.PCollection { return beam.XDistinct(col) }
