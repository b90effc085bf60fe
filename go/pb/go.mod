module aaa.verif/pb

go 1.22

require (
	github.com/google/differential-privacy/go/v3 v3.0.0
	github.com/google/differential-privacy/privacy-on-beam/v3 v3.0.0
	github.com/apache/beam/sdks/v2 v2.55.0
)

replace github.com/google/differential-privacy/go/v3 => /repo/go

replace github.com/google/differential-privacy/privacy-on-beam/v3 => /repo/privacy-on-beam

replace github.com/apache/beam/sdks/v2 => ../stubs/beam

replace google.golang.org/protobuf => ../stubs/protobuf

replace github.com/golang/glog => ../stubs/glog

replace gonum.org/v1/gonum => ../stubs/gonum
