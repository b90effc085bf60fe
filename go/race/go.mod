module verif.example/race

go 1.22

require github.com/google/differential-privacy/go/v3 v3.0.0

require (
	github.com/golang/glog v1.2.0 // indirect
	gonum.org/v1/gonum v0.14.0 // indirect
)

replace github.com/google/differential-privacy/go/v3 => /repo/go

replace github.com/golang/glog => ../stubs/glog

replace gonum.org/v1/gonum => ../stubs/gonum


