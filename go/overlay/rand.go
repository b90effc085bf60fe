// Package rand, as seen by the explorer: every draw is decided by the harness.
// It takes the place of go/rand/rand.go in the build of the explorer (go build -overlay);
// the real package is checked on its own.
package rand

// Draws, by kind. A harness sets the functions it wants to decide.
var (
	OnUniform   = func() float64 { panic("no decision for Uniform") }
	OnBoolean   = func() bool { panic("no decision for Boolean") }
	OnGeometric = func() float64 { panic("no decision for Geometric") }
	OnI63n      = func(n int64) int64 { panic("no decision for I63n") }
	OnNormal    = func() float64 { panic("no decision for Normal") }
	OnU64       = func() uint64 { panic("no decision for U64") }
	OnU8        = func() uint8 { panic("no decision for U8") }
)

func U64() uint64        { return OnU64() }
func U8() uint8          { return OnU8() }
func Boolean() bool      { return OnBoolean() }
func I63n(n int64) int64 { return OnI63n(n) }
func Uniform() float64   { return OnUniform() }
func Geometric() float64 { return OnGeometric() }
func Normal() float64    { return OnNormal() }

func Sign() float64 {
	if Boolean() {
		return 1.0
	}
	return -1.0
}
