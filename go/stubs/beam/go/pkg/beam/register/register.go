// Package register stands in for the registration of functions; the runner calls them by reflection.
package register

func DoFn1x0[I0 any](doFn any) {}
func Function1x0[I0 any](fn any) {}
func DoFn1x1[I0, R0 any](doFn any) {}
func Function1x1[I0, R0 any](fn any) {}
func DoFn1x2[I0, R0, R1 any](doFn any) {}
func Function1x2[I0, R0, R1 any](fn any) {}
func DoFn1x3[I0, R0, R1, R2 any](doFn any) {}
func Function1x3[I0, R0, R1, R2 any](fn any) {}
func DoFn1x4[I0, R0, R1, R2, R3 any](doFn any) {}
func Function1x4[I0, R0, R1, R2, R3 any](fn any) {}
func DoFn1x5[I0, R0, R1, R2, R3, R4 any](doFn any) {}
func Function1x5[I0, R0, R1, R2, R3, R4 any](fn any) {}
func DoFn2x0[I0, I1 any](doFn any) {}
func Function2x0[I0, I1 any](fn any) {}
func DoFn2x1[I0, I1, R0 any](doFn any) {}
func Function2x1[I0, I1, R0 any](fn any) {}
func DoFn2x2[I0, I1, R0, R1 any](doFn any) {}
func Function2x2[I0, I1, R0, R1 any](fn any) {}
func DoFn2x3[I0, I1, R0, R1, R2 any](doFn any) {}
func Function2x3[I0, I1, R0, R1, R2 any](fn any) {}
func DoFn2x4[I0, I1, R0, R1, R2, R3 any](doFn any) {}
func Function2x4[I0, I1, R0, R1, R2, R3 any](fn any) {}
func DoFn2x5[I0, I1, R0, R1, R2, R3, R4 any](doFn any) {}
func Function2x5[I0, I1, R0, R1, R2, R3, R4 any](fn any) {}
func DoFn3x0[I0, I1, I2 any](doFn any) {}
func Function3x0[I0, I1, I2 any](fn any) {}
func DoFn3x1[I0, I1, I2, R0 any](doFn any) {}
func Function3x1[I0, I1, I2, R0 any](fn any) {}
func DoFn3x2[I0, I1, I2, R0, R1 any](doFn any) {}
func Function3x2[I0, I1, I2, R0, R1 any](fn any) {}
func DoFn3x3[I0, I1, I2, R0, R1, R2 any](doFn any) {}
func Function3x3[I0, I1, I2, R0, R1, R2 any](fn any) {}
func DoFn3x4[I0, I1, I2, R0, R1, R2, R3 any](doFn any) {}
func Function3x4[I0, I1, I2, R0, R1, R2, R3 any](fn any) {}
func DoFn3x5[I0, I1, I2, R0, R1, R2, R3, R4 any](doFn any) {}
func Function3x5[I0, I1, I2, R0, R1, R2, R3, R4 any](fn any) {}
func DoFn4x0[I0, I1, I2, I3 any](doFn any) {}
func Function4x0[I0, I1, I2, I3 any](fn any) {}
func DoFn4x1[I0, I1, I2, I3, R0 any](doFn any) {}
func Function4x1[I0, I1, I2, I3, R0 any](fn any) {}
func DoFn4x2[I0, I1, I2, I3, R0, R1 any](doFn any) {}
func Function4x2[I0, I1, I2, I3, R0, R1 any](fn any) {}
func DoFn4x3[I0, I1, I2, I3, R0, R1, R2 any](doFn any) {}
func Function4x3[I0, I1, I2, I3, R0, R1, R2 any](fn any) {}
func DoFn4x4[I0, I1, I2, I3, R0, R1, R2, R3 any](doFn any) {}
func Function4x4[I0, I1, I2, I3, R0, R1, R2, R3 any](fn any) {}
func DoFn4x5[I0, I1, I2, I3, R0, R1, R2, R3, R4 any](doFn any) {}
func Function4x5[I0, I1, I2, I3, R0, R1, R2, R3, R4 any](fn any) {}
func DoFn5x0[I0, I1, I2, I3, I4 any](doFn any) {}
func Function5x0[I0, I1, I2, I3, I4 any](fn any) {}
func DoFn5x1[I0, I1, I2, I3, I4, R0 any](doFn any) {}
func Function5x1[I0, I1, I2, I3, I4, R0 any](fn any) {}
func DoFn5x2[I0, I1, I2, I3, I4, R0, R1 any](doFn any) {}
func Function5x2[I0, I1, I2, I3, I4, R0, R1 any](fn any) {}
func DoFn5x3[I0, I1, I2, I3, I4, R0, R1, R2 any](doFn any) {}
func Function5x3[I0, I1, I2, I3, I4, R0, R1, R2 any](fn any) {}
func DoFn5x4[I0, I1, I2, I3, I4, R0, R1, R2, R3 any](doFn any) {}
func Function5x4[I0, I1, I2, I3, I4, R0, R1, R2, R3 any](fn any) {}
func DoFn5x5[I0, I1, I2, I3, I4, R0, R1, R2, R3, R4 any](doFn any) {}
func Function5x5[I0, I1, I2, I3, I4, R0, R1, R2, R3, R4 any](fn any) {}
func Combiner1[T0 any](fn any) {}
func Combiner2[T0, T1 any](fn any) {}
func Combiner3[T0, T1, T2 any](fn any) {}
func Emitter1[T0 any]() {}
func Iter1[T0 any]() {}
func Emitter2[T0, T1 any]() {}
func Iter2[T0, T1 any]() {}
func Emitter3[T0, T1, T2 any]() {}
func Iter3[T0, T1, T2 any]() {}
