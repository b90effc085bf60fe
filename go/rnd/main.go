// Command rnd explores the random primitives: every byte of the source is decided by the harness.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"os"

	src "aaa.verif"
	"github.com/google/differential-privacy/go/v3/rand"
)

type report struct {
	States, Transitions, Traces, Evals int
	Fails                              []map[string]string
	Samples                            []string
}

var rep report

func check(ok bool, key, format string, a ...any) bool {
	rep.Evals++
	if !ok && len(rep.Fails) < 40 {
		rep.Fails = append(rep.Fails, map[string]string{"key": key, "msg": fmt.Sprintf(format, a...)})
	}
	return ok
}

type exhausted struct{}

// with runs f on the given bytes; ok is false if it wants more of them.
func with(bs []byte, f func()) (used int, ok bool) {
	i := 0
	src.Next = func() byte {
		if i >= len(bs) {
			panic(exhausted{})
		}
		b := bs[i]
		i++
		return b
	}
	rep.Transitions++
	defer func() {
		used = i
		if r := recover(); r != nil {
			if _, is := r.(exhausted); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return i, true
}

// always feeds the bytes, then a constant for ever.
func always(bs []byte, rest byte, f func()) {
	i := 0
	src.Next = func() byte {
		i++
		if i <= len(bs) {
			return bs[i-1]
		}
		if i > 100000 {
			panic("reads without end")
		}
		return rest
	}
	rep.Transitions++
	f()
}

func u64(bs []byte) (v uint64) {
	always(bs, 0, func() { v = rand.U64() })
	return
}

func main() {
	// bytes and words: every bit of the source reaches exactly one bit of the result
	seen := map[uint8]bool{}
	for b := 0; b < 256; b++ {
		var v uint8
		always([]byte{byte(b)}, 0, func() { v = rand.U8() })
		check(!seen[v], "U8", "%d twice", v)
		seen[v] = true
	}
	var mask uint64
	lanes := [8]map[byte]uint64{}
	for p := 0; p < 8; p++ {
		lanes[p] = map[byte]uint64{}
		var lane uint64
		vals := map[uint64]bool{}
		for b := 0; b < 256; b++ {
			bs := make([]byte, 8)
			bs[p] = byte(b)
			v := u64(bs)
			lanes[p][byte(b)] = v
			lane |= v
			vals[v] = true
			rep.States++
		}
		check(len(vals) == 256 && bits.OnesCount64(lane) == 8 && lane&mask == 0, "U64", "byte %d reaches %x with %d values", p, lane, len(vals))
		mask |= lane
	}
	alpha := []byte{0, 1, 0x80, 0xff}
	for k := 0; k < 1<<16; k++ {
		bs := make([]byte, 8)
		var want uint64
		for p := range bs {
			bs[p] = alpha[k>>(2*uint(p))&3]
			want |= lanes[p][bs[p]]
		}
		check(u64(bs) == want, "U64", "%x gives %x", bs, u64(bs))
	}
	rep.Traces++
	// booleans: each sequence of as many as a byte holds comes from exactly one byte, whatever was read before
	for b := 0; b < 16; b++ { // to a byte boundary
		always(nil, 0, func() { rand.Boolean() })
		before := src.Count
		always(nil, 0, func() { rand.Boolean() })
		if src.Count > before {
			for i := 0; i < 7; i++ {
				always(nil, 0, func() { rand.Boolean() })
			}
			break
		}
	}
	for first := 0; first < 256; first += 51 {
		got := map[int]int{}
		for b := 0; b < 256; b++ {
			word := 0
			i := 0
			bs := []byte{byte(first), byte(b)}
			src.Next = func() byte { i++; return bs[(i-1)%2] }
			for k := 0; k < 16; k++ {
				rep.Transitions++
				var v bool
				if k%2 == 0 {
					v = rand.Boolean()
				} else {
					s := rand.Sign()
					check(s == 1 || s == -1, "Sign", "%v", s)
					v = s == 1
				}
				if v {
					word |= 1 << uint(k)
				}
			}
			check(i == 2, "Boolean", "%d bytes for 16 booleans", i)
			got[word]++
			rep.States++
		}
		check(len(got) == 256, "Boolean", "only %d outcomes of 256 bytes", len(got))
		ones := [16]int{}
		for w := range got {
			for k := 8; k < 16; k++ {
				ones[k] += w >> uint(k) & 1
			}
		}
		for k := 8; k < 16; k++ {
			check(ones[k] == 128, "Boolean", "position %d is true for %d of 256 bytes", k, ones[k])
		}
	}
	rep.Traces++
	// Geometric: the exact law over all strings of up to three bytes
	mass := map[float64]float64{}
	var rec func(prefix []byte, p float64)
	rec = func(prefix []byte, p float64) {
		for b := 0; b < 256; b++ {
			bs := append(append([]byte{}, prefix...), byte(b))
			var v float64
			used, ok := with(bs, func() { v = rand.Geometric() })
			if ok {
				check(used == len(bs), "Geometric", "%x: reads %d", bs, used)
				mass[v] += p / 256
			} else if len(bs) < 3 {
				rec(bs, p/256)
			}
			rep.States++
		}
	}
	rec(nil, 1)
	for k := 1; k <= 24; k++ {
		check(mass[float64(k)] == math.Ldexp(1, -k), "Geometric", "%d has probability %v", k, mass[float64(k)])
		delete(mass, float64(k))
	}
	check(len(mass) == 0, "Geometric", "also gives %v", mass)
	rep.Traces++
	// Geometric, long runs: zeros of any length only make it larger
	for n := 0; n < 200; n++ {
		var a, b float64
		always(make([]byte, n), 0x80, func() { a = rand.Geometric() })
		always(make([]byte, n), 0x01, func() { b = rand.Geometric() })
		check(a == float64(8*n+1) && b == float64(8*n+8), "Geometric", "%d zero bytes: %v and %v", n, a, b)
	}
	// I63n: the range, and the balance of the residues. order[] finds which source byte is the most significant
	ns := []int64{1, 2, 3, 5, 7, 10, 100, 255, 256, 257, 1000003, 1 << 31, 1<<32 + 1, 3 << 60, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64}
	toBytes := func(x uint64) []byte {
		bs := make([]byte, 8)
		for p := range bs {
			for b := 0; b < 256; b++ {
				if lanes[p][byte(b)]&^(x&lanes[p][255]) == 0 && lanes[p][byte(b)] == x&lanes[p][255] {
					bs[p] = byte(b)
				}
			}
		}
		return bs
	}
	for _, n := range ns {
		key := fmt.Sprintf("I63n(%d)", n)
		draw := func(x uint64) (v int64, ok bool) {
			_, ok = with(toBytes(x), func() { v = rand.I63n(n) })
			if ok {
				check(v >= 0 && v < n, key, "draw %x gives %d", x, v)
			}
			rep.States++
			return
		}
		// accepted draws form an initial segment of the 63-bit words (checked on every word tried) of a multiple of n words
		lo, hi := uint64(0), uint64(math.MaxInt64)
		_, okMax := draw(hi)
		if !okMax {
			for hi-lo > 1 {
				m := lo + (hi-lo)/2
				if _, ok := draw(m); ok {
					lo = m
				} else {
					hi = m
				}
			}
		} else {
			lo = hi
		}
		check((lo+1)%uint64(n) == 0, key, "%d words are accepted, not a multiple", lo+1)
		check(lo+1 >= 1<<62, key, "only %d words are accepted", lo+1)
		// each residue: consecutive words give each value once (windows of up to 300 words, at both ends and inside)
		for _, start := range []uint64{0, 1, lo / 3, lo / 2, lo - uint64(min(n, 300))} {
			w := uint64(min(n, 300))
			if start+w > lo+1 {
				continue
			}
			vals := map[int64]bool{}
			for x := start; x < start+w; x++ {
				v, ok := draw(x)
				check(ok, key, "draw %x is rejected", x)
				vals[v] = true
				v2, ok2 := draw(x | 1<<63)
				check(ok2 && v2 == v, key, "the sign bit matters: %d, %d", v, v2)
			}
			check(uint64(len(vals)) == w, key, "%d values from %d consecutive words", len(vals), w)
		}
		for sh := uint(0); sh < 63; sh++ {
			for _, d := range []uint64{0, 1, 2} {
				x := uint64(1)<<sh - d
				if x > math.MaxInt64 {
					continue
				}
				_, ok := draw(x)
				check(ok == (x <= lo), key, "draw %x accepted: %v", x, ok)
			}
		}
		rep.Traces++
	}
	// Uniform: within (0,1]; P(U <= t) = t for the thresholds seen. The bytes of the mantissa and of the exponent may come in either order.
	uni := func(man uint64, zeros int, last byte, manFirst bool) (u float64) {
		g := append(make([]byte, zeros), last)
		bs := append(toBytes(man), g...)
		if !manFirst {
			bs = append(append([]byte{}, g...), toBytes(man)...)
		}
		always(bs, 0x80, func() { u = rand.Uniform() })
		return
	}
	ok := false
	for _, manFirst := range []bool{true, false} {
		good := true
		for zeros := 0; zeros <= 4 && good; zeros++ {
			for b := 1; b < 256; b++ {
				k := 8*zeros + bits.LeadingZeros8(uint8(b)) + 1
				lo, hi := math.Ldexp(1, -k), math.Ldexp(1, -k+1)
				prev := 0.0
				for _, i := range []uint64{0, 1, 2, 3, 1 << 20, 1 << 51, 1<<52 - 1, 1 << 52, 1<<52 + 1<<51, 1<<53 - 3, 1<<53 - 2, 1<<53 - 1} {
					u := uni(i, zeros, byte(b), manFirst)
					want := lo * (1 + float64(i)/(1<<53))
					if !(u > 0 && u >= lo && u <= hi && u >= prev && math.Abs(u-want) <= lo*3e-16) {
						good = false
					}
					prev = u
					rep.States++
				}
			}
		}
		ok = ok || good
	}
	check(ok, "Uniform", "not uniform on (0,1]")
	for _, zeros := range []int{126, 133, 134, 135, 140, 1000} {
		u := uni(0, zeros, 1, true)
		v := uni(1<<53-1, zeros, 1, true)
		check(u > 0 && u <= 1 && v > 0 && v <= 1, "Uniform", "%d zero bytes: %v %v", zeros, u, v)
	}
	rep.Traces++
	rep.Samples = append(rep.Samples, fmt.Sprintf("I63n over %v", ns))
	json.NewEncoder(os.Stdout).Encode(rep)
}
