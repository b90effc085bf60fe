// Command race explores the interleavings of goroutines drawing from the random source.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"strings"

	"github.com/google/differential-privacy/go/v3/rand"
)

type fail struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

var (
	states                     = map[uint64]bool{}
	transitions, traces, evals int
	fails                      []fail
	samples                    []string
)

func op(c byte) string {
	switch c {
	case 'w':
		return fmt.Sprintf("%x", rand.U64())
	case 'o':
		return fmt.Sprintf("%x", rand.U8())
	case 'b':
		return fmt.Sprint(rand.Boolean())
	case 's':
		return fmt.Sprint(rand.Sign())
	case 'n':
		return fmt.Sprint(rand.I63n(1 << 40))
	}
	panic("op")
}

// serial gives the results of every order of whole operations.
func serial(prog []string, before string) map[string]bool {
	out := map[string]bool{}
	var rec func(order []int, pos []int)
	rec = func(order []int, pos []int) {
		last := true
		for t := range prog {
			if pos[t] < len(prog[t]) {
				last = false
				pos[t]++
				rec(append(order, t), pos)
				pos[t]--
			}
		}
		if !last {
			return
		}
		rand.VerifStart()
		for i := range before {
			op(before[i])
		}
		res := make([][]string, len(prog))
		for _, t := range order {
			res[t] = append(res[t], op(prog[t][len(res[t])]))
		}
		out[fmt.Sprint(res)] = true
	}
	rec(nil, make([]int, len(prog)))
	return out
}

func explore(name string, prog []string, before string, bound int) {
	good := serial(prog, before)
	evals += len(good)
	rand.VerifBound = bound
	var path, opts []int
	h0 := fnv.New64a()
	h0.Write([]byte(name))
	base := h0.Sum64()
	for n := 0; ; n++ {
		i := 0
		rand.VerifSeen = func(s []int) {
			transitions++
			h := base
			for _, x := range s {
				h = (h ^ uint64(x+7)) * 0x100000001b3
			}
			states[h] = true
		}
		rand.VerifPick = func(k int) int {
			if i == len(path) {
				path = append(path, 0)
				opts = append(opts, k)
			}
			opts[i] = k
			i++
			return path[i-1]
		}
		rand.VerifStart()
		for j := range before {
			op(before[j])
		}
		res := make([][]string, len(prog))
		var fs []func()
		for t := range prog {
			t := t
			fs = append(fs, func() {
				for j := range prog[t] {
					res[t] = append(res[t], op(prog[t][j]))
				}
			})
		}
		why := rand.VerifRun(fs)
		traces++
		evals++
		if why != "" || !good[fmt.Sprint(res)] {
			key := "results of no serial order"
			if why != "" {
				key = strings.SplitN(why, ":", 2)[0]
			}
			fails = append(fails, fail{key, fmt.Sprintf("%s: schedule %v gives %v %s", name, path, res, why)})
			return
		}
		if n == 5 && len(samples) == 0 {
			samples = append(samples, fmt.Sprintf("%s: schedule %v gives %v", name, path, res))
		}
		for len(path) > 0 && path[len(path)-1]+1 >= opts[len(path)-1] {
			path, opts = path[:len(path)-1], opts[:len(path)-1]
		}
		if len(path) == 0 {
			return
		}
		path[len(path)-1]++
		if n > 5000000 {
			fails = append(fails, fail{"limit", name + ": too many schedules"})
			return
		}
	}
}

func main() {
	prog := strings.Split(os.Args[1], ",")
	before := strings.Trim(os.Args[2], "-")
	bound, _ := strconv.Atoi(os.Args[3])
	total := 0
	bits := true
	for _, p := range prog {
		total += len(p)
		bits = bits && strings.Trim(p, "bs") == ""
	}
	if bits {
		// one bit of the window is set
		n := len(before) + total
		for p := 0; p < (n+7)/8*8; p++ {
			rand.VerifByte = func(i int) byte {
				if i == p/8 {
					return 1 << (p % 8)
				}
				return 0
			}
			explore(fmt.Sprintf("%v after %d draws, bit %d set", prog, len(before), p), prog, before, bound)
		}
	} else {
		rand.VerifByte = func(i int) byte {
			x := uint64(i+1) * 0x9e3779b97f4a7c15
			x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
			return byte(x>>40) | 1
		}
		explore(fmt.Sprintf("%v after %q", prog, before), prog, before, bound)
	}
	var ss []string
	for s := range states {
		ss = append(ss, fmt.Sprintf("%x", s))
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"states": ss, "transitions": transitions, "traces": traces, "evals": evals, "samples": samples, "fails": fails})
}
