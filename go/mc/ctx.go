package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
)

// Ctx gathers what an exploration reports.
type Ctx struct {
	states      map[uint64]struct{}
	Transitions int
	Traces      int
	Evals       int
	Fails       []Fail
	Samples     []string
	nfails      map[string]int
}

// Fail is one violation; Key names the input or history.
type Fail struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

func newCtx() *Ctx { return &Ctx{states: map[uint64]struct{}{}, nfails: map[string]int{}} }

func (c *Ctx) State(format string, a ...any) {
	drawn = 0
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.states[h.Sum64()] = struct{}{}
}

func (c *Ctx) StateS(s string) {
	drawn = 0
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

func (c *Ctx) Fail(key, format string, a ...any) {
	c.nfails[key]++
	if c.nfails[key] <= 2 && len(c.Fails) < 60 {
		c.Fails = append(c.Fails, Fail{key, fmt.Sprintf(format, a...)})
	}
}

func (c *Ctx) Check(ok bool, key string, format string, a ...any) bool {
	c.Evals++
	if !ok {
		c.Fail(key, format, a...)
	}
	return ok
}

func (c *Ctx) Trace(s string) {
	c.Traces++
	if len(c.Samples) < 2 {
		c.Samples = append(c.Samples, s)
	}
}

// guard runs f and turns a panic into a failure.
func (c *Ctx) guard(key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 1200 {
				st = st[:1200]
			}
			c.Fail(key, "panic: %v\n%s", r, st)
		}
	}()
	f()
}

func (c *Ctx) write() {
	var st []string
	for h := range c.states {
		st = append(st, fmt.Sprintf("%x", h))
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{
		"states": st, "transitions": c.Transitions, "traces": c.Traces, "evals": c.Evals,
		"fails": c.Fails, "samples": c.Samples})
}
