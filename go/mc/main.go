// Command mc explores the Go aggregation library exhaustively within bounds.
package main

import (
	"encoding/json"
	"fmt"
	"os"
)

var explorers = map[string]func(c *Ctx, cs map[string]any){}
var lists = map[string]func(tier string) []map[string]any{}

// usage: mc list PROP TIER | mc run PROP CASEJSON
func main() {
	if len(os.Args) == 2 && os.Args[1] == "eval" {
		evalAll()
		return
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: mc list PROP TIER | mc run PROP CASE")
		os.Exit(2)
	}
	prop := os.Args[2]
	switch os.Args[1] {
	case "list":
		json.NewEncoder(os.Stdout).Encode(lists[prop](os.Args[3]))
	case "run":
		var cs map[string]any
		if err := json.Unmarshal([]byte(os.Args[3]), &cs); err != nil {
			panic(err)
		}
		c := newCtx()
		c.guard("explorer "+os.Args[3], func() { explorers[prop](c, cs) })
		c.write()
	}
}
