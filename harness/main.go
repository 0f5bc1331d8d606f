package main

import (
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check ID TIER | worker ... | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2], os.Args[3]))
	case "worker":
		var shard, n, from int
		var budget int64
		fmt.Sscan(os.Args[4], &shard)
		fmt.Sscan(os.Args[5], &n)
		fmt.Sscan(os.Args[6], &from)
		fmt.Sscan(os.Args[7], &budget)
		workerMain(registry[os.Args[2]], os.Args[3], shard, n, from, time.Duration(budget))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "show": // show SCHEMA [MAX]: the distinct outputs of the exploration of one schema (for debugging)
		showMain(os.Args[2])
	case "list":
		for id := range registry {
			fmt.Println(id)
		}
	}
}

func showMain(schema string) {
	installHooks()
	p := parseQuiet(env{}, schema, nil)
	fmt.Println("errors:", p.errs)
	seen := map[string]bool{}
	o := genOpts{UniqueAttempts: 20, IfAttempts: 20, OneOfAttempts: 20}
	search(env{}, searchCfg{smallN: 6, fullCap: 220, devBound: 1, devCap: 60, policies: defaultPolicies}, func() interface{} { return p.gen.Generate(o.options()) }, func(o *outcome, pol policy, devs int) bool {
		s := fmt.Sprint(encodeJSON(o.val), " ", o.panicV)
		if !seen[s] && len(seen) < 60 {
			fmt.Println(pol, devs, clipChoices(o.choices()), s)
		}
		seen[s] = true
		return true
	})
}
