// Command verif runs the property checks. See /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/core"
	"verif/props"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: verif check ID | replay FILE | list")
		os.Exit(2)
	}
	switch a[0] {
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	case "check":
		tier := core.Tier(os.Getenv("VERIF_TIER"))
		if tier != core.Thorough {
			tier = core.Quick
		}
		if len(a) > 2 {
			tier = core.Tier(a[2])
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			v, err := strconv.ParseUint(s, 10, 63)
			if err != nil {
				fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
				os.Exit(2)
			}
			seed = v
		}
		os.Exit(core.RunCheck(a[1], tier, seed, 780*time.Second))
	case "shard":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		i, _ := strconv.Atoi(a[4])
		n, _ := strconv.Atoi(a[5])
		os.Exit(core.RunShard(a[1], core.Tier(a[2]), seed, i, n, a[6]))
	case "serve":
		os.Exit(props.Serve(a[1]))
	case "replay":
		os.Exit(core.RunReplay(a[1]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", a[0])
		os.Exit(2)
	}
}
