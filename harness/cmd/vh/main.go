// vh runs the checks ("check ID") and is the target child process ("serve").
package main

import (
	"fmt"
	"os"
	"sort"

	"verif/checks"
	"verif/ck"
	"verif/tgt"
)

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "serve" {
		tgt.Serve()
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		id := os.Args[2]
		c, ok := checks.All[id]
		if !ok {
			var ids []string
			for k := range checks.All {
				ids = append(ids, k)
			}
			sort.Strings(ids)
			fmt.Println("unknown check; have", ids)
			os.Exit(2)
		}
		tgt.Bin = ck.Env("VERIF_BIN", os.Args[0])
		tgt.RaceBin = os.Getenv("VERIF_RACEBIN")
		r := ck.New(id)
		c.Run(r)
		os.Exit(r.Finish(c.Level, c.Min))
	}
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		for k := range checks.All {
			fmt.Println(k)
		}
		return
	}
	fmt.Println("usage: vh serve | vh check ID | vh list")
	os.Exit(2)
}
