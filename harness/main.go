// Command verif runs the monitor of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"verif/h"
	"verif/p"
)

func main() {
	var (
		prop     = flag.String("property", "", "")
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Int64("seed", 1, "")
		evidence = flag.String("evidence", "", "")
		replay   = flag.String("replay", "", "")
		known    = flag.String("known", "", "")
		only     = flag.String("group", "", "")
		onlyIdx  = flag.Int("index", -1, "")
		workers  = flag.Int("workers", 0, "")
	)
	if p.Child() {
		return
	}
	flag.Parse()
	ids := strings.Split(*prop, ",")
	code := 0
	for _, id := range ids {
		f := h.Props[id]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no monitor for", id)
			os.Exit(2)
		}
		r := h.New(id, *tier, *seed)
		r.Only, r.OnlyIdx = *only, *onlyIdx
		if *workers > 0 {
			r.Workers = *workers
		}
		r.LoadKnown(*known)
		r.Watch(120*time.Second, 8<<30, *evidence, *replay)
		f(r)
		if c := r.Finish(*evidence, *replay); c != 0 {
			code = c
		}
		break
	}
	os.Exit(code)
}
