// routerd records what routers, the generated forwarders and wrappers, and the default name interceptor do (C12).
package main

import (
	"fmt"
	"math/rand"
	"os"

	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type M = vlib.M

func main() {
	out := vlib.NewOut()
	defer out.Close()
	rnd := rand.New(rand.NewSource(vlib.Seed()))
	switch os.Args[1] {
	case "reg":
		sequential(out, rnd)
	case "sched":
		schedules(out, rnd, os.Args[2])
	case "rpc":
		services(out)
		rpcs(out, rnd)
	case "names":
		names(out, rnd)
	default:
		fmt.Fprintln(os.Stderr, "what?")
		os.Exit(3)
	}
}
