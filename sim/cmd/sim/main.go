// sim runs simulated executions: worker, replay, minimise, props.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"velsim/h"
)

func main() {
	h.RaceEnv()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim worker|replay|minimise|props")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "props":
		h.ListProps()
	case "worker":
		a := h.WorkerArgs{}
		f := flag.NewFlagSet("worker", flag.ExitOnError)
		f.StringVar(&a.Prop, "prop", "", "")
		f.Uint64Var(&a.Seed, "seed", 1, "")
		f.IntVar(&a.Worker, "worker", 0, "")
		f.IntVar(&a.Of, "of", 1, "")
		f.IntVar(&a.Count, "count", 0, "")
		f.DurationVar(&a.Wall, "wall", time.Minute, "")
		f.BoolVar(&a.Deep, "deep", false, "")
		f.StringVar(&a.Out, "out", ".", "")
		f.BoolVar(&a.Race, "race", false, "")
		f.Parse(os.Args[2:])
		h.Warm()
		os.Exit(h.Worker(a))
	case "replay":
		h.Warm()
		os.Exit(h.RunReplay(os.Args[2], len(os.Args) > 3))
	case "firstuse":
		h.Warm()
		n, _ := strconv.Atoi(os.Args[4])
		sd, _ := strconv.Atoi(os.Args[3])
		fmt.Println(os.Args[2], h.FirstUse(os.Args[2], uint64(sd), n))
	case "programs":
		n, _ := strconv.Atoi(os.Args[4])
		sd, _ := strconv.Atoi(os.Args[3])
		h.Programs(os.Args[2], uint64(sd), n)
	case "minimise":
		os.Exit(h.MinimiseSub(os.Args[2], os.Args[3], 40*time.Second))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
