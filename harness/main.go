package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
	_ "time/tzdata"
)

var checks = map[string]func(r *Run){}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough (default: $VERIF_TIER or quick)")
	replay := flag.String("replay", "", "replay file written by an earlier violation")
	dir := flag.String("dir", "/verif", "directory of the framework")
	conc := flag.Bool("conc", false, "serve as a worker process of the concurrency check")
	instr := flag.String("instrument", "", "write the instrumented sources and the build overlay to this directory")
	flag.StringVar(&schedBin, "sched", "", "binary built with the overlay")
	flag.StringVar(&raceBin, "race", "", "binary built with the race detector")
	flag.Parse()
	if *instr != "" {
		if err := instrument("/repo", *instr); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	verifDir = *dir
	time.Local = time.UTC
	debug.SetMaxStack(256 << 20)
	if *conc {
		concWorker()
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rp *Replay
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			rp = &Replay{}
			err = json.Unmarshal(b, rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop = rp.Property
	}
	check, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	r := newRun(*prop, *tier, seed)
	r.replay = rp
	check(r)
	r.finish(nil)
}
