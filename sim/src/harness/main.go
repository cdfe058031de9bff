package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

type options struct {
	self, world, prop, evidence, known, replays, out string
	seed                                             uint64
	thorough, race, merge, raceOnly                  bool
	limit, cases, shards, shard                      int
}

const realCode = "all of controller-tools (command line included), go/packages, go/types, go/parser, cobra, gengo and code-generator, sigs.k8s.io/yaml"
const stubCode = "operating system (files, streams, environment, clock), go command (list/env), sync and scheduling, map iteration order; the standard library and k8s.io modules the inputs import are small stand-ins"

func main() {
	var o options
	o.self, _ = os.Executable()
	if len(os.Args) < 2 {
		fatal("usage: harness check|worker|replay|list|self ...")
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	fs.StringVar(&o.world, "world", "", "")
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.evidence, "evidence", "", "")
	fs.StringVar(&o.known, "known", "", "")
	fs.StringVar(&o.replays, "replays", "", "")
	fs.StringVar(&o.out, "out", "", "")
	fs.Uint64Var(&o.seed, "seed", 1, "")
	fs.BoolVar(&o.thorough, "thorough", false, "")
	fs.BoolVar(&o.raceOnly, "race", false, "")
	fs.BoolVar(&o.merge, "merge", false, "")
	fs.IntVar(&o.limit, "limit", 60, "")
	fs.IntVar(&o.cases, "cases", 0, "")
	fs.IntVar(&o.shards, "shards", 0, "")
	fs.IntVar(&o.shard, "shard", 0, "")
	fs.Parse(os.Args[2:])
	raceInit()
	resetTotals()
	if o.world != "" {
		if err := loadWorld(o.world); err != nil {
			fatal(err)
		}
	}
	initSim()
	noLog = rt.RaceEnabled
	o.race = noLog
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(o))
	case "worker":
		runWorker(o.prop, o.seed, o.thorough, o.shard, o.shards, o.cases, time.Duration(o.limit)*time.Second, o.out, o.known)
	case "replay":
		os.Exit(runReplay(fs.Arg(0)))
	case "list":
		var ids []string
		for id, c := range campaigns {
			if o.raceOnly && !c.Race {
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "self":
		os.Exit(selfTest(o))
	case "real":
		os.Exit(realTest(o, fs.Arg(0)))
	default:
		fatal("unknown command " + os.Args[1])
	}
}
