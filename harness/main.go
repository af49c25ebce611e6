package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness COMMAND")
		os.Exit(2)
	}
	if os.Args[1] == "node" {
		nodeMain(os.Args[2])
		return
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("count", 10, "")
	length := fs.Int("len", 30, "")
	focus := fs.String("focus", "", "")
	out := fs.String("out", "trace.ndjson", "")
	scripts := fs.String("scripts", "", "")
	budget := fs.Float64("budget", 60, "seconds")
	workers := fs.Int("workers", 24, "")
	remote := fs.Bool("remote", false, "")
	must(fs.Parse(os.Args[2:]))
	conf := cosConf{*seed, *count, *length, *focus, *out, *scripts, *budget, *workers, *remote}
	switch os.Args[1] {
	case "cosig":
		cosMain(conf)
	case "session":
		sessionMain(conf)
	case "cluster":
		clusterMain(conf)
	case "remote":
		remoteMain(conf)
	case "boot":
		bootMain(conf)
	case "sharing":
		sharingMain(conf)
	case "ensemble":
		ensembleMain(conf)
	case "store":
		storeMain(conf)
	case "state":
		stateMain(conf)
	case "wire":
		wireMain(conf)
	case "pairs":
		pairsMain(conf)
	case "single":
		singleMain(conf)
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}
