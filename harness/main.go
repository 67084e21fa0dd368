// Command pbt runs the property-based checks of github.com/alxarch/njson.
//
//	pbt list                      list properties and their sub-checks
//	pbt run ID                    run the check of one property (parent process)
//	pbt shard ID SUB N SEED K OUT run K cases of one sub-check (worker process)
//	pbt replay FILE               re-run one recorded case
package main

import (
	"fmt"
	"os"
	"testing"
)

// hostT is the test inside which the test helpers are tried.
var hostT *testing.T

// hosted runs a worker inside a test, for the checks that need one.
func hosted(host bool, work func() int) {
	if !host {
		os.Exit(work())
	}
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "worker", F: func(t *testing.T) {
		hostT = t
		os.Exit(work())
	}}}, nil, nil)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt list|run|shard|replay")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, s := range subs {
			fmt.Printf("%s/%s quick=%d thorough=%d\n", s.prop, s.name, s.quick, s.thorough)
		}
	case "run":
		os.Exit(runParent(os.Args[2]))
	case "shard":
		hosted(os.Args[2] == "C31", func() int { return runShard(os.Args[2:]) })
	case "replay":
		hosted(true, func() int { return runReplay(os.Args[2]) })
	default:
		os.Exit(2)
	}
}
