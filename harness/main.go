package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

var properties = []*Property{
	propL01, propL02, propL03, propL04, propL05, propL06, propT01,
	propP01, propP02, propP03, propP04, propP05, propP06, propP07, propP08, propP09, propP10,
	propA01, propA02, propA03, propA04, propA05, propE01, propE02, propD01,
	propG01, propG02, propG03, propG04,
	propX01, propX02, propV01, propV02,
	propF01, propF02,
	propC01, propC02, propC03, propC04, propC05, propC06,
}

func find(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vmon check|worker|needs ID [--only CASE]")
		os.Exit(2)
	}
	if os.Args[1] == "exec" { // a helper process of a case
		os.Exit(helper(os.Args[2:]))
	}
	if os.Args[1] == "digest" {
		os.Exit(digestHelper())
	}
	p := find(os.Args[2])
	if p == nil {
		fmt.Println("unknown property", os.Args[2])
		os.Exit(2)
	}
	only := ""
	for i, a := range os.Args {
		if a == "--only" && i+1 < len(os.Args) {
			only = os.Args[i+1]
		}
	}
	switch os.Args[1] {
	case "needs":
		if p.Race {
			fmt.Println("race")
		}
		if p.CLI {
			fmt.Println("cli")
		}
	case "worker":
		debug.SetGCPercent(200)
		worker(p)
	case "check":
		os.Exit(supervise(p, only))
	default:
		os.Exit(2)
	}
}
