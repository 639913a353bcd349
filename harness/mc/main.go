// Command mc explores the behaviours of go-table exhaustively within bounds.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		os.Exit(coordinator(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "probe":
		probeMain()
	case "platbuild":
		platBuild(os.Args[2])
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}
