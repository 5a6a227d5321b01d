// vfield replays specification behaviours into the goldilocks arithmetic gadget.
package main

import (
	"fmt"
	"os"

	"verif/harness/rep"
)

func main() {
	a := rep.Parse()
	r := rep.New()
	switch a.Cmd {
	case "hints":
		playHints(a, r)
	case "ranges":
		ranges(a, r)
	case "ops":
		replayOps(a, r)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", a.Cmd)
		os.Exit(2)
	}
	r.Write(a.Out)
}
