// Command vsim is the simulator: it links the instrumented library, the worlds and the search driver.
package main

import (
	_ "fast-ksw/ckks"
	_ "fast-ksw/fckks"
	"vsim/globals"
	_ "vsim/hook/simmrand"
	_ "vsim/hook/simrand"
	_ "vsim/hook/simsync"
	"vsim/run"
	_ "vsim/worlds"
)

func main() {
	globals.Init()
	run.Main()
}
