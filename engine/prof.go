package main

import (
	"os"
	"runtime/pprof"
)

var profF *os.File

func startProf(fn string) {
	profF, _ = os.Create(fn)
	pprof.StartCPUProfile(profF)
}
func stopProf() {
	if profF != nil {
		pprof.StopCPUProfile()
		profF.Close()
	}
}
