package main

import (
	"math"
	"os"
	"runtime/pprof"
)

func floatBits(u uint64) float64 { return math.Float64frombits(u) }
func startProf(p string) {
	f, _ := os.Create(p)
	pprof.StartCPUProfile(f)
}
func stopProf() { pprof.StopCPUProfile() }
