//go:build verifsched

package main

import "github.com/Foxcapades/lib-go-raml/v0/verifsched"

const instrumented = true

type schedSeg = verifsched.Seg

func schedRun(segs []schedSeg, f [2]func()) (n [2]int, stolen int) { return verifsched.Run(segs, f) }

func schedReset() { verifsched.Reset() }

func schedMarked() [2][]int { return verifsched.Marked() }
