//go:build !verifsched

package main

// Without the instrumented build there is no scheduler; C17 runs only in the
// instrumented one.

const instrumented = false

type schedSeg struct{ Who, N int }

func schedRun(segs []schedSeg, f [2]func()) (n [2]int, stolen int) { panic("not instrumented") }

func schedReset() {}

func schedMarked() (m [2][]int) { return }
