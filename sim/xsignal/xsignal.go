// Package xsignal replaces os/signal.
package xsignal

import (
	"os"

	"verifsim/simrt"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	simrt.Enter().SyncPoint("notify")
	simrt.CurProc().Notify(c, sig...)
}
func Stop(c chan<- os.Signal) { simrt.CurProc().StopNotify(c) }
func Ignore(sig ...os.Signal) {}
func Reset(sig ...os.Signal)  {}
