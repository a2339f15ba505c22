// Package xruntime replaces runtime.Gosched.
package xruntime

import "verifsim/simrt"

func Gosched() {
	s := simrt.Enter()
	s.WaitSteps(1)
}
