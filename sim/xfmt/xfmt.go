// Package xfmt replaces the functions of fmt that use the standard streams.
package xfmt

import (
	"fmt"

	"verifsim/xos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(xos.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(xos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(xos.Stdout, f, a...) }
