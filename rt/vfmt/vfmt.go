// Package vfmt sends standard output to the harness.
package vfmt

import (
	"fmt"

	"github.com/vearutop/flatjsonl/zzverif/vos"
)

// Print prints.
func Print(a ...any) (int, error) { return fmt.Fprint(vos.Stdout, a...) }

// Printf prints.
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(vos.Stdout, f, a...) }

// Println prints.
func Println(a ...any) (int, error) { return fmt.Fprintln(vos.Stdout, a...) }
