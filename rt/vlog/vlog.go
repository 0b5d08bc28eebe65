// Package vlog replaces the exiting parts of log.
package vlog

import (
	"fmt"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Lines holds what was logged.
var Lines []string

//go:norace
func add(s string) {
	if len(Lines) < 1000 {
		Lines = append(Lines, s)
	}
}

// Fatal exits.
func Fatal(v ...any) { s := fmt.Sprint(v...); add(s); rt.Exit(1, s) }

// Fatalf exits.
func Fatalf(f string, v ...any) { s := fmt.Sprintf(f, v...); add(s); rt.Exit(1, s) }

// Fatalln exits.
func Fatalln(v ...any) { s := fmt.Sprintln(v...); add(s); rt.Exit(1, s) }

// Panic panics.
func Panic(v ...any) { panic(fmt.Sprint(v...)) }

// Panicf panics.
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }

// Panicln panics.
func Panicln(v ...any) { panic(fmt.Sprintln(v...)) }

// Print logs.
func Print(v ...any) { add(fmt.Sprint(v...)) }

// Printf logs.
func Printf(f string, v ...any) { add(fmt.Sprintf(f, v...)) }

// Println logs.
func Println(v ...any) { add(fmt.Sprintln(v...)) }
