// Command vh runs the checks.
//
//go:debug randseednop=0
package main

import (
	_ "verif.test/h/checks"
	"verif.test/h/core"
)

func main() { core.Main() }
