// Command mc runs one model-checking check: mc ID [-replay FILE].
package main

import (
	"verif/checks"
	"verif/internal/mc"
)

func main() { mc.Main(checks.All) }
