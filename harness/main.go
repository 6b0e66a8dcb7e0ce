package main

import (
	"velty.verif/harness/engine"
	_ "velty.verif/harness/props"
)

func main() { engine.Main() }
