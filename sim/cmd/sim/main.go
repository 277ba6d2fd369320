package main

import (
	"verif.local/sim/engine"
	_ "verif.local/sim/props"
)

func main() { engine.Main() }
