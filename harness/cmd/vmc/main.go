package main

import (
	_ "verif.local/h/checks"
	"verif.local/h/core"
)

func main() { core.Main() }
