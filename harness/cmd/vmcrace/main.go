package main

import (
	"verif.local/h/core"
	_ "verif.local/h/racechecks"
)

func main() { core.Main() }
