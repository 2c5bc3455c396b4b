package main

import (
	"verif/harness/fw"
	_ "verif/harness/store"
)

func main() { fw.Main() }
