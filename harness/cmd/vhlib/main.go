package main

import (
	"verif/harness/fw"
	_ "verif/harness/lib"
)

func main() { fw.Main() }
