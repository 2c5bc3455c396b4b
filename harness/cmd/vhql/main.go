package main

import (
	"verif/harness/fw"
	_ "verif/harness/qlm"
)

func main() { fw.Main() }
