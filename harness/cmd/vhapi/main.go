package main

import (
	"verif/harness/fw"
	_ "verif/harness/apim"
)

func main() { fw.Main() }
