// vh runs one check: vh <ID> <tier>.
package main

import (
	_ "verifharness/checks"
	"verifharness/core"
)

func main() { core.Main() }
