// Command genoverlay instruments a module: genoverlay DIR OUT.
package main

import (
	"fmt"
	"os"

	"verif.local/mc/instr"
)

func main() {
	info, err := instr.Generate(os.Args[1], os.Args[2])
	fmt.Printf("%+v\n", info)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
