// Command misc decides the properties of UUIDs and of the custom sections of
// WebAssembly modules.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() { kit.Main(M01, W08) }
