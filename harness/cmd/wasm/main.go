// Command wasm decides the properties of the WebAssembly host and guest.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() { kit.Main(H01, H02, H03, M04, H04, H05) }
