// Command engine decides the properties of the reactive types, the protocol
// engine and its registries.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() {
	kit.Main(R01, R02, R03, R04, S01, S02, S03, S04, S05, S06, S07, S08, S09, S10, S11, S12, W09, M02, M03)
}
