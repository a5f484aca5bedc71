// Command codec decides the properties of the MessagePack codec and the
// payload helpers built on it.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() { kit.Main(C01, C02, C03, C04, C05, C06, C07) }
