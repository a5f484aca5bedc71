// Command rust decides the properties of the Rust implementation. The code
// under test runs in a process of its own (harness/rust/driver); generators
// and oracles are here.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() { kit.Main(X01, X02, X03, X04, X05, X06, X07) }
