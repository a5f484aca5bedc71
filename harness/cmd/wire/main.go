// Command wire decides the properties of frames, fragmentation, stream ids,
// the stream transport and operation tables.
package main

import "github.com/nanobus/iota/go/zz_verif/kit"

func main() { kit.Main(W01, W02, W03, W04, W05, W06, W07) }
