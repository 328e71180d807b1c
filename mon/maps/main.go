// Command maps monitors the concurrent data structures.
package main

import "github.com/iand/starbow/internal/verifmon/core"

func main() {
	core.Main(map[string]func(r *core.Run){
		"C09": checkBufmap,
		"C11": checkIncmap,
		"C12": checkSeqlock,
	})
}
