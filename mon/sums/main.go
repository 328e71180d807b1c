// Command sums monitors the summaries, hashes and numerics.
package main

import "github.com/iand/starbow/internal/verifmon/core"

func main() {
	core.Main(map[string]func(r *core.Run){
		"C07": checkUniqueAccuracy,
		"C08": checkUniqueSet,
		"C16": checkBitbucket,
		"C17": checkBloomMembership,
		"C18": checkBloomRates,
		"C19": checkRoundTrip,
		"C20": checkDamage,
		"C21": checkFnv,
		"C22": checkNumerics,
		"C31": checkFormat,
	})
}
