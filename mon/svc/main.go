// Command svc monitors the service: collations, stores and the HTTP server.
package main

import "github.com/iand/starbow/internal/verifmon/core"

func main() {
	core.Main(map[string]func(r *core.Run){
		"C01": checkStatistics,
		"C02": checkRouting,
		"C03": checkConcurrentIngest,
		"C04": checkSnapshots,
		"C06": checkRejected,
		"C10": checkFull,
		"C14": checkEncodings,
		"C15": checkHTTP,
		"C23": checkMeasures,
		"C25": checkCut,
		"C26": checkQueriesPure,
		"C28": checkBackend,
		"C32": checkIndependence,
	})
}
