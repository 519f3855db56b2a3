//go:build !race

package vsched

// RaceBuild tells whether the race detector is on.
const RaceBuild = false

func acquire(*edge) {}
func release(*edge) {}
func wrote([]byte)  {}
