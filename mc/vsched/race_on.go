//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is on.
const RaceBuild = true

func acquire(p *edge) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *edge) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

func wrote(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
