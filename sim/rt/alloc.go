package rt

import "runtime/metrics"

var allocS = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
var alloc0 uint64

func allocs() uint64 {
	metrics.Read(allocS)
	return allocS[0].Value.Uint64()
}

// Allocated is about how many bytes of memory were allocated since the run
// called AllocStart.
func Allocated() int64 { return int64(allocs() - alloc0) }

// AllocStart begins to count.
func AllocStart() { alloc0 = allocs() }
