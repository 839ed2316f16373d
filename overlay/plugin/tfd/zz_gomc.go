package tfd

import "time"

// GomcShard makes a single shard for the harness; only the package's own
// constructor is used.
func GomcShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShard {
	return newSShard(orderPow2, countThreshold, timeCap)
}
