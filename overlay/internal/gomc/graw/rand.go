package graw

import "crypto/rand"

// RandRead is rand.Read with a write that the race detector sees.
func RandRead(b []byte) (int, error) {
	t := make([]byte, len(b))
	n, err := rand.Read(t)
	copy(b, t)
	return n, err
}
