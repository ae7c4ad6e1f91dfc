package main

import (
	"unsafe"

	concordia "github.com/Toyz/concordia/go"
)

// fill writes into the message in place, as a host does that is given a place for raw bytes
func fill(v concordia.Value, b []byte) {
	if len(b) > 0 {
		copy(unsafe.Slice((*byte)(v.UnsafeAddr()), len(b)), b)
	}
}
