// Package vnet stands in for package net: Listen returns a listener whose
// Accept is answered by the harness.
package vnet

import (
	"verif/mc/gomc"
)

// Backend is installed by the harness: it makes the listener for an address.
type Backend func(network, address string) (Listener, error)

type key struct{}

type holder struct{ b Backend }

// SetBackend installs the backend for this execution.
func SetBackend(b Backend) {
	gomc.Local(key{}, func() any { return &holder{} }).(*holder).b = b
}

// Listen asks the backend.
func Listen(network, address string) (Listener, error) {
	h := gomc.Local(key{}, func() any { return &holder{} }).(*holder)
	if h.b == nil {
		return nil, &OpError{Op: "listen", Net: network, Err: ErrClosed}
	}
	return h.b(network, address)
}
