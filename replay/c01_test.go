//go:build go1.22

//uses: halo2

package main

import "testing"

// C01: the accumulators of random proofs against the verification equation,
// and wrong auxiliary quotients.
func TestVerifC01(t *testing.T) {
	defer vDone(t)
	vHalo2(true)
}
