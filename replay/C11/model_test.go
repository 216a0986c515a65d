// pkg: store
package store

import "testing"

func TestVerifC11Model(t *testing.T) { vRunModel(t, "C11") }
