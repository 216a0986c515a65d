// pkg: store
package store

import "testing"

func TestVerifC10Model(t *testing.T) { vRunModel(t, "C10") }
