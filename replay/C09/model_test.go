// pkg: store
package store

import "testing"

func TestVerifC09Model(t *testing.T) { vRunModel(t, "C09") }
