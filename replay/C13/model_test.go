// pkg: store
package store

import "testing"

func TestVerifC13Model(t *testing.T) { vRunModel(t, "C13") }
