// pkg: store
package store

import "testing"

func TestVerifC12Model(t *testing.T) { vRunModel(t, "C12") }
