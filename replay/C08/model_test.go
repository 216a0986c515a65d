// pkg: store
package store

import "testing"

func TestVerifC08Model(t *testing.T) { vRunModel(t, "C08") }
