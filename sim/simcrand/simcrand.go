// Package simcrand replaces crypto/rand in instrumented code.
package simcrand

import (
	"io"

	"verifsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.Rand() >> 17)
	}
	return len(b), nil
}

// Reader mirrors crypto/rand.Reader.
var Reader io.Reader = reader{}

// Read mirrors crypto/rand.Read.
func Read(b []byte) (int, error) { return Reader.Read(b) }

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
