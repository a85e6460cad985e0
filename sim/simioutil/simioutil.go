// Package simioutil replaces io/ioutil in instrumented code.
package simioutil

import (
	"io"

	"verifsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                    { return simos.ReadFile(n) }
func WriteFile(n string, d []byte, p simos.FileMode) error { return simos.WriteFile(n, d, p) }
func TempFile(d, p string) (*simos.File, error)            { return simos.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)                  { return simos.MkdirTemp(d, p) }

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
