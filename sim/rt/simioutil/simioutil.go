// Package simioutil is io/ioutil on the simulated disk.
package simioutil

import (
	"io"

	"github.com/acronis/go-raml/v2/zzsim/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
