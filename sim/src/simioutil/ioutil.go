// Package simioutil replaces io/ioutil in simulated code.
package simioutil

import (
	"io"
	"io/fs"

	"sigs.k8s.io/controller-tools/verifsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return simos.ReadFile(n) }
func WriteFile(n string, b []byte, m fs.FileMode) error { return simos.WriteFile(n, b, m) }
func TempFile(d, p string) (*simos.File, error)         { return simos.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return simos.MkdirTemp(d, p) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
