// Package ioutil over the in-memory files.
package ioutil

import (
	"io"
	"io/fs"

	"github.com/si-co/vpir-code/vpstub/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                     { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)                    { return os.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return os.WriteFile(name, b, perm) }
func ReadDir(dir string) ([]fs.FileInfo, error)               { return os.Infos(dir), nil }
func NopCloser(r io.Reader) io.ReadCloser                     { return io.NopCloser(r) }
