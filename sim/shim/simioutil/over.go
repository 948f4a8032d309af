// Package simioutil replaces io/ioutil.
package simioutil

import (
	"io/fs"

	"verifsim/shim/simos"
)

func TempFile(dir, pattern string) (*simos.File, error)       { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return simos.MkdirTemp(dir, pattern) }
func ReadFile(name string) ([]byte, error)                    { return simos.ReadFile(name) }
func WriteFile(name string, d []byte, perm fs.FileMode) error { return simos.WriteFile(name, d, perm) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	f, err := simos.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Readdir(-1)
}
