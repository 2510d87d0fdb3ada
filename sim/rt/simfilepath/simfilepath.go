// Package simfilepath is path/filepath on the simulated disk.
package simfilepath

import (
	"path/filepath"

	"github.com/acronis/go-raml/v2/zzsim/simos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	d, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(d, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}
