// Package ioutil is a model of package io/ioutil.
package ioutil

import (
	"io"
	stdioutil "io/ioutil"

	os "github.com/cespare/goclj/zz_os"
)

var Discard = stdioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return stdioutil.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return stdioutil.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]os.FileInfo, error)     { return os.List(name) }
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
