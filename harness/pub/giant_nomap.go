//go:build !linux || !(amd64 || arm64)

package main

import "errors"

func tiled(unit []byte, n int) (d []byte, done func(), err error) {
	return nil, nil, errors.New("not on this platform")
}
