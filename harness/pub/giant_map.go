//go:build linux && (amd64 || arm64)

package main

import (
	"os"
	"syscall"
	"unsafe"
)

// tiled is unit over and over, at least n bytes of it, in address space of
// which only a few megabytes are backed by memory of their own; writing to it
// takes more. done gives it back.
func tiled(unit []byte, n int) (d []byte, done func(), err error) {
	const page = 4096
	tile := len(unit) * page
	for tile < 8<<20 {
		tile *= 2
	}
	n = (n + tile - 1) / tile * tile
	f, err := os.CreateTemp("", "verif-tile")
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	os.Remove(f.Name())
	b := make([]byte, 0, tile)
	for len(b) < tile {
		b = append(b, unit...)
	}
	if _, err := f.Write(b); err != nil {
		return nil, nil, err
	}
	const flags = syscall.MAP_PRIVATE | syscall.MAP_NORESERVE
	base, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(n), 0, flags|syscall.MAP_ANON, ^uintptr(0), 0)
	if e != 0 {
		return nil, nil, e
	}
	done = func() { syscall.Syscall(syscall.SYS_MUNMAP, base, uintptr(n), 0) }
	for at := 0; at < n; at += tile {
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(at), uintptr(tile), syscall.PROT_READ|syscall.PROT_WRITE, flags|syscall.MAP_FIXED, f.Fd(), 0)
		if e != 0 {
			done()
			return nil, nil, e
		}
	}
	return unsafe.Slice(*(**byte)(unsafe.Pointer(&base)), n), done, nil
}
