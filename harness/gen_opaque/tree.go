package main

// Stands in for tree.go when the generator package no longer offers what that
// file uses: only runs of the generator as a whole are judged then.

const tablesReadable = false

type table struct{}

type outcome struct {
	tree    table
	refused string
}

func build(dir string) outcome { return outcome{} }

func lookup(t *table, e []byte) (uint8, bool) { return 0, false }
