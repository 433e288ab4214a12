package main

import (
	"fmt"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/gentable"
)

// What depends on the generator package's own functions and types.

const tablesReadable = true

type table = gentable.RawPropertyTree

type outcome struct {
	tree    table
	refused string // error or panic
}

func build(dir string) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.refused = fmt.Sprintf("panic: %v", r)
		}
	}()
	t, err := gentable.BuildRawPropertyTree(dir)
	if err != nil {
		return outcome{refused: err.Error()}
	}
	return outcome{tree: t}
}

// lookup reads a table the way the scanner does.
func lookup(t *table, e []byte) (v uint8, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if len(e) == 1 {
		return uint8(at(t.Properties, int(e[0]))), true
	}
	b := 0
	for _, x := range e[:len(e)-1] {
		b = at(t.Indices, b<<6+int(x&63))
	}
	return uint8(at(t.Properties, b<<6+int(e[len(e)-1]&63))), true
}

// at does not care which integer type the table uses.
func at[T ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int | ~int32 | ~uint](s []T, i int) int {
	return int(s[i])
}
