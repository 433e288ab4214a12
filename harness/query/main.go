// Compares the table compiled into this build with a data set (end-to-end part
// of C10), through the lookup function the scanner uses.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

func main() { Main(map[string]func(*Ctx){"query": query}) }

func query(c *Ctx) {
	var w struct {
		Name   string
		Ranges [][]any
	}
	b, err := os.ReadFile(c.Extra)
	must(err)
	must(json.Unmarshal(b, &w))
	for _, r := range w.Ranges {
		lo, hi := rune(r[0].(float64)), rune(r[1].(float64))
		g, p, j := charprops.LookupGCBProperty(r[2].(string)), charprops.LookupEmojiProperty(r[3].(string)), charprops.LookupInCBProperty(r[4].(string))
		want := charprops.MakeCharProperties(g, p, j)
		for x := lo; x <= hi; x++ {
			if !utf8.ValidRune(x) {
				continue
			}
			e := []byte(string(x))
			got, n := look(e)
			if got != want || n != len(e) {
				c.Violate("end-to-end", fmt.Sprintf("data set %s: U+%04X is looked up as %s (%d bytes), the data says %s (%d bytes)", w.Name, x, got, n, want, len(e)), nil, nil)
				return
			}
			c.stats["lookups"]++
		}
	}
}

func look(e []byte) (p charprops.CharProperties, n int) {
	defer func() {
		if recover() != nil {
			n = -1
		}
	}()
	return charprops.LookupFirstChar(e)
}
