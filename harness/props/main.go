// Conformance driver for the naming and packing of property values: it records
// everything the code says about names and combinations; spec/TraceProps.tla
// judges. Only the sheer number of unknown names is dealt with here.
package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

func main() { Main(map[string]func(*Ctx){"c17": c17}) }

var gcb = []string{"CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}
var incb = []string{"Consonant", "Extend", "Linker"}
var pict = []string{"Extended_Pictographic"}

func c17(c *Ctx) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic", fmt.Sprint(r), nil, nil)
		}
	}()
	type g struct {
		name string
		v    charprops.GCBProperty
		kind string
	}
	var gs []g
	for _, n := range gcb {
		gs = append(gs, g{n, charprops.LookupGCBProperty(n), "gcb"})
	}
	for _, n := range pict {
		gs = append(gs, g{n, charprops.LookupEmojiProperty(n), "pict"})
	}
	none := charprops.GCBProperty(charprops.GCBNone)
	for _, x := range gs {
		c.Trace(map[string]any{"ev": "value", "kind": x.kind, "name": x.name, "v": int(x.v), "none": int(none), "string": x.v.String(), "control": x.v.IsAnyControl()})
	}
	for _, n := range incb {
		v := charprops.LookupInCBProperty(n)
		c.Trace(map[string]any{"ev": "value", "kind": "incb", "name": n, "v": int(v), "none": int(charprops.InCBNone), "string": v.String(), "control": false})
	}
	// Names of other kinds, of other properties, and damaged names.
	known := map[string]map[string]bool{"gcb": {}, "pict": {}, "incb": {}}
	for _, n := range gcb {
		known["gcb"][n] = true
	}
	for _, n := range pict {
		known["pict"][n] = true
	}
	for _, n := range incb {
		known["incb"][n] = true
	}
	var others []string
	base := append(append(append([]string{"", "None", "Other", "XX", "Any", "Error", "0x00", "0x0f", "E_Base", "E_Modifier", "Glue_After_Zwj", "E_Base_GAZ",
		"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component", "InCB", "Math", "Alphabetic", "Lowercase",
		"CN", "EX", "PP", "SM", "RI", "GAZ", "E_Modifier_Base", "Grapheme_Extend", "Extender", "Virama", "Hangul", "LVTV", "VT", "TT", "CRLF", "Zwj",
		"ExtPict", "Ext_Pict", "Extended_Pict", "Pictographic", "Emoji_Extended", "EBase", "EMod", "EPres", "EComp", "EB", "EM", "EBG", "EP", "RegionalIndicator", "Spacing_Mark", "Space_Mark", "Mc", "Mn", "Me",
		"Cc", "Cf", "Zl", "Zp", "Leading_Jamo", "Vowel_Jamo", "Trailing_Jamo", "LV_Syllable", "LVT_Syllable", "Hangul_LV", "ZWNJ", "ZWSP", "Joiner", "Join_Control", "Linking", "Link", "Viramas", "Invisible_Stacker",
		"Pure_Killer", "Conjunct", "Conjunct_Linker", "Cons", "Consonant_Dead", "Prefix", "Prepended", "Prepended_Concatenation_Mark", "Carriage_Return", "Line_Feed", "LineFeed", "Newline", "NL", "Format", "ExtendNumLet",
		"Katakana", "ALetter", "Hebrew_Letter", "MidLetter", "MidNum", "MidNumLet", "Numeric", "Single_Quote", "Double_Quote", "WSegSpace", "SA", "Default_Ignorable_Code_Point", "Grapheme_Base", "Grapheme_Link", "NA", "N/A", "Yes", "No", "Y", "N", "True",
		"Other_Grapheme_Extend", "Grapheme_Cluster_Break", "Indic_Conjunct_Break", "Indic_Syllabic_Category", "GCB", "gcb=CR", "InCB=Linker", "InCB; Linker"}, gcb...), incb...), pict...)
	// All names that occur anywhere in the Unicode data files, wherever they are found.
	words := map[string]bool{}
	filepath.WalkDir(c.Extra, func(path string, e fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(path, ".txt") {
			b, _ := os.ReadFile(path)
			for _, w := range strings.FieldsFunc(string(b), func(r rune) bool { return !(r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z') }) {
				words[w] = true
			}
		}
		return nil
	})
	for w := range words {
		others = append(others, w)
	}
	sort.Strings(others)
	c.Add("words_of_the_data_files", int64(len(words)))
	rng := c.Rng(3)
	for _, n := range base {
		others = append(others, n, strings.ToLower(n), strings.ToUpper(n), " "+n, n+" ", n+"s", n+"\x00", "_"+n, n+n, strings.ReplaceAll(n, "_", " "), strings.ReplaceAll(n, "_", ""))
		for i := range n {
			others = append(others, n[:i], n[i:], n[:i]+n[i+1:])
		}
	}
	for i := 0; i < Pick(c, 20000, 400000); i++ {
		n := []byte(base[rng.Intn(len(base))])
		for k := 1 + rng.Intn(2); k > 0 && len(n) > 0; k-- {
			switch rng.Intn(3) {
			case 0:
				n[rng.Intn(len(n))] = byte(rng.Intn(128))
			case 1:
				n = append(n, byte('A'+rng.Intn(58)))
			default:
				j := rng.Intn(len(n))
				n[j] ^= 0x20
			}
		}
		others = append(others, string(n))
	}
	recorded := 0
	for i, n := range others {
		for _, k := range []string{"gcb", "pict", "incb"} {
			if known[k][n] {
				continue
			}
			var v, none int
			switch k {
			case "gcb":
				v, none = int(charprops.LookupGCBProperty(n)), int(charprops.GCBNone)
			case "pict":
				v, none = int(charprops.LookupEmojiProperty(n)), int(charprops.GCBNone)
			default:
				v, none = int(charprops.LookupInCBProperty(n)), int(charprops.InCBNone)
			}
			if v != none {
				c.Violate("name", fmt.Sprintf("%s property name %q, which does not exist, maps to value 0x%02x", k, n, v), nil, nil)
			}
			if i%29 == 0 && recorded < 1500 {
				recorded++
				c.Trace(map[string]any{"ev": "other", "kind": k, "name": strings.ToValidUTF8(n, "?"), "v": v, "none": none})
			}
		}
	}
	c.Add("unknown_names", int64(3*len(others)))
	// Every combination.
	gs = append(gs, g{"None", none, "none"})
	pack := func(x g, n string, iv charprops.InCBProperty) {
		var cp charprops.CharProperties
		if x.kind == "pict" {
			cp = charprops.MakeCharProperties(none, x.v, iv)
		} else {
			cp = charprops.MakeCharProperties(x.v, none, iv)
		}
		c.Trace(map[string]any{"ev": "pack", "gcb": x.name, "incb": n, "v": int(cp), "gcbV": int(x.v), "incbV": int(iv),
			"gcbBack": int(cp.GCBProperty()), "incbBack": int(cp.InCBProperty()), "isError": cp == charprops.Error,
			"control": cp.GCBProperty().IsAnyControl(), "string": cp.String()})
		c.Add("combinations", 1)
	}
	for _, x := range gs {
		for _, n := range incb {
			pack(x, n, charprops.LookupInCBProperty(n))
		}
		pack(x, "None", charprops.InCBNone)
	}
	e := charprops.CharProperties(charprops.Error)
	c.Trace(map[string]any{"ev": "error", "v": int(e), "control": e.GCBProperty().IsAnyControl(), "string": e.String(),
		"noneControl": none.IsAnyControl()})
	c.Sample(map[string]any{"unknown_name": others[len(others)-1]})
	c.Sample(map[string]any{"unknown_name": others[len(others)/2]})
}
