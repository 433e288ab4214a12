#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the listed properties)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

GC = "textseg/grapheme_clusters.go"; ST = "textseg/internal/machine/state.go"
PT = "textseg/internal/charprops/property_table.go"; RAW = "textseg/internal/charprops/property_table_raw.go"
PR = "textseg/internal/charprops/properties.go"; GEN = "textseg/internal/charprops/gentable/generate.go"
GO = "textseg/internal/charprops/generate.go"; UCD = "textseg/internal/charprops/ucdparse/ucd_scan.go"
TDS = "textseg/internal/charprops/ucdparse/testdata_scan.go"
A15 = "autoversion/textseg/unicode15.go"; A17 = "autoversion/textseg/unicode17.go"; AVA = "autoversion/textseg/version_agnostic.go"

prop("C01", "Boundaries follow UAX #29 extended grapheme cluster rules",
 "For every well-formed UTF-8 text, the tokens produced by scanning it are exactly its extended grapheme clusters under rules GB1-GB13 and GB999 of UAX #29 (including GB9c): a boundary is reported between two adjacent characters if and only if the rules put one there. This holds whatever came earlier in the text, e.g. runs of regional indicators, emoji ZWJ sequences, and Indic conjuncts of any shape.",
 ["inputs"], "all finite sequences of characters of every combination of segmentation properties",
 "The tests run the 766 sample strings of GraphemeBreakTest.txt, nearly all two or three characters long; the rules look back over an unbounded context, so almost all combinations of context and next character are never tried.",
 [GC, ST], [("State.Transition / State.nextState: rule order and the look-back states", ST), ("scan loop restarting the machine at each cluster", GC)],
 [("State", "summary of the characters already in the cluster that GB9c, GB11, GB12/13 look back on", ST)], ["textseg.ScanGraphemeClusters"])
prop("C02", "Every code point is classified as in Unicode 17.0",
 "For each of the 1,112,064 Unicode scalar values, the scanner treats the character with exactly the Grapheme_Cluster_Break, Extended_Pictographic and Indic_Conjunct_Break values of Unicode 17.0. Code points that the Unicode data does not list behave as having no segmentation property at all.",
 ["inputs"], "all Unicode scalar values, in any context",
 "The tests look up only code points listed in the data files, one property file at a time, so a wrong value for any of the million unlisted code points (or a value of one property on a code point listed only for another) passes.",
 [PT, RAW], [("two- to four-level lookup through lookupIndices into lookupProps", PT), ("generated arrays", RAW)],
 [("lookupIndices / lookupProps", "compressed map from UTF-8 sequence to properties", RAW)], ["textseg.ScanGraphemeClusters"])
prop("C03", "Scanning any bytes terminates, is lossless, and never errors",
 "For every byte string, valid UTF-8 or not, repeatedly scanning to the end finishes without panic, hang or error; every token is non-empty and equal to the bytes it advances over. The tokens in order concatenate to exactly the input: no byte is lost, duplicated, altered or reordered.",
 ["inputs"], "all byte strings, including overlong, surrogate, out-of-range, truncated and arbitrary binary data",
 "The tests feed well-formed text and four short malformed inputs; totality over all byte strings is a universal claim over table indexing, length bookkeeping and end-of-input branches.",
 [GC, PT], [("advance/token bookkeeping (count, remain)", GC), ("index arithmetic on lead and continuation bytes", PT)], observe=["textseg.ScanGraphemeClusters", "bufio.Scanner using it"])
prop("C04", "Each malformed UTF-8 byte is a cluster of its own",
 "A byte that cannot be part of a structurally complete UTF-8 sequence (an impossible lead byte, a stray continuation byte, or a lead byte whose continuation bytes are missing or cut off by the end of input) is always reported as a single-byte cluster, and so is every other byte of such a broken sequence that does not start a sequence of its own. It never joins a neighbour: the text before it and the text after it are segmented exactly as if each stood alone. (Overlong, surrogate and out-of-range sequences, whose handling the documentation leaves open, are not covered.)",
 ["inputs"], "all byte strings, with malformed bytes at any position in any context including the end of input",
 "The tests try a lone 0xC0 and one truncated sequence after a letter; there is no test with malformed bytes inside an emoji, flag, conjunct or CR LF context, nor of any other kind of malformed byte.",
 [GC, PT], [("Error result handling before and inside a cluster", GC), ("lead/continuation byte validation", PT)], observe=["textseg.ScanGraphemeClusters"])
prop("C05", "Tokens do not depend on how the input is delivered",
 "For every byte string, scanning it through a stream yields the same tokens however a reader delivers the bytes: any split into chunks (also inside a UTF-8 sequence or a cluster), reads that return no bytes, and end of input announced with or after the last bytes. They are the same tokens as when the whole input is presented at once.",
 ["inputs", "schedules"], "all byte strings and all delivery schedules (as long as a cluster fits the stream's buffer limit)",
 "The tests use two schedules (all at once and one byte per read) on the 766 well-formed samples; schedules that mix chunk sizes, malformed data split across chunks, and empty reads are not reached.",
 [GC, PT], [("need-more-data results and end-of-input branches", GC), ("incomplete sequence detection", PT)], observe=["bufio.Scanner with textseg.ScanGraphemeClusters", "sequence of split calls"])
prop("C06", "A cluster is reported only once no further input can change it",
 "When a call says that more input may follow, a reported token is final: for every possible continuation of the data, the first cluster of the whole is that same token. When the first cluster could still grow, the call returns no token and asks for more (advance 0, no token, no error).",
 ["inputs", "histories"], "all data prefixes (cut at any byte) and all continuations",
 "The tests check two hand-written prefixes; the rest only see complete inputs, where a premature commit on a partial character or partial context stays invisible.",
 [GC], [("return of (0, nil, nil) when the remaining data is empty or an incomplete sequence", GC)], observe=["textseg.ScanGraphemeClusters(data, false)"])
prop("C07", "A decided cluster is reported without waiting for more input",
 "A call reports the first cluster as soon as the data on hand decides it: when the data holds a complete following character (or a byte that is certainly malformed) before which the rules put a boundary, or begins with a byte that is certainly malformed, the call returns that token even if the input has not ended. With non-empty data at end of input a call always returns a token, and with empty data it returns no token and no error.",
 ["inputs", "histories"], "all data prefixes, with and without end of input",
 "The tests compare final token lists, which come out the same when a split function needlessly asks for more data; only the latency and liveness of a live stream (e.g. a socket) show the difference.",
 [GC, PT], [("early detection of an impossible sequence", PT), ("return at the first split", GC)], observe=["textseg.ScanGraphemeClusters"])
prop("C08", "Scanning is a pure, re-entrant function of the presented bytes",
 "The result of a call depends only on the presented bytes and the end-of-input flag: not on earlier or concurrent calls, on which buffer holds the bytes, or on memory beyond the presented bytes. A call never modifies the presented data or anything returned before, and any number of goroutines may scan at once without data races.",
 ["histories", "schedules", "inputs"], "all interleavings of concurrent calls and all call histories, on shared or reused buffers",
 "The tests scan sequentially and compare each result immediately; shared state between calls would need particular histories or interleavings to show.",
 [GC, ST, PT], [("no package-level mutable state; the machine state is a local value", GC), ("read-only tables", RAW)], observe=["textseg.ScanGraphemeClusters", "race detector"])
prop("C09", "Cluster length and run length are unlimited",
 "The rules apply unchanged to clusters and runs of any length: thousands or millions of combining marks, joiners, linked consonants, Hangul jamo, emoji joined by ZWJ, or regional indicators are segmented exactly as short ones are. No internal limit, counter width or window changes a boundary.",
 ["inputs"], "all pumpings of every repeatable pattern of characters, to any length",
 "The longest test sample has a dozen characters.",
 [GC, ST], [("finite-state look-back instead of counters or windows", ST), ("int count/remain bookkeeping", GC)], observe=["textseg.ScanGraphemeClusters"])
prop("C10", "The table generator encodes any property data set faithfully",
 "For every set of Unicode property data files (grapheme break, emoji and derived core properties) that assigns each scalar value at most one value of each kind, the table built from them maps each scalar value's UTF-8 encoding to exactly the assigned properties and every other scalar value to none. It does so regardless of the order, number, size or position of the ranges and of how much of the table can be shared; unreadable, malformed or contradictory data (a character that is both an emoji and has a break property) is refused, never silently encoded.",
 ["inputs"], "all property data sets over the scalar values",
 "The generator has no tests at all; only its last output, for one data set, is checked in and tested.",
 [GEN, UCD], [("treeInProgress.ensureProps/Set/BitwiseOr: allocation of trie blocks per UTF-8 byte", GEN), ("Compact/buildCompactedBlocks: block sharing", GEN)],
 [("treeInProgress.rawProps/indices", "uncompressed trie", GEN)], ["gentable.BuildRawPropertyTree", "running generate.go"])
prop("C11", "The Unicode data file reader returns exactly the file's records",
 "For every file in the Unicode character database format, the reader yields one entry per data line, in order, with exactly the code points of its single value or inclusive range and its trimmed fields in order, and then reports end of file. Comments, blank lines, surrounding blanks and either line ending never change an entry, an entry stays intact when further ones are read, and a data line whose code point or range is malformed is reported as an error rather than skipped or misread.",
 ["inputs"], "all sequences of lines of the file format",
 "The only test reads one eight-line example.",
 [UCD], [("cut at comment, cut at first separator, range parsing", UCD), ("field iteration and trimming", UCD)], observe=["ucdparse.Scanner.NextEntry", "Entry.AllFields / FirstField"])
prop("C12", "The segmentation test file reader returns exactly the file's samples",
 "For every file in the GraphemeBreakTest.txt format, the reader yields one sample per data line, in order, whose input is the UTF-8 encoding of the listed characters and whose segments are exactly the character groups between break marks, so that the segments concatenate to the input. Comments and blank lines yield nothing and a malformed character reference is reported as an error.",
 ["inputs"], "all sequences of lines of the file format",
 "This reader is itself what the conformance tests trust, and it has no test: a reader that drops samples, or joins segments the way a broken scanner does, makes those tests pass vacuously.",
 [TDS], [("split on break marks, then on no-break marks; UTF-8 encoding", TDS)], observe=["ucdparse.TestDataScanner.NextEntry"])
prop("C13", "autoversion follows the Go release's Unicode version",
 "With every supported Go release (1.21 to 1.27), the autoversion package contains exactly one implementation, its advertised Unicode major version is that of the Go release's own unicode package, and its grapheme scanner returns exactly what the module of that version returns, for every input and end-of-input flag. With an unsupported release there is no implementation (a compile-time error), never one for a different Unicode version.",
 ["configurations", "inputs"], "all Go releases and all inputs",
 "The tests run under two Go releases, count the clusters of a single string, and never look at the advertised version.",
 [A15, A17], [("build constraints", A15 + ", " + A17), ("delegation to the versioned module", A15 + ", " + A17)], observe=["autoversion/textseg.ScanGraphemeClusters", "UnicodeMajorVersion"])
prop("C14", "Token utilities report exactly the split function's tokens",
 "For every buffer of any size and every split function, collecting all tokens returns exactly the tokens (contents and order) that the split function recognizes in the buffer, still intact after the call returns, counting them returns their number, and an error of the split function or a token exceeding the stream limit is reported as an error. The UTF-8 sequence splitter yields, for every byte string and delivery schedule, one token per encoded character and one per malformed byte, without waiting for input it does not need.",
 ["inputs", "schedules"], "all buffers, split functions and delivery schedules",
 "The tests count the tokens of one 30-byte string; large buffers, retained results, errors and the UTF-8 splitter are never exercised.",
 [AVA], [("AllTokens / TokenCount / ScanUTF8Sequences", AVA)], observe=["autoversion/textseg.AllTokens, TokenCount, ScanUTF8Sequences"])
prop("C15", "The boundary machine is right at every adjacent pair of a text",
 "Driven once over a whole text of any length (started at the first character and then stepped with each adjacent pair, without being restarted at boundaries), the boundary state machine reports a boundary between two characters if and only if the UAX #29 rules do. Restarting it after any boundary makes no difference to what it reports.",
 ["inputs", "histories"], "all finite sequences of characters, all choices of boundaries at which to restart",
 "The machine has no tests of its own; the package only ever uses it restarted at each cluster, so the states reached across a boundary are never exercised.",
 [ST], [("Begin / Transition", ST), ("nextState", ST)], [("State", "look-back summary", ST)], ["machine.Begin", "State.Transition"])
prop("C16", "Regenerating the table from the bundled data changes nothing",
 "Running the generator on the bundled Unicode data files succeeds, and the module rebuilt with the regenerated table classifies and segments every scalar value exactly as the checked-in table does. Repeated runs produce the same output.",
 ["inputs"], "all scalar values; all runs of the generator",
 "Tests and build never run the generator; they only compile it.",
 [GO, GEN, RAW], [("go:generate entry point writing property_table_raw.go", GO), ("BuildRawPropertyTree", GEN)], observe=["go run generate.go, then textseg.ScanGraphemeClusters"])
prop("C17", "Segmentation property values survive naming and packing",
 "Every Unicode property value name that the rules use maps to its own distinct value and back, and any other name maps to no property. Combining one grapheme break (or pictographic) value with one conjunct break value loses neither: both are recovered exactly, different combinations are different and read differently as text, no combination is mistaken for the invalid-input marker, and exactly CR, LF and Control count as controls.",
 ["inputs"], "all names and all combinations of property values",
 "The tests use the name lookup on both sides of their comparisons, so an error there cancels out, and never look at packing or rendering.",
 [PR], [("MakeCharProperties, GCBProperty, InCBProperty", PR), ("LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty, String", PR)], observe=["charprops package functions"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
