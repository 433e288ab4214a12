From 386de0b2792244cc0af010ce5b1a50d65db3664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 01/12] fix: report an impossible UTF-8 sequence as soon as its
 bytes are available

LookupFirstChar is documented to return Error when the buffer begins with
something that cannot possibly be extended to a valid UTF-8 sequence, but
it checked for missing bytes before checking the bytes that are present.
As a result ScanGraphemeClusters kept asking for more input for buffers
such as "a\xe0b" even though the first boundary is already decided.
---
 textseg/internal/charprops/property_table.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/charprops/property_table.go b/textseg/internal/charprops/property_table.go
index 0aa85ee..8a64907 100644
--- a/textseg/internal/charprops/property_table.go
+++ b/textseg/internal/charprops/property_table.go
@@ -33,17 +33,19 @@ func LookupFirstChar(p []byte) (props CharProperties, length int) {
 		return Error, 1
 	}
 
-	if len(p) < length {
-		// Buffer begins with incomplete UTF-8 sequence.
-		return zeroProperties, 0
-	}
 	// All of the subsequent bytes of the sequence we're decoding (if any)
-	// must be UTF-8 continuation bytes.
-	for i := 1; i < length; i++ {
+	// must be UTF-8 continuation bytes. We check whichever of them are already
+	// present before deciding whether we need more, because an incorrect byte
+	// means that no amount of additional input could make the sequence valid.
+	for i := 1; i < length && i < len(p); i++ {
 		if (p[i] & 0b11000000) != 0b10000000 {
 			return Error, 1
 		}
 	}
+	if len(p) < length {
+		// Buffer begins with incomplete UTF-8 sequence.
+		return zeroProperties, 0
+	}
 
 	switch length {
 	case 1:
-- 
2.43.0


From 45b64b6040b7ce963e4e0154029e66f4d817ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 02/12] fix: begin an emoji flag after any machine state

Transition is documented to be usable for every pair of adjacent characters
in a text, but a regional indicator that follows an emoji or an Indic
consonant left the machine in StateBase and so the emoji flag it begins
was reported as split in half. ScanGraphemeClusters was unaffected because
it reinitializes the machine at each boundary.
---
 textseg/internal/machine/state.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..13142a6 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -153,14 +153,14 @@ func (s State) nextState(next charprops.CharProperties) State {
 	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
+	if gcbProp == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		// The first regional indicator of a run can also appear in any state,
+		// but the second one of each pair must return to the base state.
+		return StateAwaitEmojiFlag
+	}
 	switch s {
 	case StateBase:
-		switch gcbProp {
-		case charprops.GCBRegionalIndicator:
-			return StateAwaitEmojiFlag
-		default:
-			return StateBase
-		}
+		return StateBase
 	case StateAwaitEmojiFlag:
 		return StateBase
 	case StateGB11BeforeZWJ:
-- 
2.43.0


From ac0a21ff83b576dfd69d082649eeddeb5807b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 03/12] fix: do not share the reserved property block zero when
 compacting

If no character below U+0040 has any properties then the first property
block is all zeroes, and so reusing it for other parts of the tree caused
the generator's own consistency check to panic.
---
 textseg/internal/charprops/gentable/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..8b568a1 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -178,7 +178,8 @@ func (t *treeInProgress) Compact() RawPropertyTree {
 
 	// The first 128 property values are fixed in place to represent the
 	// properties for the ASCII characters.
-	propBlockIdxs[propertyBlockKey(t.rawProps[:blockSize])] = 0
+	// The second of those blocks may be shared with non-ASCII characters, but
+	// the first may not because index zero is reserved (see below).
 	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1
 	props = append(props, t.rawProps[:128]...)
 
-- 
2.43.0


From 8e4c29fa45eaa1fc6547dd53d7228af6ec65af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 04/12] fix: avoid uint16 overflow when locating blocks to
 compact

Block offsets were calculated in uint16 arithmetic, so a tree with 1024 or
more blocks of either kind was compacted from the wrong blocks.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 8b568a1..ee4084b 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -247,7 +247,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -281,7 +281,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From 46bb228d1a861f9a17c8ed35ffb680634e8ad656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/12] fix: give each result of AllTokens its own storage

The tokens were subslices of the internal buffer of a bufio.Scanner, which
overwrites them once the input is longer than that buffer (4096 bytes).
---
 autoversion/textseg/version_agnostic.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..8e2da9a 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -31,5 +32,11 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// The underlying implementation retains the tokens while it carries on
+	// scanning, but bufio.Scanner overwrites its buffer as it advances through
+	// a long input, so each token must have its own storage.
+	return realImpl.AllTokens(buf, func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, token, err := splitFunc(data, atEOF)
+		return advance, bytes.Clone(token), err
+	})
 }
-- 
2.43.0


From 546faa247a3b5b6c234fed009871d894eb25a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 06/12] fix: do not wait for end of input at U+FFFD in
 ScanUTF8Sequences

An encoded U+FFFD and an invalid sequence were both mistaken for a sequence
that is missing some of its bytes, so a bufio.Scanner would buffer
everything that follows and fail with bufio.ErrTooLong for a long input.
---
 autoversion/textseg/version_agnostic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 8e2da9a..a488f20 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -8,6 +8,7 @@ package textseg
 import (
 	"bufio"
 	"bytes"
+	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -18,6 +19,13 @@ import (
 //
 // Deprecated: This will be removed in a future version.
 func ScanUTF8Sequences(data []byte, atEOF bool) (int, []byte, error) {
+	if utf8.FullRune(data) {
+		// The first sequence is already either complete or known to be
+		// invalid, so there's no need to wait for more data. The underlying
+		// implementation would otherwise ask for all of the remaining input
+		// each time it encounters U+FFFD or an invalid sequence.
+		atEOF = true
+	}
 	return realImpl.ScanUTF8Sequences(data, atEOF)
 }
 
-- 
2.43.0


From ef2e8cbc62d2c6bd797abffbced4e29cf6570457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/12] fix: reject signed character references in segmentation
 test data

ParseInt accepts a leading sign, and so a malformed reference such as
"-61" was silently read as U+FFFD instead of being reported.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..9329656 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -44,7 +44,7 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 				if len(charHexStr) == 0 {
 					continue
 				}
-				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
+				charInt, err := strconv.ParseUint(charHexStr, 16, 31)
 				if err != nil {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
-- 
2.43.0


From d012d1563ecee2111b0d09a2b316091a45ce0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 08/12] fix: report character ranges that are reversed or
 beyond U+10FFFF

A range that ends before it starts was read as an empty range, so its
properties were silently lost, and code points that do not exist were
passed on to the table generator, which then overwrote the properties of
U+FFFD.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..abde7dc 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode/utf8"
 )
 
 type Scanner struct {
@@ -51,6 +52,9 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		} else {
 			end = start
 		}
+		if start < 0 || end > utf8.MaxRune || start > end {
+			return Entry{}, fmt.Errorf("invalid character range %q", rng)
+		}
 		return Entry{
 			Start:  start,
 			End:    end + 1,
-- 
2.43.0


From 5f134aed1a68ac7be52a252058939edf4aa3cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 09/12] fix: do not record properties of surrogates as those of
 U+FFFD

utf8.EncodeRune encodes a surrogate as U+FFFD, and so data that lists
surrogate code points changed the properties of that character.
---
 textseg/internal/charprops/gentable/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index ee4084b..e17c4b4 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -113,6 +113,9 @@ func newTreeInProgress() *treeInProgress {
 }
 
 func (t *treeInProgress) Set(r rune, v uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so there's nothing to record
+	}
 	rawProps := t.ensureProps(r)
 	if v == 4 && *rawProps != 0 {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
@@ -121,6 +124,9 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 }
 
 func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so there's nothing to record
+	}
 	rawProps := t.ensureProps(r)
 	*rawProps |= propMask
 }
-- 
2.43.0


From 312ff243d1ebdd75abb09bad223e23ecf5aba6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 10/12] fix: reject character references beyond U+10FFFF in
 segmentation test data

They were silently read as U+FFFD.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 9329656..4cc5d83 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -45,7 +45,7 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 					continue
 				}
 				charInt, err := strconv.ParseUint(charHexStr, 16, 31)
-				if err != nil {
+				if err != nil || charInt > utf8.MaxRune {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
-- 
2.43.0


From 2114c899bcd7325f87aa5a9382b2a522edab848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 11/12] fix: give each entry of a UCD file its own copy of its
 fields

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index abde7dc..69aef19 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -56,9 +56,11 @@ func (sc Scanner) NextEntry() (Entry, error) {
 			return Entry{}, fmt.Errorf("invalid character range %q", rng)
 		}
 		return Entry{
-			Start:  start,
-			End:    end + 1,
-			Fields: Fields(fieldsRaw),
+			Start: start,
+			End:   end + 1,
+			// The line scanner will reuse its buffer for subsequent lines, but
+			// the caller might retain this entry.
+			Fields: Fields(bytes.Clone(fieldsRaw)),
 		}, nil
 	}
 }
-- 
2.43.0


From 5ea811e83a85bef3a4c52408fad5ee028a7e014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 12/12] fix: report when the generated table cannot be written

---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..ef225c3 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	if _, err := f.Write(src); err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
+	if err := f.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0

