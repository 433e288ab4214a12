----------------------------- MODULE BundledUcd -----------------------------
EXTENDS UcdFile, BundledFile
Meaning(x) == UcdLine(x)
=============================================================================
