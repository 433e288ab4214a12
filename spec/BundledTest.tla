---------------------------- MODULE BundledTest ----------------------------
EXTENDS TestFile, BundledFile
Meaning(x) == TestLine(x)
=============================================================================
