----------------------------- MODULE MC_Stream -----------------------------
EXTENDS Stream, TLC
CONSTANTS ByteAlphabet, InputLen, ClassName
\* A toy repertoire: two-byte sequences and ASCII only need few bytes to reach
\* every state of the rules, so code points are mapped to classes freely. Of the
\* three-byte characters only those whose second byte is 129 have a class, so
\* that some incomplete characters leave it open what follows and some do not.
Toy(cp) == CASE cp = 13 -> "CR" [] cp = 10 -> "LF" [] cp = 97 -> "Other"
             [] cp = 0  -> "Control"
             [] cp >= 2048 /\ (cp \div 64) % 64 # 1 -> "Other"
             [] cp % 64 = 1 -> ClassName[1]
             [] cp % 64 = 2 -> ClassName[2]
             [] cp % 64 = 3 -> ClassName[3]
             [] OTHER -> "Other"
ToySpans == {<<128, 191>>, <<12288, 16383>>} \cup {<<12288 + 64 * k, 12351 + 64 * k>> : k \in 0..63}
ToyTab == [p \in ToySpans |-> {Toy(cp) : cp \in p[1]..p[2]}]
ToyIn(lo, hi) == ToyTab[<<lo, hi>>]
AllInputs == UNION {[1..n -> ByteAlphabet] : n \in 0..InputLen}
EmojiClasses == <<"ExtPict", "ZWJ", "Extend">>
IndicClasses == <<"Consonant", "Linker", "ExtendX">>
FlagClasses  == <<"RI", "Prepend", "L">>
=============================================================================
