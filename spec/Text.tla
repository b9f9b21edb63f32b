-------------------------------- MODULE Text --------------------------------
(* Characters and strings.  A string is a sequence of Unicode code points.   *)
EXTENDS Integers, Sequences, SequencesExt, Json

\* \p{L}, \p{N} and \p{Nd} as ranges of code points (the Unicode version of the regex crate).
Unicode == JsonDeserialize("data/unicode.json")

InRanges(rs, c) == \E x \in DOMAIN rs : rs[x][1] <= c /\ c <= rs[x][2]

IsAsciiDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAsciiLetter(c) == IsUpper(c) \/ IsLower(c)
IsHexDigit(c) == IsAsciiDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsAlphaNum(c) == IsAsciiDigit(c) \/ IsAsciiLetter(c)

IsDecimalNumber(c) == IF c < 128 THEN IsAsciiDigit(c) ELSE InRanges(Unicode.nd, c)      \* \p{Nd}
IsLetterOrNumber(c) ==                                                                  \* \p{L} or \p{N}
  IF c < 128 THEN IsAlphaNum(c) ELSE InRanges(Unicode.l, c) \/ InRanges(Unicode.n, c)

\* The ASCII digit for a decimal digit of any script, else 0.  The digits of a
\* script follow each other from zero to nine, and so do the scripts in a range.
AsDigit(c) ==
  IF c < 128 THEN IF IsAsciiDigit(c) THEN c ELSE 0
  ELSE LET R == {x \in DOMAIN Unicode.nd : Unicode.nd[x][1] <= c /\ c <= Unicode.nd[x][2]}
       IN  IF R = {} THEN 0 ELSE 48 + ((c - Unicode.nd[CHOOSE x \in R : TRUE][1]) % 10)

\* The phone keypad: ABC=2 DEF=3 GHI=4 JKL=5 MNO=6 PQRS=7 TUV=8 WXYZ=9.
KeypadRow == <<2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 7, 7, 8, 8, 8, 9, 9, 9, 9>>
Keypad(c) == 48 + KeypadRow[IF IsUpper(c) THEN c - 64 ELSE c - 96]

\* Punctuation that may stand inside a phone number.
PunctuationRanges ==
  << <<32, 32>>, <<40, 41>>, <<45, 47>>, <<91, 91>>, <<93, 93>>, <<120, 120>>, <<126, 126>>,
     <<160, 160>>, <<173, 173>>, <<8203, 8203>>, <<8208, 8213>>, <<8275, 8275>>, <<8288, 8288>>,
     <<8722, 8722>>, <<8764, 8764>>, <<12288, 12288>>, <<12540, 12540>>, <<65288, 65289>>,
     <<65293, 65295>>, <<65339, 65339>>, <<65341, 65341>>, <<65374, 65374>> >>
IsPunctuation(c) == InRanges(PunctuationRanges, c)
Plus == 43
IsPlus(c) == c = Plus \/ c = 65291
Star == 42

-----------------------------------------------------------------------------
\* Number of bytes of the string in UTF-8.
Utf8Len(s) ==
  FoldLeft(LAMBDA n, c : n + (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4), 0, s)

From(s, i) == SubSeq(s, i, Len(s))
Before(s, i) == SubSeq(s, 1, i - 1)

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
\* The first index at or after i whose character satisfies P; Len(s) + 1 if there is none.
Scan(s, i, P(_)) == LET I == {j \in i..Len(s) : P(s[j])} IN IF I = {} THEN Len(s) + 1 ELSE Least(I)
\* The last index whose character satisfies P; 0 if there is none.
ScanBack(s, P(_)) == LET I == {j \in 1..Len(s) : P(s[j])} IN IF I = {} THEN 0 ELSE Greatest(I)

\* Replace every maximal run of characters satisfying P by one character r.
SquashRuns(s, P(_), r) ==
  FoldLeft(LAMBDA o, c : IF P(c) THEN IF o.in THEN o ELSE [s |-> Append(o.s, r), in |-> TRUE]
                         ELSE [s |-> Append(o.s, c), in |-> FALSE],
           [s |-> <<>>, in |-> FALSE], s).s

Zero == 48
\* Number of leading zeros.
ZeroCount(s) == Scan(s, 1, LAMBDA c : c # Zero) - 1
WithoutZeros(s) == From(s, ZeroCount(s) + 1)

\* The value of a string of ASCII digits, and 1000000 for anything greater.
Saturated == 1000000
DigitsValue(s) ==
  FoldLeft(LAMBDA n, c : IF n * 10 + (c - 48) > Saturated THEN Saturated ELSE n * 10 + (c - 48), 0, s)

\* The digits of a natural number.
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))

\* Strings of digits without leading zeros compare as numbers by length, then lexically.
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == i <= Len(a) /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LexLess(a, b, i + 1)))
NumberLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b, 1))
=============================================================================
