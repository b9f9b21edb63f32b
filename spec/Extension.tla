------------------------------ MODULE Extension ------------------------------
(* How an extension may be written at the end of a phone number, as a syntax *)
(* tree of module Regex.  Letter case does not matter.                       *)
EXTENDS Text, Regex

LOCAL Ch(c) == [k |-> "c", c |-> c]
LOCAL Set(rs) == [k |-> "s", r |-> rs]
LOCAL Group(n, b) == [k |-> "g", n |-> n, b |-> b]
LOCAL Alt(o) == [k |-> "a", o |-> o]
LOCAL Rep(lo, hi, b) == [k |-> "r", lo |-> lo, hi |-> hi, b |-> b]
LOCAL Opt(b) == Rep(0, 1, b)
LOCAL Digit == Set(Unicode.nd)

\* An ASCII letter, given in lower case, in either case ...
LOCAL L(c) == Set(IF c = 115 THEN << <<c, c>>, <<c - 32, c - 32>>, <<383, 383>> >>   \* ... with the long s
                  ELSE << <<c, c>>, <<c - 32, c - 32>> >>)
\* ... and a fullwidth one.
LOCAL F(c) == Set(<< <<65248 + c, 65248 + c>>, <<65216 + c, 65216 + c>> >>)
LOCAL a == 97  LOCAL e == 101 LOCAL i == 105 LOCAL n == 110 LOCAL o == 111
LOCAL s == 115 LOCAL t == 116 LOCAL x == 120

\* ";ext=" digits
LOCAL Rfc == << Ch(59), L(e), L(x), L(t), Ch(61), Group(1, <<Rep(0, 7, <<Digit>>)>>) >>

\* ext, extn, xt, extension, extensión, ...
LOCAL Word ==
  << Opt(<<L(e)>>), L(x), L(t),
     Opt(<<Group(0, << L(e), L(n), L(s), L(i),
                       Group(0, <<Alt(<< <<L(o), Opt(<<Ch(769)>>)>>, <<Set(<< <<243, 243>>, <<211, 211>> >>)>> >>)>>) >>)>>),
     Opt(<<L(n)>>) >>
LOCAL Wide == << Opt(<<F(e)>>), F(x), F(t), Opt(<<F(n)>>) >>
LOCAL Symbol == << Set(<< <<44, 44>>, <<59, 59>>, <<120, 120>>, <<88, 88>>, <<65368, 65368>>, <<65336, 65336>>,
                         <<35, 35>>, <<65283, 65283>>, <<126, 126>>, <<65374, 65374>> >>) >>
LOCAL Abbrev == << L(i), L(n), L(t) >>
LOCAL Anexo == << L(a), L(n), L(e), L(x), L(o) >>
LOCAL WideAbbrev == << F(i), F(n), F(t) >>
LOCAL Blanks == << <<32, 32>>, <<160, 160>>, <<9, 9>>, <<44, 44>> >>

LOCAL Generic ==
  << Rep(0, -1, <<Set(Blanks)>>),
     Group(0, <<Alt(<<Word, Wide, Symbol, Abbrev, Anexo, WideAbbrev>>)>>),
     Opt(<<Set(<< <<58, 58>>, <<46, 46>>, <<65294, 65294>> >>)>>),
     Rep(0, -1, <<Set(Blanks \o << <<45, 45>> >>)>>),
     Group(2, <<Rep(0, 7, <<Digit>>)>>),
     Opt(<<Ch(35)>>) >>

\* The American " 456#".
LOCAL Sharp == << Rep(1, -1, <<Set(<< <<45, 45>>, <<32, 32>> >>)>>), Group(3, <<Rep(1, 5, <<Digit>>)>>), Ch(35) >>

ExtensionPattern == [b |-> << Group(0, <<Alt(<<Rfc, Generic, Sharp>>)>>), [k |-> "$"] >>, g |-> 3]

\* What an extension may begin with.
LOCAL Begins ==
  {e, x, i, a, e - 32, x - 32, i - 32, a - 32}
    \cup {w + l : w \in {65248, 65216}, l \in {e, x, i}}
    \cup {9, 32, 160, 44, 45, 59, 35, 65283, 126, 65374}

\* Split a number into <<number, extension>>; the extension is <<>> or <<digits>>.
RECURSIVE SplitFrom(_, _)
SplitFrom(str, at) ==
  IF at > Len(str) THEN <<str, <<>>>>
  ELSE IF str[at] \notin Begins THEN SplitFrom(str, at + 1)
  ELSE LET m == MatchAt(ExtensionPattern, str, at) IN
       IF m = <<>> THEN SplitFrom(str, at + 1)
       ELSE LET took == {g \in 1..3 : m[2][g] # <<>>}
            IN  <<Before(str, at), IF took = {} THEN <<>> ELSE GroupText(str, m[2], Least(took))>>
SplitExtension(str) == SplitFrom(str, 1)
=============================================================================
