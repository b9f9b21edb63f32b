-------------------------------- MODULE Phone --------------------------------
(* Parsing, classification, validation and formatting of phone numbers over  *)
(* a database `db' built by module Loader.                                   *)
EXTENDS Loader, Extension

RE(t) == Texts[t].re[1]
OptMatchHead(o, s) == o # None /\ StartsWith(RE(o[1]), s)

\* The regions a caller can name.
RegionIds == LET l == JsonDeserialize("data/regions.json") IN {l[i] : i \in DOMAIN l}

-----------------------------------------------------------------------------
(* Reading: a text is a tel: URI or the like (RFC 3966), else free text.     *)
(* [national, prefix, ext]: prefix and ext are optional.                     *)

IsSeparator(c) == c \in {40, 41, 45, 46}             \* ( ) - .
IsMark(c) == c \in {45, 95, 46, 33, 126, 42, 39, 40, 41}
IsParamChar(c) == IsAlphaNum(c) \/ IsMark(c) \/ c \in {91, 93, 47, 58, 38, 43, 36}
IsParamName(c) == IsAlphaNum(c) \/ c = 45
Semicolon == 59
Equals == 61

ReadBad == [bad |-> TRUE]

TelScheme(s) ==
  LET low(i) == IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]
  IN  IF Len(s) >= 4 /\ low(1) = 116 /\ low(2) = 101 /\ low(3) = 108 /\ s[4] = 58 THEN From(s, 5) ELSE s

\* ;name=value;name=value...  The last one of a name wins; anything else ends the list.
RECURSIVE Params(_, _)
Params(s, acc) ==
  IF s = <<>> \/ s[1] # Semicolon THEN acc
  ELSE LET i == Scan(s, 2, LAMBDA c : ~IsParamName(c)) IN
       IF i > Len(s) \/ s[i] # Equals THEN acc
       ELSE LET j == Scan(s, i + 1, LAMBDA c : ~IsParamChar(c))
            IN  Params(From(s, j), Append(acc, <<SubSeq(s, 2, i - 1), SubSeq(s, i + 1, j - 1)>>))
Param(ps, name) ==
  LET J == {i \in DOMAIN ps : ps[i][1] = name} IN IF J = {} THEN None ELSE Some(ps[Greatest(J)][2])

PhoneContext == <<112, 104, 111, 110, 101, 45, 99, 111, 110, 116, 101, 120, 116>>
Ext == <<101, 120, 116>>

ReadRfc3966(s) ==
  IF \E i \in DOMAIN s : s[i] = 32 THEN ReadBad
  ELSE LET t == TelScheme(s)
           \* a plus and what follows it up to a separator: a calling code
           stop == IF t # <<>> /\ t[1] = Plus THEN Scan(t, 2, IsSeparator) ELSE 0
           plus == stop > 2
           u == IF plus THEN From(t, stop) ELSE t
           j == Scan(u, 1, LAMBDA c : ~(IsHexDigit(c) \/ IsSeparator(c)))
           ps == Params(From(u, j), <<>>)
           ctx == Param(ps, PhoneContext)
       IN  IF j = 1 \/ (j <= Len(u) /\ u[j] # Semicolon) THEN ReadBad
           ELSE [bad |-> FALSE, national |-> Before(u, j),
                 prefix |-> IF plus THEN Some(SubSeq(t, 2, stop - 1))
                            ELSE IF ctx = None THEN None
                            ELSE IF ctx[1] # <<>> /\ ctx[1][1] = Plus THEN Some(Tail(ctx[1])) ELSE ctx,
                 ext |-> Param(ps, Ext)]

\* Where a second number starts: "/x" or "\x", blanks allowed in between.
SecondNumber(s) ==
  LET I == {i \in DOMAIN s : s[i] \in {47, 92}
              /\ LET j == Scan(s, i + 1, LAMBDA c : c # 32) IN j <= Len(s) /\ s[j] = 120}
  IN  IF I = {} THEN Len(s) + 1 ELSE Least(I)

ReadNatural(s) ==
  LET start == Scan(s, 1, LAMBDA c : IsPlus(c) \/ IsDecimalNumber(c))
      t == From(s, start)
      u == SubSeq(t, 1, ScanBack(t, LAMBDA c : IsLetterOrNumber(c) \/ c = 35))
      v == Before(u, SecondNumber(u))
      x == SplitExtension(v)
  IN  IF start > Len(s) \/ v = <<>> THEN ReadBad
      ELSE [bad |-> FALSE, national |-> x[1], prefix |-> None, ext |-> x[2]]

Read(s) == LET r == ReadRfc3966(s) IN IF r.bad THEN ReadNatural(s) ELSE r

-----------------------------------------------------------------------------
(* Could this be a phone number at all?                                      *)

IsFiller(c) == IsPunctuation(c) \/ c = Star
\* After leading pluses: at least three digits among punctuation, then letters too, and nothing else.
IsLongViable(s) ==
  LET i == Scan(s, 1, LAMBDA c : ~IsPlus(c))
      j == Scan(s, i, LAMBDA c : ~(IsFiller(c) \/ IsAsciiDigit(c)))   \* end of the part without letters
      k == Scan(s, j, LAMBDA c : ~(IsFiller(c) \/ IsAsciiDigit(c) \/ IsAsciiLetter(c)))
  IN  k > Len(s) /\ Len(SelectSeq(SubSeq(s, i, j - 1), IsAsciiDigit)) >= 3
IsShortViable(s) == Len(s) = 2 /\ IsAsciiDigit(s[1]) /\ IsAsciiDigit(s[2])
IsViable(s) == IsShortViable(s) \/ IsLongViable(s)
\* A calling code that was split off belongs to the number too.
ViableReading(r) == IsViable(r.national) \/ (r.prefix # None /\ IsViable(r.prefix[1] \o r.national))

-----------------------------------------------------------------------------
(* Normalisation: digits of all scripts become ASCII digits, letters keypad  *)
(* digits in a vanity number, everything else goes.                          *)

IsVanity(s) == Len(SelectSeq(s, IsAsciiLetter)) >= 3
NormalChar(c, vanity) == IF AsDigit(c) # 0 THEN AsDigit(c)
                         ELSE IF vanity /\ IsAsciiLetter(c) THEN Keypad(c) ELSE 0
Normal(s, vanity) == SelectSeq([i \in DOMAIN s |-> NormalChar(s[i], vanity)], LAMBDA c : c # 0)
NormalOpt(o, vanity) == IF o = None THEN None ELSE Some(Normal(o[1], vanity))

-----------------------------------------------------------------------------
(* Databases.                                                                *)

\* An optional index of a territory.
RegionMeta(db, region) == IF region \in DOMAIN db.byId THEN Some(db.byId[region]) ELSE None
NoRegion == ""
IsCode(db, n) == n \in db.codes
NonGeographic == "001"

-----------------------------------------------------------------------------
(* Classification.                                                           *)

DescriptorMatches(d, nsn) ==
  /\ d.len = <<>> \/ \E i \in DOMAIN d.len : d.len[i] = Len(nsn)
  /\ MatchesWhole(RE(d.pat[1]), nsn)
Matches(m, name, nsn) == m.desc[name] # None /\ DescriptorMatches(m.desc[name][1], nsn)
MatchesGeneral(m, nsn) == DescriptorMatches(m.desc["generalDesc"][1], nsn)

\* The first class of this list that a number fits is its type.
TypeOrder ==
  << <<"premiumRate", "premium_rate">>, <<"tollFree", "toll_free">>, <<"sharedCost", "shared_cost">>,
     <<"voip", "voip">>, <<"personalNumber", "personal_number">>, <<"pager", "pager">>, <<"uan", "uan">>,
     <<"voicemail", "voicemail">> >>

NumberType(m, nsn) ==
  IF ~MatchesGeneral(m, nsn) THEN "unknown"
  ELSE LET I == {i \in DOMAIN TypeOrder : m.desc[TypeOrder[i][1]] # None}
           first == SelectInSeq(TypeOrder, LAMBDA e : Matches(m, e[1], nsn))
       IN  IF first # 0 THEN TypeOrder[first][2]
           ELSE IF Matches(m, "fixedLine", nsn)
                THEN IF m.desc["mobile"] # None
                        /\ (m.desc["mobile"][1].pat = m.desc["fixedLine"][1].pat \/ Matches(m, "mobile", nsn))
                     THEN "fixed_line_or_mobile" ELSE "fixed_line"
           ELSE IF Matches(m, "mobile", nsn) THEN "mobile" ELSE "unknown"

\* The territory of a number: optional index.
Territory(db, code, nsn) ==
  IF ~IsCode(db, code) THEN None
  ELSE LET l == db.byCode[code]
           id(i) == Str(db.meta[i].id[1])
       IN  IF Len(l) = 1
           THEN IF id(l[1]) = NonGeographic THEN Some(l[1])
                ELSE IF id(l[1]) \in RegionIds THEN Some(db.byId[id(l[1])]) ELSE None
           ELSE LET \* regions are consulted in order; leading digits decide where there are any
                    Claims(j) == LET m == db.meta[db.byId[id(l[j])]]
                                 IN  IF m.lead # None THEN OptMatchHead(m.lead, nsn) ELSE NumberType(m, nsn) # "unknown"
                    k == SelectInSeq([j \in DOMAIN l |-> j], Claims)
                IN  IF k = 0 \/ id(l[k]) \notin RegionIds THEN None ELSE Some(db.byId[id(l[k])])

TypeOf(db, code, nsn) ==
  LET t == Territory(db, code, nsn) IN IF t = None THEN "unknown" ELSE NumberType(db.meta[t[1]], nsn)
IsValid(db, code, nsn) == TypeOf(db, code, nsn) # "unknown"

-----------------------------------------------------------------------------
(* Templates: $1, ${1} refer to groups, $$ is a dollar.                      *)

IsWord(c) == IsAlphaNum(c) \/ c = 95
Dollar == 36
GroupRef(name, s, m) ==       \* m = <<from, to, caps>>
  IF name # <<>> /\ \A i \in DOMAIN name : IsAsciiDigit(name[i])
  THEN LET n == DigitsValue(name)
       IN  IF n = 0 THEN SubSeq(s, m[1], m[2] - 1)
           ELSE IF n > Len(m[3]) \/ m[3][n] = <<>> THEN <<>>
           ELSE SubSeq(s, m[3][n][1], m[3][n][2] - 1)
  ELSE <<>>

RECURSIVE Expand(_, _, _, _)
Expand(tpl, i, s, m) ==
  IF i > Len(tpl) THEN <<>>
  ELSE IF tpl[i] # Dollar \/ i = Len(tpl) THEN <<tpl[i]>> \o Expand(tpl, i + 1, s, m)
  ELSE IF tpl[i + 1] = Dollar THEN <<Dollar>> \o Expand(tpl, i + 2, s, m)
  ELSE IF tpl[i + 1] = 123
       THEN LET j == Scan(tpl, i + 2, LAMBDA c : c = 125)
            IN  IF j > Len(tpl) THEN <<Dollar>> \o Expand(tpl, i + 1, s, m)
                ELSE GroupRef(SubSeq(tpl, i + 2, j - 1), s, m) \o Expand(tpl, j + 1, s, m)
  ELSE LET j == Scan(tpl, i + 1, LAMBDA c : ~IsWord(c))
       IN  IF j = i + 1 THEN <<Dollar>> \o Expand(tpl, i + 1, s, m)
           ELSE GroupRef(SubSeq(tpl, i + 1, j - 1), s, m) \o Expand(tpl, j, s, m)

\* Replace the first match of a regular expression by a template.
Replace(re, s, tpl) ==
  LET m == Find(re, s) IN
  IF m = <<>> THEN s ELSE Before(s, m[1]) \o Expand(tpl, 1, s, m) \o From(s, m[2])

-----------------------------------------------------------------------------
(* From reading to number.  A number on its way:                             *)
(* [src, national, prefix, ext, carrier]; an error is [err |-> kind].        *)

Err(k) == [err |-> k]
IsErr(r) == "err" \in DOMAIN r
MinNsn == 2
MaxNsn == 17

\* The default international prefix applies when there is no reference region.
MatchIdd(db, region, s) ==
  IF region = NoRegion THEN IF HasPrefix(s, <<Zero, Zero>>) THEN Some(3) ELSE None
  ELSE LET m == RegionMeta(db, region) IN
       IF m = None \/ db.meta[m[1]].idd = None THEN None
       ELSE LET r == MatchHead(RE(db.meta[m[1]].idd[1]), s) IN IF r = <<>> THEN None ELSE Some(r[1])

\* Recognise what comes before the calling code: nothing, pluses, an international prefix.
International(db, region, r) ==
  LET vanity == IsVanity(r.national)
      pluses == Scan(r.national, 1, LAMBDA c : ~IsPlus(c)) - 1
      digits == Normal(From(r.national, pluses + 1), vanity)
      idd == MatchIdd(db, region, digits)
      \* no calling code starts with 0: after a plus, only then this can be a prefix
      strip == /\ idd # None
               /\ pluses > 0 => HasPrefix(digits, <<Zero>>)
               /\ ~HasPrefix(From(digits, idd[1]), <<Zero>>)
      base == [src |-> "plus", national |-> digits, prefix |-> NormalOpt(r.prefix, vanity),
               ext |-> NormalOpt(r.ext, vanity), carrier |-> None]
  IN  IF r.prefix # None THEN [base EXCEPT !.national = Normal(r.national, vanity)]
      ELSE [base EXCEPT !.src = IF pluses > 0 THEN "plus" ELSE IF strip THEN "idd" ELSE "default",
                        !.national = IF strip THEN From(digits, idd[1]) ELSE digits]

\* The calling code a digit string starts with: its length, or 0.
CodeLength(db, s) ==
  LET I == {i \in 1..3 : i <= Len(s) /\ IsCode(db, DigitsValue(SubSeq(s, 1, i)))} IN IF I = {} THEN 0 ELSE Least(I)

CallingCode(db, region, n) ==
  IF n.src # "default"
  THEN IF Len(n.national) + (IF n.prefix = None THEN 0 ELSE Len(n.prefix[1])) <= MinNsn THEN Err("TooShortNsn")
       ELSE IF n.prefix = Some(<<>>) THEN Err("InvalidCountryCode")
       ELSE IF n.prefix # None /\ IsCode(db, DigitsValue(n.prefix[1])) THEN n
       ELSE LET all == IF n.prefix = None THEN n.national ELSE n.prefix[1] \o n.national
                k == CodeLength(db, all)
            IN  IF all[1] = Zero \/ k = 0 THEN Err("InvalidCountryCode")
                ELSE [n EXCEPT !.prefix = Some(SubSeq(all, 1, k)), !.national = From(all, k + 1)]
  ELSE LET t == IF region = NoRegion THEN None ELSE RegionMeta(db, region) IN
       IF t = None THEN Err("InvalidCountryCode")
       ELSE LET m == db.meta[t[1]]
                code == DigitsOf(m.cc[1])
                n2 == [n EXCEPT !.prefix = Some(code)]
            \* the calling code is dropped only from what is no number of the region as it stands
            IN  IF HasPrefix(n.national, code) /\ ~MatchesGeneral(m, n.national)
                THEN [n2 EXCEPT !.src = "number", !.national = From(n.national, Len(code) + 1)]
                ELSE n2

CodeOf(n) == IF n.prefix = None THEN 0 ELSE DigitsValue(n.prefix[1])

\* The numbering plan whose national prefix and carrier codes apply: optional index.
PlanOf(db, region, n) ==
  IF n.src = "default" THEN RegionMeta(db, region)
  ELSE Territory(db, CodeOf(n), WithoutZeros(n.national))

\* Strip the national prefix and pick up the carrier, unless that takes away from a valid number.
NationalPrefix(m, n) ==
  IF m.npp = None
  THEN IF m.np = None \/ ~HasPrefix(n.national, Points(m.np[1])) THEN n
       ELSE LET rest == From(n.national, Len(Points(m.np[1])) + 1)
            IN  IF MatchesGeneral(m, n.national) /\ ~MatchesGeneral(m, rest) THEN n
                ELSE [n EXCEPT !.national = rest]
  ELSE LET re == RE(m.npp[1])
           h == MatchHead(re, n.national)
       IN IF h = <<>> THEN n
          ELSE LET caps == h[2]
                   last == IF re.g = 0 THEN Some(Before(n.national, h[1])) ELSE GroupText(n.national, caps, re.g)
                   transform == m.npt # None /\ last # None
                   rest == From(n.national, h[1])
                   new == IF transform THEN Expand(Points(m.npt[1]), 1, n.national, <<1, h[1], caps>>) \o rest
                          ELSE rest
                   carrier == IF transform THEN IF re.g > 1 THEN GroupText(n.national, caps, 1) ELSE None
                              ELSE IF re.g > 0 THEN last ELSE None
               IN IF MatchesGeneral(m, n.national) /\ ~MatchesGeneral(m, new) THEN n
                  ELSE [n EXCEPT !.national = new, !.carrier = carrier]

\* Too short by the lengths the region gives for its numbers in general?
ShorterThanPossible(m, nsn) ==
  LET d == m.desc["generalDesc"][1]
  IN  /\ d.len # <<>>
      /\ \A i \in DOMAIN d.loc : d.loc[i] # Len(nsn)
      /\ Len(nsn) < d.len[1]

Strip(db, region, n) ==
  LET p == PlanOf(db, region, n) IN
  IF p = None THEN n
  ELSE LET s == NationalPrefix(db.meta[p[1]], n) IN IF ShorterThanPossible(db.meta[p[1]], s.national) THEN n ELSE s

MaxValue == <<55, 50, 48, 53, 55, 53, 57, 52, 48, 51, 55, 57, 50, 55, 57, 51, 53>>     \* 2^56 - 1

Limits(n) ==
  CASE Len(n.national) < MinNsn -> Err("TooShortNsn")
    [] Len(n.national) > MaxNsn -> Err("TooLong")
    [] WithoutZeros(n.national) = <<>> -> Err("MalformedInteger")
    [] NumberLess(MaxValue, WithoutZeros(n.national)) -> Err("TooLong")
    [] OTHER -> [code |-> CodeOf(n), src |-> n.src, nsn |-> n.national,
                 ext |-> IF n.ext = Some(<<>>) THEN None ELSE n.ext, carrier |-> n.carrier]

Parse(db, region, s) ==
  LET r == Read(s) IN
  IF r.bad THEN Err("NoNumber")
  ELSE IF ~ViableReading(r) THEN Err("NoNumber")
  ELSE LET n == CallingCode(db, region, International(db, region, r))
       IN  IF IsErr(n) THEN n ELSE Limits(Strip(db, region, n))

-----------------------------------------------------------------------------
(* Formatting.  A result is an optional string: <<>> if the calling code is  *)
(* not in the database.                                                      *)

ChooseFormat(fs, nsn) ==
  LET Fits(f) == /\ f.lead = <<>> \/ StartsWith(RE(f.lead[Len(f.lead)]), nsn)
                 /\ LET h == MatchHead(RE(f.pat[1]), nsn) IN h # <<>> /\ h[1] = Len(nsn) + 1
      i == SelectInSeq(fs, Fits)
  IN  IF i = 0 THEN None ELSE Some(fs[i])

\* Substitute every occurrence of a word.
RECURSIVE Subst(_, _, _)
Subst(s, word, by) ==
  IF Len(s) < Len(word) THEN s
  ELSE IF HasPrefix(s, word) THEN by \o Subst(From(s, Len(word) + 1), word, by)
  ELSE <<s[1]>> \o Subst(Tail(s), word, by)
NP == <<36, 78, 80>>
FG == <<36, 70, 71>>
CC == <<36, 67, 67>>

\* The first $digit of a template: its index, or 0.
FirstGroup(tpl) ==
  LET I == {i \in 1..(Len(tpl) - 1) : tpl[i] = Dollar /\ IsDecimalNumber(tpl[i + 1])} IN IF I = {} THEN 0 ELSE Least(I)

\* Put the first group of the template in the place the rule says.
WithRule(m, tpl, rule, carrier) ==
  LET i == FirstGroup(tpl) IN
  IF i = 0 THEN tpl
  ELSE LET first == SubSeq(tpl, i, i + 1)
           r1 == Subst(rule, NP, IF m.np = None THEN <<>> ELSE Points(m.np[1]))
           r2 == Subst(r1, FG, <<Dollar>> \o first)
           r3 == Subst(r2, CC, carrier)
       IN  Before(tpl, i) \o Expand(r3, 1, tpl, <<i, i + 2, << <<i, i + 2>> >>>>) \o From(tpl, i + 2)

DefaultExtensionPrefix == <<32, 101, 120, 116, 46, 32>>
WithExtension(m, x, s) ==
  IF x.ext = None THEN s
  ELSE s \o (IF m.ext = None THEN DefaultExtensionPrefix ELSE Points(m.ext[1])) \o x.ext[1]
RfcExtension == <<59, 101, 120, 116, 61>>
Tel == <<116, 101, 108, 58>>

\* x = [code, nsn, ext, carrier]; custom is an optional format to use instead of the region's.
Format(db, x, mode, custom) ==
  IF ~IsCode(db, x.code) THEN None
  ELSE
  LET m == db.meta[db.byCode[x.code][1]]
      f == IF custom # None THEN custom
           ELSE ChooseFormat(IF m.ifmts = <<>> \/ mode = "national" THEN m.fmts ELSE m.ifmts, x.nsn)
      body == IF f = None THEN x.nsn ELSE Replace(RE(f[1].pat[1]), x.nsn, Points(f[1].fmt[1]))
      ruled(rule, carrier) == Replace(RE(f[1].pat[1]), x.nsn, WithRule(m, Points(f[1].fmt[1]), rule, carrier))
      cc == <<Plus>> \o DigitsOf(x.code)
  IN  Some(
      CASE mode = "e164" -> cc \o x.nsn
        [] mode = "international" -> WithExtension(m, x, cc \o <<32>> \o body)
        [] mode = "national" ->
             WithExtension(m, x,
               IF f = None THEN x.nsn
               ELSE IF x.carrier # None /\ f[1].car # None THEN ruled(Points(f[1].car[1]), x.carrier[1])
               ELSE IF f[1].np # None THEN ruled(Points(f[1].np[1]), <<>>)
               ELSE body)
        [] mode = "rfc3966" ->
             Tel \o cc \o <<45>> \o SquashRuns(body, IsPunctuation, 45)
               \o (IF x.ext = None THEN <<>> ELSE RfcExtension \o x.ext[1]))
=============================================================================
