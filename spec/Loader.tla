------------------------------- MODULE Loader -------------------------------
(* The metadata loader as a pushdown machine over the events of an XML       *)
(* document, and the database built from what it loads.                      *)
(*                                                                           *)
(* Texts is the table of all strings of the documents under study:           *)
(*   Texts[t] = [s |-> the string, p |-> its code points, re |-> <<regex>>]  *)
(* re = <<>> if the string is no well-formed regular expression.  A string   *)
(* is referred to by its index t, so equal strings are equal indices.        *)
(*                                                                           *)
(* An event is a record with a kind k:                                       *)
(*   "start", "empty"  n |-> name, a |-> attributes as << <<name, t>>, ... >>*)
(*                     x |-> TRUE if the attributes are malformed            *)
(*   "end"             n |-> name                                            *)
(*   "text"            t |-> text                                            *)
(*   "comment", "doctype", "eof", and "other": anything else, errors too     *)
EXTENDS Text
CONSTANT Run                        \* [texts |-> the table of strings, docs |-> lists of events]
Texts == Run.texts

EmptyText == 1                      \* Texts[1].s = ""
Points(t) == Texts[t].p
Str(t) == Texts[t].s

\* Optional values are sequences of length 0 or 1.
None == <<>>
Some(v) == <<v>>

DescriptorNames ==
  {"generalDesc", "fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber",
   "voip", "pager", "uan", "emergency", "voicemail", "noInternationalDialling"}

NoDescriptor == [pat |-> None, len |-> <<>>, loc |-> <<>>, ex |-> None]
NoFormat == [pat |-> None, fmt |-> None, lead |-> <<>>, np |-> None, npo |-> FALSE, car |-> None]
NoTerritory ==
  [id |-> None, cc |-> None, idd |-> None, pidd |-> None, np |-> None, ext |-> None, npp |-> None,
   npt |-> None, main |-> FALSE, lead |-> None, mnp |-> FALSE, fmts |-> <<>>, ifmts |-> <<>>,
   desc |-> [n \in DescriptorNames |-> None], dflt |-> NoFormat]

-----------------------------------------------------------------------------
(* Values. *)
Bad == [bad |-> TRUE]
Good(v) == [bad |-> FALSE, v |-> v]

\* An unsigned number; a leading plus is tolerated.
Unsigned(p, max) ==
  LET ds == IF Len(p) > 1 /\ p[1] = Plus THEN Tail(p) ELSE p
  IN  IF ds # <<>> /\ (\A i \in DOMAIN ds : IsAsciiDigit(ds[i])) /\ DigitsValue(ds) <= max
      THEN Good(DigitsValue(ds)) ELSE Bad
U16(p) == Unsigned(p, 65535)
Boolean(s) == CASE s = "true" -> Good(TRUE) [] s = "false" -> Good(FALSE) [] OTHER -> Bad

\* The pieces of p between the separators.
Pieces(p, sep) ==
  LET f == FoldLeft(LAMBDA o, c : IF c = sep THEN [done |-> Append(o.done, o.cur), cur |-> <<>>]
                                  ELSE [o EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], p)
  IN  Append(f.done, f.cur)
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Trim(p) == LET i == Scan(p, 1, LAMBDA c : ~Blank(c))
               j == ScanBack(p, LAMBDA c : ~Blank(c))
           IN  SubSeq(p, i, j)

\* "[10-12],9" -> <<9, 10, 11, 12>>
LengthPart(part) ==
  IF part # <<>> /\ part[1] = 91
  THEN LET body == IF Len(part) > 1 /\ part[Len(part)] = 93 THEN SubSeq(part, 2, Len(part) - 1) ELSE Tail(part)
           ends == Pieces(body, 45)
       IN  IF Len(ends) < 2 THEN Good(<<>>)
           ELSE LET a == U16(ends[1])  b == U16(ends[2])
                IN  IF a.bad \/ b.bad THEN Bad ELSE Good([i \in 1..(b.v - a.v + 1) |-> a.v + i - 1])
  ELSE LET n == U16(part) IN IF n.bad THEN Bad ELSE Good(<<n.v>>)
Ascending(s) == IF \A i \in 2..Len(s) : s[i - 1] <= s[i] THEN s ELSE SortSeq(s, LAMBDA a, b : a < b)
Lengths(p) ==
  LET all == FoldLeft(LAMBDA acc, part :
             IF acc.bad THEN acc
             ELSE LET r == LengthPart(Trim(part)) IN IF r.bad THEN Bad ELSE Good(acc.v \o r.v),
           Good(<<>>), Pieces(p, 44))
  IN  IF all.bad THEN Bad ELSE Good(Ascending(all.v))

-----------------------------------------------------------------------------
(* Attributes. *)
TerritoryAttribute(m, name, t) ==
  CASE name = "id"                           -> Good([m EXCEPT !.id = Some(t)])
    [] name = "countryCode"                  -> LET n == U16(Points(t))
                                                IN  IF n.bad THEN Bad ELSE Good([m EXCEPT !.cc = Some(n.v)])
    [] name = "internationalPrefix"          -> Good([m EXCEPT !.idd = Some(t)])
    [] name = "preferredInternationalPrefix" -> Good([m EXCEPT !.pidd = Some(t)])
    [] name = "nationalPrefix"               -> Good([m EXCEPT !.np = Some(t)])
    [] name = "preferredExtnPrefix"          -> Good([m EXCEPT !.ext = Some(t)])
    [] name = "nationalPrefixForParsing"     -> Good([m EXCEPT !.npp = Some(t)])
    [] name = "nationalPrefixTransformRule"  -> Good([m EXCEPT !.npt = Some(t)])
    [] name = "mainCountryForCode"           -> LET b == Boolean(Str(t))
                                                IN  IF b.bad THEN Bad ELSE Good([m EXCEPT !.main = b.v])
    [] name = "leadingDigits"                -> Good([m EXCEPT !.lead = Some(t)])
    [] name = "mobileNumberPortableRegion"   -> LET b == Boolean(Str(t))
                                                IN  IF b.bad THEN Bad ELSE Good([m EXCEPT !.mnp = b.v])
    \* What follows is inherited by the formats of the territory.
    [] name = "nationalPrefixFormattingRule" -> Good([m EXCEPT !.dflt.np = Some(t)])
    [] name = "nationalPrefixOptionalWhenFormatting" ->
                                                LET b == Boolean(Str(t))
                                                IN  IF b.bad THEN Bad ELSE Good([m EXCEPT !.dflt.npo = b.v])
    [] name = "carrierCodeFormattingRule"    -> Good([m EXCEPT !.dflt.car = Some(t)])
    [] OTHER                                 -> Bad

FormatAttribute(f, name, t) ==
  CASE name = "pattern"                      -> Good([f EXCEPT !.pat = Some(t)])
    [] name = "nationalPrefixFormattingRule" -> Good([f EXCEPT !.np = Some(t)])
    [] name = "nationalPrefixOptionalWhenFormatting" ->
                                                LET b == Boolean(Str(t))
                                                IN  IF b.bad THEN Bad ELSE Good([f EXCEPT !.npo = b.v])
    [] name = "carrierCodeFormattingRule"    -> Good([f EXCEPT !.car = Some(t)])
    [] OTHER                                 -> Bad

LengthAttribute(d, name, t) ==
  CASE name = "national"  -> LET r == Lengths(Points(t)) IN IF r.bad THEN Bad ELSE Good([d EXCEPT !.len = r.v])
    [] name = "localOnly" -> LET r == Lengths(Points(t)) IN IF r.bad THEN Bad ELSE Good([d EXCEPT !.loc = r.v])
    [] OTHER              -> Bad

Attributes(ev, init, Set(_, _, _)) ==
  IF ev.x THEN Bad
  ELSE FoldLeft(LAMBDA r, at : IF r.bad THEN r ELSE Set(r.v, at[1], at[2]), Good(init), ev.a)

-----------------------------------------------------------------------------
(* The machine: a stack of open elements, the territories so far, a status. *)
LoaderInit == [stack |-> <<[c |-> "root"]>>, out |-> <<>>, status |-> "running"]

Fail(st) == [st EXCEPT !.status = "error"]
Push(st, f) == [st EXCEPT !.stack = Append(@, f)]
PopTo(st, f) == [st EXCEPT !.stack = Append(SubSeq(@, 1, Len(@) - 2), f)]  \* close; f replaces the parent
Pop(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Ignore(n) == [c |-> "ignore", n |-> n]
TextOf(n, dest) == [c |-> "text", n |-> n, t |-> EmptyText, dest |-> dest]

\* The international template of a format: its own, none if that is NA, or else the national one.
IntlTemplate(f) == IF f.int = None THEN f.f.fmt ELSE IF Str(f.int[1]) = "NA" THEN None ELSE f.int

OnStart(st, f, ev) ==
  CASE f.c = "root" ->
         CASE ev.n = "phoneNumberMetadata" -> st
           [] ev.n = "territories"         -> Push(st, [c |-> "territories", list |-> <<>>])
           [] OTHER                        -> Push(st, Ignore(ev.n))
    [] f.c = "territories" ->
         IF ev.n = "territory"
         THEN LET r == Attributes(ev, NoTerritory, TerritoryAttribute)
              IN  IF r.bad THEN Fail(st) ELSE Push(st, [c |-> "territory", n |-> "territory", m |-> r.v])
         ELSE Push(st, Ignore(ev.n))
    [] f.c = "territory" ->
         CASE ev.n \in {"references", "areaCodeOptional"} -> Push(st, Ignore(ev.n))
           [] ev.n \in DescriptorNames                   -> Push(st, [c |-> "descriptor", n |-> ev.n, d |-> NoDescriptor])
           [] ev.n = "availableFormats"                  -> Push(st, [c |-> "formats", n |-> ev.n, nat |-> <<>>, int |-> <<>>])
           [] OTHER                                      -> Fail(st)
    [] f.c = "descriptor" ->
         CASE ev.n \in {"nationalNumberPattern", "exampleNumber"} -> Push(st, TextOf(ev.n, ev.n))
           [] OTHER                                             -> Fail(st)
    [] f.c = "formats" ->
         IF ev.n = "numberFormat"
         THEN LET tm == st.stack[Len(st.stack) - 1].m
                  r == Attributes(ev, tm.dflt, FormatAttribute)
              IN  IF r.bad THEN Fail(st) ELSE Push(st, [c |-> "format", n |-> ev.n, f |-> r.v, int |-> None])
         ELSE Fail(st)
    [] f.c = "format" ->
         CASE ev.n \in {"leadingDigits", "format", "intlFormat"} -> Push(st, TextOf(ev.n, ev.n))
           [] OTHER                                            -> Fail(st)
    [] f.c = "ignore" -> Push(st, Ignore(ev.n))
    [] f.c = "text"   -> Fail(st)

OnEnd(st, f, ev) ==
  LET up == IF Len(st.stack) > 1 THEN st.stack[Len(st.stack) - 1] ELSE f IN
  CASE f.c = "root"        -> IF ev.n = "phoneNumberMetadata" THEN [st EXCEPT !.status = "done"] ELSE Fail(st)
    [] f.c = "territories" -> IF ev.n = "territories" THEN [Pop(st) EXCEPT !.out = @ \o f.list] ELSE Fail(st)
    [] OTHER ->
       IF ev.n # f.n THEN Fail(st)
       ELSE CASE f.c = "territory"  -> PopTo(st, [up EXCEPT !.list = Append(@, f.m)])
              [] f.c = "descriptor" -> PopTo(st, [up EXCEPT !.m.desc[f.n] = Some(f.d)])
              [] f.c = "formats"    -> PopTo(st, [up EXCEPT !.m.fmts = f.nat, !.m.ifmts = f.int])
              [] f.c = "format"     ->
                   PopTo(st, [up EXCEPT !.nat = Append(@, f.f),
                                        !.int = LET t == IntlTemplate(f) IN
                                                IF t = None THEN @ ELSE Append(@, [f.f EXCEPT !.fmt = t])])
              [] f.c = "ignore"     -> Pop(st)
              [] f.c = "text"       ->
                   CASE f.dest = "nationalNumberPattern" -> PopTo(st, [up EXCEPT !.d.pat = Some(f.t)])
                     [] f.dest = "exampleNumber"         -> PopTo(st, [up EXCEPT !.d.ex = Some(f.t)])
                     [] f.dest = "leadingDigits"         -> PopTo(st, [up EXCEPT !.f.lead = Append(@, f.t)])
                     [] f.dest = "format"                -> PopTo(st, [up EXCEPT !.f.fmt = Some(f.t)])
                     [] f.dest = "intlFormat"            ->
                          PopTo(st, [up EXCEPT !.int = Some(f.t)])

OnEmpty(st, f, ev) ==
  CASE f.c = "descriptor" ->
         IF ev.n # "possibleLengths" THEN Fail(st)
         ELSE LET r == Attributes(ev, f.d, LengthAttribute)
              IN  IF r.bad THEN Fail(st) ELSE Push(Pop(st), [f EXCEPT !.d = r.v])
    [] f.c = "ignore" -> st
    [] OTHER -> Fail(st)

LoaderStep(st, ev) ==
  IF st.status # "running" THEN st
  ELSE LET f == st.stack[Len(st.stack)] IN
    CASE ev.k = "start"   -> OnStart(st, f, ev)
      [] ev.k = "end"     -> OnEnd(st, f, ev)
      [] ev.k = "empty"   -> OnEmpty(st, f, ev)
      [] ev.k = "text"    -> IF f.c = "text" THEN Push(Pop(st), [f EXCEPT !.t = ev.t]) ELSE st
      [] ev.k = "comment" -> IF f.c = "text" THEN Fail(st) ELSE st
      [] ev.k = "doctype" -> IF f.c = "root" THEN st ELSE Fail(st)
      [] OTHER            -> Fail(st)

Load(events) == FoldLeft(LoaderStep, LoaderInit, events)

-----------------------------------------------------------------------------
(* The database. *)
IsRegex(t) == Texts[t].re # <<>>
OptionalRegex(o) == \A i \in DOMAIN o : IsRegex(o[i])
DescriptorOk(d) == d.pat # None /\ OptionalRegex(d.pat)
FormatOk(f) == f.pat # None /\ OptionalRegex(f.pat) /\ f.fmt # None /\ OptionalRegex(f.lead)
TerritoryOk(m) ==
  /\ m.desc["generalDesc"] # None
  /\ \A n \in DescriptorNames : m.desc[n] # None => DescriptorOk(m.desc[n][1])
  /\ m.id # None /\ m.cc # None
  /\ OptionalRegex(m.idd) /\ OptionalRegex(m.npp) /\ OptionalRegex(m.lead)
  /\ \A i \in DOMAIN m.fmts : FormatOk(m.fmts[i])
  /\ \A i \in DOMAIN m.ifmts : FormatOk(m.ifmts[i])

\* The entries of a calling code: a main country goes to the front.
CodeEntries(ms, code) ==
  FoldLeft(LAMBDA l, i : IF ms[i].cc[1] # code THEN l
                         ELSE IF ms[i].main THEN <<i>> \o l ELSE Append(l, i),
           <<>>, [i \in DOMAIN ms |-> i])

\* [ok, meta: the territories, byId: region -> index, codes: the known codes, byCode: code -> indices]
BuildDatabase(ms) ==
  IF \E i \in DOMAIN ms : ~TerritoryOk(ms[i]) THEN [ok |-> FALSE]
  ELSE LET codes == {ms[i].cc[1] : i \in DOMAIN ms}
           ids == {Str(ms[i].id[1]) : i \in DOMAIN ms}
       IN [ok |-> TRUE, meta |-> ms, codes |-> codes,
           byCode |-> [c \in codes |-> CodeEntries(ms, c)],
           byId |-> [r \in ids |-> Greatest({i \in DOMAIN ms : Str(ms[i].id[1]) = r})]]

DatabaseOf(events) ==
  LET st == Load(events) IN IF st.status = "done" THEN BuildDatabase(st.out) ELSE [ok |-> FALSE]
=============================================================================
