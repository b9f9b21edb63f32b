------------------------------ MODULE Conform ------------------------------
(* Recorded calls of the real library against the specification: the set of  *)
(* aspects in which an observation differs from what the specification says. *)
EXTENDS Phone

\* Dbs[k]: the database of document k; Dbs[1] is the built-in one.
Dbs == FoldLeft(LAMBDA l, d : Append(l, DatabaseOf(d)), <<>>, Run.docs)

If(c, name) == IF c THEN {name} ELSE {}

-----------------------------------------------------------------------------
(* parse                                                                     *)

DiffNumber(x, o, tag) ==
  If(o.code # x.code, tag \o ".code") \cup If(o.src # x.src, tag \o ".source")
  \cup If(o.nsn # x.nsn \/ o.zeros # ZeroCount(x.nsn) \/ o.val # WithoutZeros(x.nsn), tag \o ".national")
  \cup If(o.ext # x.ext, tag \o ".extension") \cup If(o.car # x.carrier, tag \o ".carrier")

DiffOutcome(x, o, tag) ==
  CASE o.t = "panic" -> {"panic"}
    [] o.t = "err"   -> If(~IsErr(x), tag \o ".rejected") \cup If(IsErr(x) /\ x.err # o.e, tag \o ".error")
    [] o.t = "ok"    -> IF IsErr(x) THEN {tag \o ".accepted"} ELSE DiffNumber(x, o, tag)
    [] OTHER         -> {tag \o ".missing"}

\* What the library holds: x as parsed by the library itself.  (o.nsn is how it writes the national number.)
Zeros(n) == [i \in 1..n |-> Zero]
National(o) == Zeros(o.zeros) \o o.val
AsNumber(o) == [code |-> o.code, src |-> o.src, nsn |-> National(o), ext |-> o.ext, carrier |-> o.car]

MetaName(db, t) == IF t = None THEN <<"", 0>> ELSE <<Str(db.meta[t[1]].id[1]), db.meta[t[1]].cc[1]>>

\* country().id() always asks the built-in database.
CountryId(code, nsn) ==
  LET t == Territory(Dbs[1], code, nsn) IN
  IF t = None THEN ""
  ELSE LET r == Str(Dbs[1].meta[t[1]].id[1]) IN IF r \in RegionIds THEN r ELSE "error"

Modes == {"e164", "international", "national", "rfc3966"}

BoolStr(b) == IF b THEN "true" ELSE "false"

DiffClass(db, x, o) ==
  LET t == Territory(db, x.code, x.nsn)
      type == IF t = None THEN "unknown" ELSE NumberType(db.meta[t[1]], x.nsn)
  IN  UNION { If(o.valid = "panic" \/ o.type = "panic" \/ o.cid = "panic" \/ o.meta[1] = "panic", "panic"),
              If(o.type # type, "class.type"),
              If(o.valid # BoolStr(type # "unknown"), "class.valid"),
              If(o.meta # MetaName(db, t), "class.metadata"),
              If(o.cid # CountryId(x.code, x.nsn), "class.region") }

DiffFormats(db, x, o, custom) ==
  UNION { IF o[m].t = "panic" THEN {"panic"}
          ELSE LET e == Format(db, x, m, custom)
               IN  IF (e = None) # (o[m].t = "err") THEN {"format.failure"}
                   ELSE If(e # None /\ (IF o[m].t = "ok" THEN o[m].s # e[1] ELSE TRUE), "format." \o m)
          : m \in Modes }

-----------------------------------------------------------------------------
(* Laws: what must hold between observations, whatever the number.           *)

\* Taking off a national prefix would turn this number into another one.
Ambiguous(db, x) ==
  LET t == Territory(db, x.code, WithoutZeros(x.nsn)) IN
  t # None /\ NationalPrefix(db.meta[t[1]], [src |-> x.src, national |-> x.nsn, prefix |-> None,
                                               ext |-> None, carrier |-> None]).national # x.nsn

\* Another calling code is read first.
Hidden(db, code) ==
  LET c == DigitsOf(code) IN \E k \in 1..Len(c) - 1 : IsCode(db, DigitsValue(SubSeq(c, 1, k)))

SameNumber(x, o, ext) == o.t = "ok" /\ o.code = x.code /\ National(o) = x.nsn /\ o.ext = (IF ext THEN x.ext ELSE None)

\* The format the metadata gives for this number keeps its digits in order.
KeepsDigits(db, x) ==
  LET f == Format(db, [x EXCEPT !.ext = None], "international", None)
  IN  f # None /\ Normal(f[1], FALSE) = DigitsOf(x.code) \o x.nsn

\* An extension that fits the notations there are; others cannot be read back.
PlainExtension(x) ==
  x.ext = None \/ (Len(x.ext[1]) \in 1..7 /\ \A i \in DOMAIN x.ext[1] : IsAsciiDigit(x.ext[1][i]))

\* What the rules for writing and reading make of the number is the same number.
Stable(db, x, m, ext) ==
  LET f == Format(db, x, m, None)
      p == IF f = None THEN Err("") ELSE Parse(db, NoRegion, f[1])
  IN  ~IsErr(p) /\ p.code = x.code /\ p.nsn = x.nsn /\ (ext => p.ext = x.ext)

DiffLaws(db, x, ob) ==
  LET x0 == ob.x
      firm == IsValid(db, x.code, x.nsn) /\ ~Ambiguous(db, x) /\ ~Hidden(db, x.code)
  IN  UNION { If((x0.valid = "true") # (x0.type # "unknown"), "law.valid_iff_typed"),
              If(x0.meta[1] \notin {"", "panic"} /\ x0.meta[2] # x.code, "law.region_has_code"),
              UNION {IF SameNumber(x, ob.rt[m], m # "e164") \/ ~Stable(db, x, m, m # "e164") THEN {} ELSE {"law." \o m}
                     : m \in Modes \ {"national"}},
              IF ~firm THEN {} ELSE
                If(~SameNumber(x, ob.rt["e164"], FALSE), "law.e164")
                \cup (IF ~PlainExtension(x) \/ ~KeepsDigits(db, x) THEN {} ELSE
                        If(~SameNumber(x, ob.rt["international"], TRUE), "law.international")
                        \cup If(~SameNumber(x, ob.rt["rfc3966"], TRUE), "law.rfc3966")) }

\* The formatted number, read again by the specification.
DiffReparse(db, x, ob) ==
  LET home == IF ob.x.meta[1] \in RegionIds THEN ob.x.meta[1] ELSE NoRegion IN
  UNION { IF ob.x.f[m].t # "ok" THEN {}
          ELSE DiffOutcome(Parse(db, IF m = "national" THEN home ELSE NoRegion, ob.x.f[m].s), ob.rt[m], "reparse." \o m)
          : m \in Modes }

DiffParse(r, o, reparse) ==
  LET db == Dbs[r.db]
      x == Parse(db, r.region, r.s)
      d == DiffOutcome(x, o.p, "parse")
  IN  IF o.p.t # "ok" THEN d
      ELSE LET seen == AsNumber(o.p)                    \* judge the rest by what was parsed
           IN  d \cup DiffClass(db, seen, o.x) \cup DiffFormats(db, seen, o.x.f, None)
                 \cup (IF reparse THEN DiffReparse(db, seen, o) \cup DiffLaws(db, seen, o)
                                       \cup {"api." \o o.api[i] : i \in DOMAIN o.api} ELSE {})

-----------------------------------------------------------------------------
(* Other calls.                                                              *)

DiffCustom(r, o) ==
  LET db == Dbs[r.db]
      x == Parse(db, r.region, r.s)
      m == RegionMeta(db, r.from)
      fs == IF m = None THEN <<>> ELSE IF r.intl THEN db.meta[m[1]].ifmts ELSE db.meta[m[1]].fmts
  IN  IF IsErr(x) THEN If(o.t # "err", "parse.accepted")
      ELSE IF r.k > Len(fs) THEN If(o.t # "noformat", "load.formats")
      ELSE IF o.t # "ok" THEN {"parse.rejected"}
      ELSE DiffFormats(db, x, o.f, Some(fs[r.k]))

\* A number as stored: code, src, value v (digits), z zeros, ext, car.
MadeNumber(r) == [code |-> r.code, src |-> r.src, nsn |-> Zeros(r.z) \o r.v, ext |-> r.ext, carrier |-> r.car]
DiffMake(r, o) ==
  LET db == Dbs[r.db]
      x == MadeNumber(r)
  IN  IF o.p.t # "ok" THEN {IF o.p.t = "panic" THEN "panic" ELSE "value.stored"}
      ELSE UNION { If(o.p.code # r.code \/ o.p.src # r.src \/ o.p.val # r.v \/ o.p.zeros # r.z
                      \/ o.p.nsn # x.nsn \/ o.p.ext # r.ext \/ o.p.car # r.car, "value.stored"),
                   DiffClass(db, x, o.x), DiffFormats(db, x, o.x.f, None) }

\* Very long texts: head, n times the same piece, tail.  Once there is much of it, more does not matter.
Much == 40
Repeated(r) == r.head \o FlattenSeq([i \in 1..Min({r.n, Much}) |-> r.piece]) \o r.tail
DiffHuge(r, o) ==
  LET s == Repeated(r)
  IN  DiffOutcome(Parse(Dbs[r.db], r.region, s), o.p, "parse")
      \cup (IF o.v = "panic" THEN {"panic"} ELSE If(o.v # BoolStr(IsViable(s)), "viable"))

\* The descriptions of a territory that a text fits, whatever the number's type.
DiffFits(db, r, o) ==
  CASE o.t = "panic" -> {"panic"}
    [] o.t = "none"  -> If(r.id \in DOMAIN db.byId, "load.by_id")
    [] OTHER         -> IF r.id \notin DOMAIN db.byId THEN {"load.by_id"}
                        ELSE LET m == db.meta[db.byId[r.id]]
                             IN  If({o.of[i] : i \in DOMAIN o.of} # {d \in DescriptorNames : Matches(m, d, r.s)}, "class.fits")

DiffViable(r, o) == IF o.v = "panic" THEN {"panic"} ELSE If(o.v # BoolStr(IsViable(r.s)), "viable")

\* A number stored and read back is the same number.
Side(r) == IF r.op = "make" THEN MadeNumber(r) ELSE Parse(Dbs[r.db], r.region, r.s)
\* Equal numbers: the same digits to dial, however the calling code was found.
EqualNumbers(a, b) == a.code = b.code /\ a.nsn = b.nsn /\ a.ext = b.ext /\ a.carrier = b.carrier
DiffEqual(r, o) ==
  LET a == Side(r.a)  b == Side(r.b) IN
  IF IsErr(a) \/ IsErr(b) THEN If(o.t # "err", "parse.accepted")
  ELSE IF o.t # "ok" THEN {IF o.t = "panic" THEN "panic" ELSE "parse.rejected"}
  ELSE UNION { If(o.eq # EqualNumbers(a, b), "value.eq"), If(~o.sym, "value.symmetry"),
               If(EqualNumbers(a, b) /\ ~o.hash, "value.hash"),
               If(o.code # (a.code = b.code), "value.code_eq"), If(a.code = b.code /\ ~o.codehash, "value.code_hash"),
               If(o.national # (a.nsn = b.nsn), "value.national_eq"),
               If(a.nsn = b.nsn /\ ~o.nationalhash, "value.national_hash") }

DiffNational(zeros, value, o) ==        \* value: digits without leading zeros, or the digit 0
  IF NumberLess(MaxValue, value) \/ zeros > 255
  THEN If(o.t # "err", "value.limit") \cup If(o.t = "err" /\ o.e # "TooLong", "value.error")
  ELSE IF o.t # "ok" THEN {"value.national"}
  ELSE If(o.val # value \/ o.zeros # zeros \/ o.disp # Zeros(zeros) \o value \/ o.u64 # value \/ ~o.serde, "value.national")

MaxU64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
DiffNationalText(s, o) ==
  LET v == WithoutZeros(s)
      digits == IF Len(v) > 1 /\ v[1] = Plus THEN Tail(v) ELSE v
  IN  IF digits = <<>> \/ (\E i \in DOMAIN digits : ~IsAsciiDigit(digits[i]))
         \/ NumberLess(MaxU64, WithoutZeros(digits))
      THEN If(o.t # "err", "value.accepted") \cup If(o.t = "err" /\ o.e # "MalformedInteger", "value.error")
      ELSE DiffNational(ZeroCount(s), IF WithoutZeros(digits) = <<>> THEN <<Zero>> ELSE WithoutZeros(digits), o)

DiffId(r, o) ==
  IF r.s \in RegionIds
  THEN If(o.t # "ok", "value.region") \cup
       (IF o.t = "ok" THEN If(o.name # r.s \/ o.debug # r.s \/ o.json # r.s \/ ~o.serde
                              \/ o.home # (IF r.s \in DOMAIN Dbs[1].byId THEN r.s ELSE ""), "value.region")
        ELSE {})
  ELSE If(o.t # "err", "value.region")

DiffNames(o) ==
  If(\E k \in DOMAIN o.kinds : o.kinds[k] # <<k, TRUE>>, "value.type_name")
  \cup If(\E k \in DOMAIN o.sources : o.sources[k] # <<k, TRUE>>, "value.source_name")

-----------------------------------------------------------------------------
(* Loaded databases.                                                         *)

Pat(t) == Texts[t].w                      \* without insignificant blanks
Map(o, f(_)) == [i \in DOMAIN o |-> f(o[i])]

ShowDescriptor(d) == [pat |-> Pat(d.pat[1]), len |-> d.len, loc |-> d.loc, ex |-> Map(d.ex, Str)]
ShowFormat(f) == [pat |-> Pat(f.pat[1]), fmt |-> Str(f.fmt[1]), lead |-> Map(f.lead, Pat), np |-> Map(f.np, Str),
                  npo |-> f.npo, car |-> Map(f.car, Str)]

TypeDescriptor ==
  [fixed_line |-> "fixedLine", mobile |-> "mobile", fixed_line_or_mobile |-> "fixedLine", toll_free |-> "tollFree",
   premium_rate |-> "premiumRate", shared_cost |-> "sharedCost", personal_number |-> "personalNumber", voip |-> "voip",
   pager |-> "pager", uan |-> "uan", emergency |-> "emergency", voicemail |-> "voicemail", short_code |-> "",
   standard_rate |-> "", carrier |-> "", no_international |-> "noInternationalDialling", unknown |-> "generalDesc"]

Show(m) ==
  [id |-> Str(m.id[1]), cc |-> m.cc[1], idd |-> Map(m.idd, Pat), pidd |-> Map(m.pidd, Str), np |-> Map(m.np, Str),
   ext |-> Map(m.ext, Str), npp |-> Map(m.npp, Pat), npt |-> Map(m.npt, Str), main |-> m.main, lead |-> Map(m.lead, Pat),
   mnp |-> m.mnp, fmts |-> Map(m.fmts, ShowFormat), ifmts |-> Map(m.ifmts, ShowFormat), others |-> 0,
   desc |-> [n \in DescriptorNames |-> Map(m.desc[n], ShowDescriptor)],
   get |-> [k \in DOMAIN TypeDescriptor |->
              IF TypeDescriptor[k] = "" \/ m.desc[TypeDescriptor[k]] = None THEN <<>>
              ELSE <<Pat(m.desc[TypeDescriptor[k]][1].pat[1])>>]]

DiffEntry(m, o) ==
  LET e == Show(m) IN
  UNION {If(k \notin DOMAIN o \/ o[k] # e[k], "load." \o k) : k \in DOMAIN e}

DiffCode(db, o) ==
  IF ~IsCode(db, o.code) THEN {"load.codes"}
  ELSE LET l == db.byCode[o.code]
       IN  IF Len(l) # Len(o.list) THEN {"load.entries"}
           ELSE UNION {DiffEntry(db.meta[l[i]], o.list[i]) : i \in DOMAIN l}
                \cup If(o.regions # [i \in DOMAIN l |-> Str(db.meta[l[i]].id[1])], "load.regions")

DiffLoad(db, o) ==
  CASE o.t = "panic" -> {"panic"}
    [] o.t = "err"   -> If(db.ok, "load.rejected")
    [] OTHER ->
       IF ~db.ok THEN {"load.accepted"}
       ELSE UNION {
         If({o.codes[i].code : i \in DOMAIN o.codes} # db.codes, "load.codes"),
         UNION {DiffCode(db, o.codes[i]) : i \in DOMAIN o.codes},
         If({o.ids[i].id : i \in DOMAIN o.ids} # DOMAIN db.byId, "load.ids"),
         UNION {IF o.ids[i].id \notin DOMAIN db.byId THEN {"load.ids"}
                ELSE IF o.ids[i].m = <<>> THEN {"load.by_id"}
                ELSE DiffEntry(db.meta[db.byId[o.ids[i].id]], o.ids[i].m[1]) : i \in DOMAIN o.ids},
         If(Len(o.iter) # Len(db.meta)
            \/ {<<o.iter[i][1], o.iter[i][2]>> : i \in DOMAIN o.iter}
                 # {<<db.meta[i].cc[1], Str(db.meta[i].id[1])>> : i \in DOMAIN db.meta}, "load.iter"),
         If(o.none # 0, "load.by_id") }

-----------------------------------------------------------------------------
Diff(r, o) ==
  IF "t" \in DOMAIN o /\ o.t \in {"hang", "crash"} THEN {o.t}
  ELSE IF "t" \in DOMAIN o /\ o.t = "nodb" THEN If(Dbs[r.db].ok, "load.rejected")
  ELSE IF "db" \in DOMAIN r /\ ~Dbs[r.db].ok THEN {"load.accepted"}
  ELSE CASE r.op = "parse"  -> DiffParse(r, o, TRUE)
         [] r.op = "quick"  -> DiffParse(r, o, FALSE)
         [] r.op = "huge"   -> DiffHuge(r, o)
         [] r.op = "fits"   -> DiffFits(Dbs[r.db], r, o)
         [] r.op = "viable" -> DiffViable(r, o)
         [] r.op = "custom" -> DiffCustom(r, o)
         [] r.op = "make"   -> DiffMake(r, o)
         [] r.op = "eq"     -> DiffEqual(r, o)
         [] r.op = "nn"     -> IF o.t = "panic" THEN {"panic"} ELSE DiffNational(r.z, r.v, o)
         [] r.op = "nnstr"  -> IF o.t = "panic" THEN {"panic"} ELSE DiffNationalText(r.s, o)
         [] r.op = "id"     -> IF o.t = "panic" THEN {"panic"} ELSE DiffId(r, o)
         [] r.op = "names"  -> DiffNames(o)
         [] r.op = "load"   -> DiffLoad(Dbs[r.doc], o)
=============================================================================
