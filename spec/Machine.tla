------------------------------ MODULE Machine ------------------------------
(* The life of one request over a small database: a text is typed token by   *)
(* token, parsed stage by stage, the number classified, written in all four  *)
(* formats, and those are read back.  TLC explores every text up to a length *)
(* with every reference region; the last step prints the whole life as a     *)
(* test vector that is then replayed on the real library.                    *)
EXTENDS Conform, TLC

ModelFile == JsonDeserialize("run.json")
   \* docs, texts; tokens: list of strings; max: how many; regions: who may call; emit: print vectors?

Db == Dbs[1]
Tokens == Run.tokens
Most == Run.max
Emit == Run.emit
Regions == {Run.regions[i] : i \in DOMAIN Run.regions}

VARIABLES
  phase,    \* "typing", "read", "viable", "prefix", "code", "strip", "limits", "number", "written", "end"
  text,     \* what was typed
  count,    \* tokens so far
  region,   \* the reference region, or NoRegion
  work,     \* the number on its way, then the parsed number or the error
  territory, type, out, back
vars == <<phase, text, count, region, work, territory, type, out, back>>

Nothing == [err |-> ""]
Init == /\ phase = "typing" /\ text = <<>> /\ count = 0 /\ region = NoRegion /\ work = Nothing
        /\ territory = None /\ type = "" /\ out = <<>> /\ back = <<>>

Type(k) == /\ phase = "typing" /\ count < Most
           /\ text' = text \o Tokens[k] /\ count' = count + 1
           /\ UNCHANGED <<phase, region, work, territory, type, out, back>>

\* The caller hands the text over.
Submit(r) == /\ phase = "typing"
             /\ phase' = "read" /\ region' = r
             /\ UNCHANGED <<text, count, work, territory, type, out, back>>

Rest == <<text, count, region, territory, type, out, back>>
Reject(k) == phase' = "end" /\ work' = Err(k) /\ UNCHANGED Rest
Go(p, w) == phase' = p /\ work' = w /\ UNCHANGED Rest

ReadText == /\ phase = "read"
            /\ LET r == Read(text) IN IF r.bad THEN Reject("NoNumber") ELSE Go("viable", r)
CheckViable == /\ phase = "viable"
               /\ IF ViableReading(work) THEN Go("prefix", work) ELSE Reject("NoNumber")
TakePrefix == phase = "prefix" /\ Go("code", International(Db, region, work))
TakeCode == /\ phase = "code"
            /\ LET n == CallingCode(Db, region, work) IN IF IsErr(n) THEN Reject(n.err) ELSE Go("strip", n)
StripNational == phase = "strip" /\ Go("limits", Strip(Db, region, work))
CheckLimits == /\ phase = "limits"
               /\ LET n == Limits(work) IN IF IsErr(n) THEN Reject(n.err) ELSE Go("number", n)
Classify == /\ phase = "number"
            /\ phase' = "classified"
            /\ territory' = Territory(Db, work.code, work.nsn)
            /\ type' = TypeOf(Db, work.code, work.nsn)
            /\ UNCHANGED <<text, count, region, work, out, back>>
Write == /\ phase = "classified"
         /\ phase' = "written"
         /\ out' = [m \in Modes |-> Format(Db, work, m, None)]
         /\ UNCHANGED <<text, count, region, work, territory, type, back>>
Home == IF territory = None THEN NoRegion
        ELSE LET id == Str(Db.meta[territory[1]].id[1]) IN IF id \in RegionIds THEN id ELSE NoRegion
ReadBack == /\ phase = "written"
            /\ phase' = "end"
            /\ back' = [m \in Modes |-> IF out[m] = None THEN Nothing
                                        ELSE Parse(Db, IF m = "national" THEN Home ELSE NoRegion, out[m][1])]
            /\ UNCHANGED <<text, count, region, work, territory, type, out>>

Deliver == /\ phase = "end"
           /\ phase' = "delivered"
           /\ IF Emit
              THEN PrintT("VECTOR " \o ToJson([region |-> region, s |-> text, p |-> work, type |-> type,
                                               meta |-> MetaName(Db, territory), f |-> out, rt |-> back]))
              ELSE TRUE
           /\ UNCHANGED <<text, count, region, work, territory, type, out, back>>

Next == \/ \E k \in DOMAIN Tokens : Type(k)
        \/ \E r \in Regions : Submit(r)
        \/ ReadText \/ CheckViable \/ TakePrefix \/ TakeCode \/ StripNational \/ CheckLimits
        \/ Classify \/ Write \/ ReadBack \/ Deliver
        \/ phase = "delivered" /\ UNCHANGED vars       \* anything else without a successor is a deadlock
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties.  Each is named after the entry of properties.jsonl it states. *)

Finished == phase = "delivered"
Accepted == Finished /\ ~IsErr(work)
AllDigits(s) == \A i \in DOMAIN s : IsAsciiDigit(s[i])
DigitsOnly(s) == SelectSeq(s, IsAsciiDigit)
PlusFirst == text # <<>> /\ IsPlus(text[1])
\* A plus and ASCII digits, nothing else.
Canonical == PlusFirst /\ AllDigits(Tail(text))

\* C01: every stage leads on until the request is answered: no deadlock, and C01_Live.
C01_Formattable == Accepted => \A m \in Modes : out[m] # None
C01_Errors == (Finished /\ IsErr(work)) =>
  work.err \in {"NoNumber", "InvalidCountryCode", "TooShortNsn", "TooLong", "MalformedInteger"}

\* C02: behind a plus the region does not matter, and code and number spell the text.
C02_RegionFree == Finished /\ Canonical /\ (Len(text) > 1 /\ text[2] # Zero) =>
  \A r \in Regions : Parse(Db, r, text) = work
C02_Spelling == Accepted /\ Canonical /\ Len(text) > 1 /\ text[2] # Zero =>
  LET t == Territory(Db, work.code, WithoutZeros(From(text, Len(DigitsOf(work.code)) + 2)))
      plain == t = None \/ (Db.meta[t[1]].np = None /\ Db.meta[t[1]].npp = None)
  IN  /\ HasPrefix(Tail(text), DigitsOf(work.code))
      /\ plain => Tail(text) = DigitsOf(work.code) \o work.nsn
\* No calling code in the table is a prefix of another, so the split is the only one.
C02_PrefixFree == \A a, b \in Db.codes : a # b => ~HasPrefix(DigitsOf(b), DigitsOf(a))
C02_Source == Accepted =>
  /\ (PlusFirst => work.src = "plus")
  /\ (work.src \in {"default", "number"} => region # NoRegion /\ work.code = Db.meta[Db.byId[region]].cc[1])
  /\ (work.src = "idd" /\ AllDigits(text) => text[1] = Zero \/ region # NoRegion)

\* C03: what the plan knows stays a number that the plan knows.
C03_Keeps == Accepted /\ work.src = "default" /\ AllDigits(text) =>
  LET m == Db.meta[Db.byId[region]]
  IN  MatchesGeneral(m, text) => (MatchesGeneral(m, work.nsn) \/ work.nsn = text)
C03_Suffix == Accepted /\ work.src = "default" /\ AllDigits(text) =>
  LET m == Db.meta[Db.byId[region]]
      k == Len(text) - Len(work.nsn)
  IN  m.npt = None => (k >= 0 /\ From(text, k + 1) = work.nsn)
C03_NoPrefixKeepsAll == Accepted /\ work.src = "default" /\ AllDigits(text) =>
  LET m == Db.meta[Db.byId[region]] IN m.np = None /\ m.npp = None => work.nsn = text
\* With the prefix put in front, the number is the same.
C03_Prefix == Accepted /\ work.src = "default" /\ AllDigits(text) /\ work.nsn = text =>
  LET m == Db.meta[Db.byId[region]]
      dialled == IF m.np = None THEN text ELSE Points(m.np[1]) \o text
      again == Parse(Db, region, dialled)
  IN  (m.np # None /\ m.npp = None /\ MatchesGeneral(m, text) /\ ~MatchesGeneral(m, dialled)
       /\ MatchIdd(Db, region, dialled) = None /\ ~HasPrefix(dialled, DigitsOf(m.cc[1])))
      => ~IsErr(again) /\ again.nsn = text

\* C04: blanks, hyphens and the like inside digits, text around them, the kind of plus: all one.
Insert(s, i, c) == SubSeq(s, 1, i) \o c \o From(s, i + 1)
Simple == Canonical \/ (AllDigits(text) /\ Len(text) > 2)
C04_Punctuation == Finished /\ Simple =>
  \A c \in {<<32>>, <<45>>, <<46>>, <<40>>, <<8211>>, <<12288>>} : \A i \in 1..(Len(text) - 1) :
    LET again == Parse(Db, region, Insert(text, i, c))
    IN  IF IsErr(work) THEN IsErr(again) ELSE again = work      \* the reason for an error may differ
C04_Wide == Finished /\ PlusFirst => Parse(Db, region, <<65291>> \o Tail(text)) = work
C04_Around == Finished /\ Simple =>
  /\ Parse(Db, region, <<84, 101, 108, 46, 32>> \o text) = work          \* "Tel. "
  /\ Parse(Db, region, text \o <<33, 32>>) = work
  /\ Parse(Db, region, text \o <<47, 120, 49>>) = work                   \* "/x1"

\* C05: an extension changes nothing else.
ExtensionWays == { <<32, 120>>, <<59, 101, 120, 116, 61>>, <<32, 101, 120, 116, 46, 32>>, <<44>>, <<35>>,
                   <<32, 101, 120, 116, 101, 110, 115, 105, 111, 110, 32>>, <<65368>> }
C05_Split == Finished /\ Simple =>
  \A w \in ExtensionWays : \A e \in {<<49>>, <<48, 50>>, <<49, 50, 51, 52, 53, 54, 55>>} :
    LET again == Parse(Db, region, text \o w \o e)
    IN  again = (IF IsErr(work) THEN work ELSE [work EXCEPT !.ext = Some(e)])
C05_Digits == Accepted => \A i \in DOMAIN work.ext : AllDigits(work.ext[i]) /\ work.ext[i] # <<>>

\* C06: there and back.
Same(r, ext) == ~IsErr(r) /\ r.code = work.code /\ r.nsn = work.nsn /\ r.ext = (IF ext THEN work.ext ELSE None)
C06_RoundTrip == Accepted /\ type # "unknown" /\ ~Ambiguous(Db, work) =>
  /\ Same(back["e164"], FALSE)
  /\ (PlainExtension(work) /\ KeepsDigits(Db, work) =>
      Same(back["international"], TRUE) /\ Same(back["rfc3966"], TRUE))

\* C07: what the formats are made of.
C07_E164 == Accepted => out["e164"][1] = <<Plus>> \o DigitsOf(work.code) \o work.nsn
C07_Heads == Accepted =>
  /\ HasPrefix(out["international"][1], <<Plus>> \o DigitsOf(work.code) \o <<32>>)
  /\ HasPrefix(out["rfc3966"][1], Tel \o <<Plus>> \o DigitsOf(work.code) \o <<45>>)

\* C08, C09: classes and territories.
C08_Types == Accepted => type \in {TypeOrder[i][2] : i \in DOMAIN TypeOrder}
                                   \cup {"fixed_line", "mobile", "fixed_line_or_mobile", "unknown"}
C08_General == Accepted /\ type # "unknown" => MatchesGeneral(Db.meta[territory[1]], work.nsn)
C09_Territory == Accepted =>
  /\ (territory = None => type = "unknown")
  /\ (territory # None => Db.meta[territory[1]].cc[1] = work.code)
C09_Alone == Accepted /\ Len(Db.byCode[work.code]) = 1 => territory # None

\* C11: limits.
C11_Limits == Accepted =>
  /\ Len(work.nsn) \in MinNsn..MaxNsn /\ AllDigits(work.nsn) /\ WithoutZeros(work.nsn) # <<>>
  /\ ~NumberLess(MaxValue, WithoutZeros(work.nsn))
  /\ IsCode(Db, work.code)
C11_Viable == Accepted => Len(DigitsOnly(text)) >= 2

\* The stages together are the operator used everywhere else.
StagesAreParse == Finished => work = Parse(Db, region, text)

C01_Live == (phase = "read") ~> (phase = "delivered")
=============================================================================
