----------------------------- MODULE Documents -----------------------------
(* Metadata documents and what the loader makes of them.  A document starts  *)
(* as one of a few templates and is edited up to a number of times: events   *)
(* inserted, removed, doubled, elements renamed or exchanged, attributes     *)
(* dropped, doubled, given other values.  TLC explores all edited documents. *)
(* The loader then reads it event by event; what it must come to is stated   *)
(* as invariants over the document itself, not over the loader.  Finished    *)
(* runs are printed as vectors, and replayed on the real loader.             *)
EXTENDS Conform, TLC

ModelFile == JsonDeserialize("run.json")
  \* docs: the templates; texts; edits: how many; pool: event lists to insert; names; values: texts to set;
  \* attributes: pairs to add; focus: the kinds of edits made

\* Evaluated once: TLC would read the file again for every mention of Run.
Templates == Run.docs
MostEdits == Run.edits
Pool == Run.pool
NewNames == Run.names
Values == Run.values
NewAttributes == Run.attributes
Focus == {Run.focus[i] : i \in DOMAIN Run.focus}

VARIABLES doc, edits, pc, at, st
vars == <<doc, edits, pc, at, st>>

Init == /\ \E k \in DOMAIN Templates : doc = Templates[k]
        /\ edits = 0 /\ pc = "edit" /\ at = 0 /\ st = LoaderInit

-----------------------------------------------------------------------------
(* Editing. *)
IsTag(e) == e.k \in {"start", "empty"}
TextAt(d, i) == i \in DOMAIN d /\ d[i].k = "text"

\* The end of the element that starts at i.
EndOf(d, i) ==
  LET f == FoldLeft(LAMBDA s, j : IF s.end # 0 \/ j < i THEN s
                                  ELSE LET n == s.depth + (IF d[j].k = "start" THEN 1 ELSE IF d[j].k = "end" THEN -1 ELSE 0)
                                       IN  [depth |-> n, end |-> IF n = 0 THEN j ELSE 0],
                    [depth |-> 0, end |-> 0], [j \in DOMAIN d |-> j])
  IN  f.end

Splice(d, i, j, new) == SubSeq(d, 1, i - 1) \o new \o SubSeq(d, j + 1, Len(d))     \* replace i..j

\* Texts that touch would be one text.
Touching(d) == \E i \in DOMAIN d : TextAt(d, i) /\ TextAt(d, i + 1)

\* What an XML reader reports: an error at the first end tag that closes nothing or something else.
Reported(d) ==
  LET f == FoldLeft(LAMBDA s, e :
             IF s.cut THEN s
             ELSE IF e.k = "end"
                  THEN IF s.open # <<>> /\ s.open[Len(s.open)] = e.n
                       THEN [s EXCEPT !.out = Append(@, e), !.open = SubSeq(@, 1, Len(@) - 1)]
                       ELSE [s EXCEPT !.out = Append(@, [k |-> "other"]), !.cut = TRUE]
                  ELSE [out |-> Append(s.out, e), open |-> IF e.k = "start" THEN Append(s.open, e.n) ELSE s.open,
                        cut |-> e.k = "other"],
             [out |-> <<>>, open |-> <<>>, cut |-> FALSE], d)
  IN  f.out

Edited(d) == /\ ~Touching(d)
             /\ doc' = d /\ edits' = edits + 1
             /\ UNCHANGED <<pc, at, st>>
Editing(kind) == pc = "edit" /\ edits < MostEdits /\ kind \in Focus

Inner == 1..(Len(doc) - 1)                                     \* all but the end of the file
RemoveEvent == Editing("remove") /\ \E i \in Inner : Edited(Splice(doc, i, i, <<>>))
RemoveElement == Editing("remove") /\ \E i \in Inner : doc[i].k = "start" /\ Edited(Splice(doc, i, EndOf(doc, i), <<>>))
CutShort == Editing("remove") /\ \E i \in Inner : Edited(SubSeq(doc, 1, i) \o <<[k |-> "eof"]>>)
Insert == Editing("insert") /\ \E i \in Inner : \E k \in DOMAIN Pool : Edited(Splice(doc, i, i, Pool[k] \o <<doc[i]>>))
Double == Editing("double") /\ \E i \in Inner :
            LET j == IF doc[i].k = "start" THEN EndOf(doc, i) ELSE i
                part == SubSeq(doc, i, j)
            IN  doc[i].k # "end" /\ Edited(Splice(doc, i, j, part \o part))
\* Exchange an element and the next one.
Exchange == Editing("exchange") /\ \E i \in Inner :
              LET j == IF doc[i].k = "start" THEN EndOf(doc, i) ELSE i
                  n == j + 1
                  m == IF doc[n].k = "start" THEN EndOf(doc, n) ELSE n
              IN  IsTag(doc[i]) /\ n \in Inner /\ IsTag(doc[n])
                  /\ Edited(Splice(doc, i, m, SubSeq(doc, n, m) \o SubSeq(doc, i, j)))
Rename == Editing("rename") /\ \E i \in Inner : \E k \in DOMAIN NewNames :
            /\ IsTag(doc[i]) /\ doc[i].n # NewNames[k]
            /\ LET d == [doc EXCEPT ![i].n = NewNames[k]]
               IN  Edited(IF doc[i].k = "empty" THEN d ELSE [d EXCEPT ![EndOf(doc, i)].n = NewNames[k]])
Retext == Editing("retext") /\ \E i \in Inner : \E k \in DOMAIN Values :
            doc[i].k = "text" /\ doc[i].t # Values[k] /\ Values[k] # EmptyText
            /\ Edited([doc EXCEPT ![i].t = Values[k]])
WithAttributes(e, a) == [e EXCEPT !.a = a, !.x = \E i, j \in DOMAIN a : i < j /\ a[i][1] = a[j][1]]
Attribute == Editing("attribute") /\ \E i \in Inner : IsTag(doc[i]) /\
               LET a == doc[i].a  Put(b) == Edited([doc EXCEPT ![i] = WithAttributes(@, b)]) IN
               \/ \E k \in DOMAIN a : Put(SubSeq(a, 1, k - 1) \o SubSeq(a, k + 1, Len(a)))
               \/ \E k \in DOMAIN a : Put(Append(a, a[k]))
               \/ \E k \in DOMAIN a : \E v \in DOMAIN Values : a[k][2] # Values[v] /\ Put([a EXCEPT ![k][2] = Values[v]])
               \/ \E k \in DOMAIN NewAttributes : Put(Append(a, NewAttributes[k]))
Edit == RemoveEvent \/ RemoveElement \/ CutShort \/ Insert \/ Double \/ Exchange \/ Rename \/ Retext \/ Attribute

-----------------------------------------------------------------------------
(* Loading. *)
Open == /\ pc = "edit" /\ edits = MostEdits
        /\ pc' = "load" /\ doc' = Reported(doc)
        /\ UNCHANGED <<edits, at, st>>
Step == /\ pc = "load" /\ st.status = "running" /\ at < Len(doc)
        /\ at' = at + 1 /\ st' = LoaderStep(st, doc[at + 1])
        /\ UNCHANGED <<doc, edits, pc>>

Db == IF st.status = "done" THEN BuildDatabase(st.out) ELSE [ok |-> FALSE]

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Vector ==
  IF ~Db.ok THEN [doc |-> doc, ok |-> FALSE]
  ELSE [doc |-> doc, ok |-> TRUE,
        codes |-> [i \in DOMAIN Sorted(Db.codes) |->
                     LET c == Sorted(Db.codes)[i] IN [code |-> c, list |-> [j \in DOMAIN Db.byCode[c] |-> Db.byCode[c][j]]]],
        entries |-> [i \in DOMAIN Db.meta |-> Show(Db.meta[i])],
        ids |-> Db.byId]
Finish == /\ pc = "load" /\ (st.status # "running" \/ at = Len(doc))
          /\ PrintT("VECTOR " \o ToJson(Vector))
          /\ pc' = "loaded"
          /\ UNCHANGED <<doc, edits, at, st>>

Next == Edit \/ Open \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Step \/ Finish)

-----------------------------------------------------------------------------
(* What must come of it, in terms of the document. *)
Loaded == pc = "loaded"
Accepted == Loaded /\ Db.ok

\* The names of the elements around each event of the part that was read.
Paths == FoldLeft(LAMBDA s, e : [list |-> Append(s.list, s.open),
                                 open |-> CASE e.k = "start" -> Append(s.open, e.n)
                                            [] e.k = "end"   -> SubSeq(s.open, 1, Len(s.open) - 1)
                                            [] OTHER         -> s.open],
                  [list |-> <<>>, open |-> <<>>], SubSeq(doc, 1, at)).list

\* The metadata root may be repeated at the top.
Rooted(p) == From(p, Scan(p, 1, LAMBDA n : n # "phoneNumberMetadata"))
Places(P, path, name) ==
  SelectSeq([i \in 1..Len(P) |-> i],
            LAMBDA i : doc[i].k = "start" /\ doc[i].n = name /\ Rooted(P[i]) = path)

Attr(e, name) == LET s == SelectSeq(e.a, LAMBDA x : x[1] = name) IN IF s = <<>> THEN None ELSE Some(s[Len(s)][2])

\* One entry per territory, in order, each with what its attributes say.
D_Territories == Accepted =>
  LET ts == Places(Paths, <<"territories">>, "territory") IN
  /\ Len(ts) = Len(Db.meta)
  /\ \A i \in DOMAIN ts :
       LET e == doc[ts[i]]  m == Db.meta[i] IN
       /\ ~e.x
       /\ m.id = Attr(e, "id") /\ m.id # None
       /\ U16(Points(Attr(e, "countryCode")[1])) = Good(m.cc[1])
       /\ m.idd = Attr(e, "internationalPrefix") /\ m.pidd = Attr(e, "preferredInternationalPrefix")
       /\ m.np = Attr(e, "nationalPrefix") /\ m.npp = Attr(e, "nationalPrefixForParsing")
       /\ m.npt = Attr(e, "nationalPrefixTransformRule") /\ m.ext = Attr(e, "preferredExtnPrefix")
       /\ m.lead = Attr(e, "leadingDigits")
       /\ m.main = (Attr(e, "mainCountryForCode") # None /\ Str(Attr(e, "mainCountryForCode")[1]) = "true")
       /\ m.mnp = (Attr(e, "mobileNumberPortableRegion") # None /\ Str(Attr(e, "mobileNumberPortableRegion")[1]) = "true")

\* The number formats are those written, with the territory's defaults.
D_Formats == Accepted =>
  LET P == Paths
      ts == Places(P, <<"territories">>, "territory")
      fs == Places(P, <<"territories", "territory", "availableFormats">>, "numberFormat")
      lists == Places(P, <<"territories", "territory">>, "availableFormats")
      \* only the last list of a territory counts
      Own(i) == LET own == SelectSeq(lists, LAMBDA l : l > ts[i] /\ l < EndOf(doc, ts[i]))
                 IN  IF own = <<>> THEN <<>>
                     ELSE SelectSeq(fs, LAMBDA f : f > own[Len(own)] /\ f < EndOf(doc, own[Len(own)]))
      Or(a, b) == IF a # None THEN a ELSE b
  IN  \A i \in DOMAIN ts :
        LET m == Db.meta[i]  e == doc[ts[i]]  own == Own(i) IN
        /\ Len(m.fmts) = Len(own)
        /\ \A k \in DOMAIN own :
             LET f == doc[own[k]] IN
             /\ m.fmts[k].pat = Attr(f, "pattern")
             /\ m.fmts[k].np = Or(Attr(f, "nationalPrefixFormattingRule"), Attr(e, "nationalPrefixFormattingRule"))
             /\ m.fmts[k].car = Or(Attr(f, "carrierCodeFormattingRule"), Attr(e, "carrierCodeFormattingRule"))
        /\ Len(m.ifmts) <= Len(m.fmts)
        /\ \E keep \in SUBSET DOMAIN m.fmts :
             LET order == Sorted(keep) IN
             /\ Len(order) = Len(m.ifmts)
             /\ \A k \in DOMAIN order : m.ifmts[k] = [m.fmts[order[k]] EXCEPT !.fmt = m.ifmts[k].fmt]

\* Every descriptor that is written is there, and no other.
D_Descriptors == Accepted =>
  LET P == Paths
      ts == Places(P, <<"territories">>, "territory")
  IN  \A i \in DOMAIN ts : \A n \in DescriptorNames :
        LET ds == SelectSeq(Places(P, <<"territories", "territory">>, n), LAMBDA d : d > ts[i] /\ d < EndOf(doc, ts[i]))
            last == ds[Len(ds)]
            pats == SelectSeq([j \in 1..Len(P) |-> j],
                      LAMBDA j : j > last /\ j < EndOf(doc, last) /\ doc[j].k = "text"
                                 /\ P[j][Len(P[j])] = "nationalNumberPattern")
        IN  (ds # <<>>) = (Db.meta[i].desc[n] # None)
            /\ (ds # <<>> /\ pats # <<>> /\ doc[pats[Len(pats)] + 1].k = "end"
                => \/ Db.meta[i].desc[n][1].pat = Some(doc[pats[Len(pats)]].t)
                   \/ \E j \in DOMAIN P : j > pats[Len(pats)] /\ j < EndOf(doc, last) /\ doc[j].k = "start")

\* Nothing unknown, nothing incomplete.
Silent == {"references", "areaCodeOptional"}
Known == DescriptorNames \cup Silent \cup
  {"phoneNumberMetadata", "territories", "territory", "availableFormats", "numberFormat", "leadingDigits", "format",
   "intlFormat", "nationalNumberPattern", "exampleNumber", "possibleLengths"}
\* Outside "territory" unknown elements are passed over, with all they hold.
D_Known == Accepted =>
  LET P == Paths IN
  \A i \in 1..Len(P) :
    LET p == Rooted(P[i]) IN
    (Len(p) >= 2 /\ p[1] = "territories" /\ p[2] = "territory" /\ IsTag(doc[i]) /\ ~\E k \in DOMAIN p : p[k] \in Silent)
    => doc[i].n \in Known /\ (doc[i].n \in {"numberFormat", "possibleLengths"} => ~doc[i].x)
D_Complete == Accepted =>
  \A i \in DOMAIN Db.meta : /\ Db.meta[i].cc # None /\ Db.meta[i].desc["generalDesc"] # None
                            /\ \A n \in DescriptorNames : \A k \in DOMAIN Db.meta[i].desc[n] : Db.meta[i].desc[n][k].pat # None
                            /\ \A k \in DOMAIN Db.meta[i].fmts : Db.meta[i].fmts[k].pat # None /\ Db.meta[i].fmts[k].fmt # None
D_Closed == Accepted => doc[at].k = "end" /\ doc[at].n = "phoneNumberMetadata"
D_Errors == Loaded /\ (\E i \in 1..at : doc[i].k \in {"other", "eof"}) => ~Db.ok

\* Lookups: every entry of a code once; main countries first, the others as in the document; the last of an id.
D_Lookup == Accepted =>
  /\ \A c \in Db.codes :
       LET l == Db.byCode[c] IN
       /\ {l[i] : i \in DOMAIN l} = {i \in DOMAIN Db.meta : Db.meta[i].cc[1] = c}
       /\ Len(l) = Cardinality({l[i] : i \in DOMAIN l})
       /\ \A i, j \in DOMAIN l : i < j => /\ (Db.meta[l[j]].main => Db.meta[l[i]].main)
                                          /\ (~Db.meta[l[i]].main /\ ~Db.meta[l[j]].main => l[i] < l[j])
  /\ \A i \in DOMAIN Db.meta : Str(Db.meta[i].id[1]) \in DOMAIN Db.byId
  /\ \A r \in DOMAIN Db.byId : Str(Db.meta[Db.byId[r]].id[1]) = r

\* The stack never outgrows what is open, and an error or the end is final.
D_Stack == pc = "load" /\ st.status = "running" => Len(st.stack) <= at + 1
D_Fold == Loaded => Load(doc).status = st.status

D_Live == (pc = "load") ~> (pc = "loaded")
=============================================================================
