------------------------------- MODULE Values -------------------------------
(* Numbers as values.  A phone book is kept under numbers that were made,    *)
(* parsed, or written out and read back; entries are put in, looked up and   *)
(* dropped.  What the book answers depends on nothing but the digits of the  *)
(* numbers.  TLC explores every sequence of operations up to a length; each  *)
(* is replayed on a hash map and an ordered list of the real type.           *)
(* The packing of a national number is checked on a scaled-down word.        *)
EXTENDS Conform, TLC

ModelFile == JsonDeserialize("run.json")   \* docs, texts; numbers: ways to get a number; max: operations; bits, zerobits

Ways == Run.numbers
Most == Run.max
Bits == Run.bits
ZeroBits == Run.zerobits

\* The number that each way comes to; a number that was stored and read back is that number.
Numbers == [i \in DOMAIN Ways |-> Side(Ways[i])]
ASSUME \A i \in DOMAIN Numbers : ~IsErr(Numbers[i])

\* What tells numbers apart.
Canon == [i \in DOMAIN Numbers |-> [code |-> Numbers[i].code, nsn |-> Numbers[i].nsn, ext |-> Numbers[i].ext,
                                    carrier |-> Numbers[i].carrier]]

VARIABLES book, done
\* book: numbers to the operation that put them there; done: <<operation, way, answer>> so far

Init == book = <<>> /\ done = <<>>
Holds(i) == Canon[i] \in DOMAIN book
Answer(i) == IF Holds(i) THEN book[Canon[i]] ELSE 0

Put(i) == /\ book' = [k \in DOMAIN book \cup {Canon[i]} |-> IF k = Canon[i] THEN Len(done) + 1 ELSE book[k]]
          /\ done' = Append(done, <<"put", i, Answer(i)>>)
Get(i) == book' = book /\ done' = Append(done, <<"get", i, Answer(i)>>)
Drop(i) == /\ book' = [k \in DOMAIN book \ {Canon[i]} |-> book[k]]
           /\ done' = Append(done, <<"drop", i, Answer(i)>>)

Finish == Len(done) = Most /\ PrintT("VECTOR " \o ToJson([done |-> done, size |-> Cardinality(DOMAIN book)])) /\ UNCHANGED <<book, done>>
Next == IF Len(done) < Most THEN \E i \in DOMAIN Ways : Put(i) \/ Get(i) \/ Drop(i) ELSE Finish
Spec == Init /\ [][Next]_<<book, done>>

-----------------------------------------------------------------------------
\* Equality is an equivalence, and does not see the source of the calling code.
V_Equivalence ==
  \A a, b \in DOMAIN Ways :
    /\ EqualNumbers(Numbers[a], Numbers[a])
    /\ EqualNumbers(Numbers[a], Numbers[b]) = EqualNumbers(Numbers[b], Numbers[a])
    /\ EqualNumbers(Numbers[a], Numbers[b]) = (Canon[a] = Canon[b])
    /\ EqualNumbers([Numbers[a] EXCEPT !.src = "idd"], Numbers[a])

\* An entry is found under a number exactly if the last of what was done to an equal one was to put it in.
V_Found ==
  \A i \in DOMAIN Ways :
    LET mine == {k \in DOMAIN done : done[k][1] # "get" /\ Canon[done[k][2]] = Canon[i]} IN
    Answer(i) = IF mine = {} THEN 0 ELSE LET k == Greatest(mine) IN IF done[k][1] = "put" THEN k ELSE 0

\* A word of Bits + ZeroBits bits tells all values and counts of zeros apart, and no more.
Pack(v, z) == z * (2 ^ Bits) + v
Unpack(w) == <<w % (2 ^ Bits), w \div (2 ^ Bits)>>
V_Packing ==
  \A v \in 0..(2 ^ Bits - 1) : \A z \in 0..(2 ^ ZeroBits - 1) :
    Pack(v, z) < 2 ^ (Bits + ZeroBits) /\ Unpack(Pack(v, z)) = <<v, z>>
\* A larger value would pass for another number: it has to be refused.
V_Refusal == Unpack(Pack(2 ^ Bits, 0)) = Unpack(Pack(0, 1))
=============================================================================
