------------------------------- MODULE Tools -------------------------------
(* The tools that turn a catalogue of encodings (lib/encodings.h.snippet) into the generated    *)
(* sources.  A catalogue is a sequence of encodings, each with its names, its internal id and   *)
(* its constant, and a sequence of further constants that stand for another one.  The expected  *)
(* output of each tool is a function of the catalogue; events record one run of one tool:       *)
(*   aliases   lines <<name, id>> in the table the generator wrote                              *)
(*   indexes   lines <<constant, index or constant>>, for C (lang 0) and C++ (lang 1)           *)
(*   check     only the exit code                                                               *)
(*   usage     a run with wrong arguments or an unwritable file                                 *)
(* An event without a catalogue of its own (cat = "") is a run on the repository's catalogue,   *)
(* whose names must be the published ones (ids already resolved to indices).                    *)
EXTENDS Names, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TEncs == {}
VARIABLES i, v
vars == <<i, v>>
Init == i \in 2..Len(Trace) /\ v = "run"
Ev == Trace[i]
ASSUME TLCSet(1, 0)
Accept == v' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
Report == PrintT("ACCEPTED " \o ToString(TLCGet(1)))

SetOf(s) == {s[k] : k \in 1..Len(s)}
Up(n) == [k \in 1..Len(n) |-> Upper(n[k])]
Names7(cat) == {cat.enc[k].names[j] : <<k, j>> \in {<<k, j>> \in (1..Len(cat.enc)) \X (1..50) : j <= Len(cat.enc[k].names)}}
Ascii(n) == \A k \in 1..Len(n) : n[k] < 128
Lower(n) == \E k \in 1..Len(n) : 97 <= n[k] /\ n[k] <= 122

\* every name of every encoding, in order, in upper case, with the id of its encoding
RECURSIVE Flat(_, _, _)
Flat(cat, k, j) == IF k > Len(cat.enc) THEN <<>>
                   ELSE IF j > Len(cat.enc[k].names) THEN Flat(cat, k + 1, 1)
                   ELSE <<<<Up(cat.enc[k].names[j]), cat.enc[k].id>>>> \o Flat(cat, k, j + 1)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) : Count(a, x) = Count(b, x)

AliasWrong ==
    LET cat == Ev.cat IN
    IF \E n \in Names7(cat) : ~Ascii(n) THEN (IF Ev.rc # 0 THEN {} ELSE {<<"accepted">>})
    ELSE IF Ev.rc = 0 /\ Ev.head = 1 /\ SameBag(Ev.lines, Flat(cat, 1, 1)) THEN {} ELSE {<<"aliases", Flat(cat, 1, 1)>>}
\* constants: the encodings in order from 0, then the further names; a line may give the number or a
\* constant already listed above it
RECURSIVE Resolve(_, _, _)
Resolve(lines, x, fuel) ==
    LET m == {k \in 1..Len(lines) : lines[k][1] = x} IN
    IF m = {} \/ fuel = 0 THEN x ELSE Resolve(lines, lines[CHOOSE k \in m : TRUE][2], fuel - 1)
InOrder(L) == \A k \in 1..Len(L) : (\E j \in 1..Len(L) : L[j][1] = L[k][2]) => \E j \in 1..(k - 1) : L[j][1] = L[k][2]
Resolved(L) == {<<L[k][1], Resolve(L, L[k][2], 3)>> : k \in 1..Len(L)}
IndexWant(cat) ==
    LET first == [k \in 1..Len(cat.enc) |-> <<cat.enc[k].con, ToString(k - 1)>>] IN
    SetOf(first) \cup {<<cat.more[k][1], Resolve(first, cat.more[k][2], 3)>> : k \in 1..Len(cat.more)}
IndexWrong ==
    LET want == IndexWant(Ev.cat) IN
    IF Ev.rc = 0 /\ Ev.head = 1 /\ InOrder(Ev.lines) /\ Resolved(Ev.lines) = want /\ Len(Ev.lines) = Cardinality(want)
    THEN {} ELSE {<<"indexes", want>>}
CheckWrong == IF (Ev.rc = 0) = (\A n \in Names7(Ev.cat) : ~Lower(n)) THEN {} ELSE {<<"check">>}

\* the repository's own catalogue: what the tools make of it are the published names and constants.
\* A name may be declared twice; the published encoding must then be among the declared ones.
PublishedWrong ==
    LET pub == SetOf(Catalog.alias)
        got == {<<Canon(Ev.lines[k][1]), Ev.lines[k][2]>> : k \in 1..Len(Ev.lines)}
        twice == {Ev.lines[k][1] : k \in {k \in 1..Len(Ev.lines) : \E j \in 1..(k - 1) : Ev.lines[j][1] = Ev.lines[k][1]}}
    IN (IF Ev.rc = 0 /\ Ev.head = 1 THEN {} ELSE {<<"failed">>})
       \cup {<<"missing", a>> : a \in pub \ got}
       \cup {<<"extra", a>> : a \in {a \in got \ pub : a[1] \notin twice}}
       \cup {<<"form", Ev.lines[k]>> : k \in {k \in 1..Len(Ev.lines) : Canon(Ev.lines[k][1]) # Ev.lines[k][1]}}
Consts == LET f == RefDir \o "/consts.json" IN JsonDeserialize(f)
PublishedIndexWrong ==
    LET L == Ev.lines
        want == {<<Consts[k].n, ToString(Consts[k].e)>> : k \in 1..Len(Consts)}
        got == Resolved(L)
    IN IF Ev.rc = 0 /\ Ev.head = 1 /\ InOrder(L) /\ got = want /\ Len(L) = Cardinality(want) THEN {}
       ELSE {<<"constants", got \ want, want \ got>>}

Wrong ==
    CASE Ev.op = "aliases" -> AliasWrong
      [] Ev.op = "indexes" -> IndexWrong
      [] Ev.op = "check" -> CheckWrong
      [] Ev.op = "usage" -> IF Ev.rc # 0 THEN {} ELSE {<<"usage">>}
      [] Ev.op = "pubaliases" -> PublishedWrong
      [] Ev.op = "pubindexes" -> PublishedIndexWrong
      [] Ev.op = "pubcheck" -> IF Ev.rc = 0 THEN {} ELSE {<<"check">>}
      [] OTHER -> {<<"crash">>}
Next == /\ v = "run" /\ UNCHANGED i
        /\ LET w == Wrong IN
           IF w = {} THEN Accept
           ELSE v' = "bad" /\ PrintT("REJECT " \o ToJson([at |-> i, n |-> Cardinality(w), why |-> w]))
Spec == Init /\ [][Next]_vars
TypeOK == v \in {"run", "ok", "bad"}
=============================================================================
