------------------------------- MODULE Sweep -------------------------------
(* Exhaustive observations of the library (whole rows of a decode trie, whole pages of an      *)
(* encoder, substitution classes, round trips, names, code pages), each judged against the     *)
(* specification.  Every event is judged on its own: one behaviour of one step per event.      *)
EXTENDS Loop, Names, SequencesExt

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TEncs == LET hdr == Trace[1].encs IN {hdr[k] : k \in 1..Len(hdr)}

VARIABLES i, v
vars == <<i, v>>
Init == i \in 2..Len(Trace) /\ v = "run"
Ev == Trace[i]
\* accepted behaviours are counted, so that the runner can tell that none was left out
ASSUME TLCSet(1, 0)
Accept == v' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
Report == PrintT("ACCEPTED " \o ToString(TLCGet(1)))


Huge == 100000000
Pivot == 6                              \* UCS-4BE
BE4(c) == <<ByteOf(c, 3), ByteOf(c, 2), ByteOf(c, 1), ByteOf(c, 0)>>
Scalars(s) == [k \in 1..(Len(s) \div 4) |-> S4(s[4 * k - 3], s[4 * k - 2], s[4 * k - 1], s[4 * k])]
SetOf(s) == {s[k] : k \in 1..Len(s)}

\* the cells of an observed row that differ from the expected function of 0..255
Diff(row, Want(_)) == {b \in 0..255 : At(row, b) # Want(b)}

----------------------------------------------------------------------------
(* decode rows *)
RECURSIVE NodeAt(_, _, _)
NodeAt(t, nd, s) == IF s = <<>> \/ nd = 0 THEN nd
                    ELSE NodeAt(t, Kid(Tab[t].nodes[nd], Head(s)), Tail(s))

\* by running the specification: [cell, detail]
PredDec(e, base, s) ==
    LET H0 == NewHandle(e, Pivot, FALSE)
        H1 == IF base = <<>> THEN H0 ELSE Run(H0, base, 256).H
        r == Run(H1, s, 256)
        f == Rst(r.H, 64)
        cell == IF r.ret = 0 /\ r.used = Len(s) /\ Len(r.out) = 4 /\ f.b = <<>> /\ Scalars(r.out)[1] >= 0
                THEN Scalars(r.out)[1]
                ELSE IF r.e = EILSEQ /\ r.used = 0 /\ r.out = <<>> /\ f.b = <<>> THEN -1
                ELSE IF r.e = EINVAL /\ r.used = 0 /\ r.out = <<>> /\ f.b = <<>> THEN -2
                ELSE -3
    IN [c |-> cell, x |-> <<r.ret, r.e, r.used, Scalars(r.out), Scalars(f.b)>>]
DecWrong ==
    IF KindOf[Ev.e] \in {"table", "pend"} /\ Ev.b = <<>>
    THEN LET k == NodeAt(Ev.e, Tab[Ev.e].root, Ev.p) IN
         IF k = 0 THEN {<<"node", Ev.p>>}
         ELSE LET nd == Tab[Ev.e].nodes[k] IN
              IF Ev.row = nd.row /\ SetOf(Ev.x) = SetOf(nd.x) THEN {}
              ELSE {<<"cell", b, At(Ev.row, b), At(nd.row, b)>> : b \in Diff(Ev.row, LAMBDA b : At(nd.row, b))}
                     \cup (IF SetOf(Ev.x) = SetOf(nd.x) THEN {} ELSE {<<"detail", nd.x>>})
    ELSE LET det == [b \in {Ev.x[k][1] : k \in 1..Len(Ev.x)} |-> Tail(Detail(Ev.x, b))] IN
         {<<"cell", b, At(Ev.row, b), PredDec(Ev.e, Ev.b, Append(Ev.p, b))>> :
            b \in {b \in 0..255 : LET q == PredDec(Ev.e, Ev.b, Append(Ev.p, b)) IN
                                  q.c # At(Ev.row, b) \/ (q.c = -3 /\ q.x # det[b])}}

\* a row on a discarding handle, with text behind each byte: the return value, the error, the consumed bytes and the output
PredDrop(e, base, s) ==
    LET H0 == NewHandle(e, Pivot, TRUE)
        H1 == IF base = <<>> THEN H0 ELSE Run(H0, base, 256).H
        r == Run(H1, s, 256)
        f == Rst(r.H, 64)
    IN <<r.ret, r.e, r.used, Scalars(r.out), Scalars(f.b)>>
DropWrong ==
    LET det == [b \in {Ev.x[k][1] : k \in 1..Len(Ev.x)} |-> Tail(Detail(Ev.x, b))] IN
    IF DOMAIN det # 0..255 THEN {<<"cover">>}
    ELSE {<<"cell", b, det[b], PredDrop(Ev.e, Ev.b, Append(Ev.p, b) \o Ev.q)>> :
            b \in {b \in 0..255 : det[b] # PredDrop(Ev.e, Ev.b, Append(Ev.p, b) \o Ev.q)}}

\* the four-byte codes of GB18030 by linear index: runs of consecutive characters (negative: none)
Four(e, k) == LET r == DecGB(e, <<>>, 0, <<129 + k \div 12600, 48 + ((k \div 1260) % 10), 129 + ((k \div 10) % 126), 48 + (k % 10)>>, 1)
              IN IF r.k = "chr" THEN r.c ELSE IF r.k = "few" THEN -2 ELSE -1
FourWrong ==
    LET R == Ev.runs IN
    {<<"run", R[m]>> : m \in {m \in 1..Len(R) : \E k \in R[m][1]..R[m][2] :
                                Four(Ev.e, k) # (IF R[m][3] < 0 THEN R[m][3] ELSE R[m][3] + k - R[m][1])}}
      \cup (IF R[1][1] = Ev.lo /\ R[Len(R)][2] = Ev.hi /\ \A k \in 2..Len(R) : R[k][1] = R[k - 1][2] + 1
            THEN {} ELSE {<<"cover">>})

----------------------------------------------------------------------------
(* encode pages *)
PredEnc(e, c) ==
    LET r == Run(NewHandle(Pivot, e, TRUE), BE4(c), 64)
        f == Rst(r.H, 64)
        n == Len(r.out)
        q == r.out
        cell == IF r.ret = 1 /\ n = 0 /\ f.b = <<>> THEN -1
                ELSE IF r.ret = 0 /\ n = 0 /\ f.b = <<>> /\ IsTag(c) THEN -4
                ELSE IF r.ret # 0 \/ f.b # <<>> THEN -3
                ELSE IF n = 1 THEN q[1]
                ELSE IF n = 2 /\ q[1] # 0 THEN q[1] * 256 + q[2]
                ELSE IF n = 3 /\ q[1] # 0 THEN q[1] * 65536 + q[2] * 256 + q[3]
                ELSE IF n = 4 /\ q[1] >= 128 THEN -((q[1] - 128) * 16777216 + q[2] * 65536 + q[3] * 256 + q[4])
                ELSE -3
    IN [c |-> cell, x |-> <<r.ret, r.e, r.used, r.out, f.b>>]
PageOf(t, pg) == IF pg >= Len(Tab[t].pg) THEN 0 ELSE Tab[t].pg[pg + 1]
TagCell(pg, b) == IF IsTag(pg * 256 + b) THEN -4 ELSE -1
EncWrong ==
    (IF Ev.t = <<>> THEN {} ELSE {<<"tight", Ev.t>>}) \cup
    IF KindOf[Ev.e] \in {"table", "compose", "pend"}
    THEN LET k == PageOf(Ev.e, Ev.pg) IN
         IF k = 0 THEN {<<"cell", b, At(Ev.row, b)>> : b \in Diff(Ev.row, LAMBDA b : TagCell(Ev.pg, b))}
         ELSE LET q == Tab[Ev.e].pages[k] IN
              IF Ev.row = q.row /\ SetOf(Ev.x) = SetOf(q.x) THEN {}
              ELSE {<<"cell", b, At(Ev.row, b), At(q.row, b)>> : b \in Diff(Ev.row, LAMBDA b : At(q.row, b))}
                     \cup (IF SetOf(Ev.x) = SetOf(q.x) THEN {} ELSE {<<"detail", q.x>>})
    ELSE IF KindOf[Ev.e] = "gb18030" /\ Ev.pg >= 256 /\ Ev.pg <= 4351
    THEN LET want(b) == LET q == EncGB(Ev.e, <<>>, Ev.pg * 256 + b).b IN
                        -((q[1] - 128) * 16777216 + q[2] * 65536 + q[3] * 256 + q[4])
         IN {<<"cell", b, At(Ev.row, b), want(b)>> : b \in Diff(Ev.row, want)}
    ELSE LET det == [b \in {Ev.x[k][1] : k \in 1..Len(Ev.x)} |-> Tail(Detail(Ev.x, b))]
             chr(b) == IF Ev.pg >= 8388608 THEN (Ev.pg - 16777216) * 256 + b ELSE Ev.pg * 256 + b
         IN {<<"cell", b, At(Ev.row, b), PredEnc(Ev.e, chr(b))>> :
               b \in {b \in 0..255 : LET q == PredEnc(Ev.e, chr(b)) IN
                                     q.c # At(Ev.row, b) \/ (q.c = -3 /\ q.x # det[b])}}

\* whole pages and rows as digests: the same fold over the same observables
DMod == 8000009
DStep(h, x) == (h * 257 + x + 2) % DMod
Halves(s) == [k \in 1..(2 * Len(s)) |-> IF k % 2 = 1 THEN s[(k + 1) \div 2] % 65536 ELSE (s[k \div 2] \div 65536) % 65536]
Cells == TLCEval([b \in 1..256 |-> b - 1])
EncDig(e, base, pg) ==
    LET chr(b) == IF pg >= 8388608 THEN (pg - 16777216) * 256 + b ELSE pg * 256 + b
        H0 == NewHandle(Pivot, e, TRUE)
        H == TLCEval(IF base = <<>> THEN H0 ELSE Run(H0, base, 256).H)
        \* one character in ample room: Step with the pivot's decoder (which takes any four bytes) spelled out, then Rst
        cell(c) == LET w == Put(H, c)
                       t == EncReset(e, w[3])
                   IN <<w[4], 0, 4, Len(w[2])>> \o w[2] \o <<Len(t)>> \o t
    IN FoldLeft(LAMBDA h, b : FoldLeft(DStep, h, cell(chr(b))), 7, Cells)
EncDigWrong == {<<"page", Ev.lo + Ev.step * (k - 1)>> : k \in {k \in 1..Len(Ev.d) : Ev.d[k] # EncDig(Ev.e, Ev.b, Ev.lo + Ev.step * (k - 1))}}
DecDig(e, base, p) ==
    LET H0 == NewHandle(e, Pivot, FALSE)
        H1 == IF base = <<>> THEN H0 ELSE Run(H0, base, 256).H
        cell(b) == LET r == Run(H1, Append(p, b), 256)
                       f == Rst(r.H, 64)
                   IN <<r.ret, r.e, r.used, Len(r.out) \div 4>> \o Halves(Scalars(r.out)) \o <<Len(f.b) \div 4>> \o Halves(Scalars(f.b))
    IN FoldLeft(LAMBDA h, b : FoldLeft(DStep, h, cell(b)), 7, Cells)
DecDigWrong == {<<"row", Ev.p[k]>> : k \in {k \in 1..Len(Ev.p) : Ev.d[k] # DecDig(Ev.e, Ev.b, Ev.p[k])}}

\* which pages have anything to report at all
PageShown(e, pg) ==
    IF KindOf[e] \in {"table", "compose", "pend"} THEN pg = 3584 \/ PageOf(e, pg) # 0
    ELSE pg = 3584 \/ (KindOf[e] = "gb18030" /\ pg >= 256 /\ pg <= 4351) \/ \E b \in 0..255 :
            PredEnc(e, IF pg >= 8388608 THEN (pg - 16777216) * 256 + b ELSE pg * 256 + b).c \notin {-1, -4}
SweptPages == {Ev.lo + Ev.step * k : k \in 0..((Ev.hi - Ev.lo) \div Ev.step)}
EncSumWrong ==
    LET shown == SetOf(Ev.pages) IN
    {<<"pages", pg>> : pg \in {pg \in SweptPages : PageShown(Ev.e, pg) # (pg \in shown)}}
      \cup (IF Ev.swept = Cardinality(SweptPages) THEN {} ELSE {<<"swept", Ev.swept>>})

----------------------------------------------------------------------------
(* substitution classes on a handle without discarding: 0 converted, 1 replaced, 2 refused, 3 vanished *)
Fresh(e, c) == Enc(e, InitSt(e), c).ok
Class(e, c, subst) ==
    IF Fresh(e, c) THEN (IF IsTag(c) /\ Enc(e, InitSt(e), c).b = <<>> THEN 3 ELSE 0)
    ELSE IF IsTag(c) THEN 3 ELSE IF subst THEN 1 ELSE 2
SubWrong ==
    LET subst == Fresh(Ev.e, 65533)
        rest == IF subst THEN 1 ELSE 2
        blank(pg) == KindOf[Ev.e] \in {"table", "compose", "pend"} /\ PageOf(Ev.e, pg) = 0 /\ pg # 3584
        ok(pg, row) == IF blank(pg) THEN row = <<rest>>
                       ELSE \A b \in 0..255 : At(row, b) = Class(Ev.e, pg * 256 + b, subst)
        runs == Ev.runs
    IN {<<"run", runs[k][1], runs[k][2]>> :
           k \in {k \in 1..Len(runs) : \E pg \in runs[k][1]..runs[k][2] : ~ok(pg, runs[k][3])}}
       \cup (IF Len(runs) > 0 /\ runs[1][1] = Ev.lo /\ runs[Len(runs)][2] = Ev.hi
                /\ \A k \in 2..Len(runs) : runs[k][1] = runs[k - 1][2] + 1
             THEN {} ELSE {<<"cover">>})

----------------------------------------------------------------------------
(* round trip of single characters: what did not come back must be a published one-way mapping *)
Back(e, s) ==       \* s: UCS-4BE text; the text after encoding and decoding by the specification
    LET a == Run(NewHandle(Pivot, e, FALSE), s, Huge)
        b == Rst(a.H, Huge)
        mid == a.out \o b.b
        c == Run(NewHandle(e, Pivot, FALSE), mid, Huge)
        d == Rst(c.H, Huge)
    IN IF a.ret # 0 \/ ~b.ok \/ b.cnt # 0 \/ c.ret # 0 \/ ~d.ok THEN <<>> ELSE c.out \o d.b
RtWrong == {Ev.exc[k] : k \in {k \in 1..Len(Ev.exc) : Back(Ev.e, BE4(Ev.exc[k][1])) = BE4(Ev.exc[k][1])}}

----------------------------------------------------------------------------
(* names and code pages *)
\* one row: the answers for p followed by each byte 1..255.  Canon(p \o <<b>>) is Canon(p) for a dash
\* and Canon(p) \o <<Upper(b)>> otherwise, so only the aliases one longer than Canon(p) matter.
NamesWrong ==
    LET c == Canon(Ev.p)
        self == Lookup(Ev.p)
        ext == {a \in AliasOfLen(Len(c) + 1) : SubSeq(a[1], 1, Len(c)) = c}
        want(b) == IF b \in Dash THEN self
                   ELSE LET m == {a \in ext : a[1][Len(c) + 1] = Upper(b)} IN
                        IF m = {} THEN -1 ELSE (CHOOSE a \in m : TRUE)[2]
    IN {<<Append(Ev.p, b), Ev.row[b], want(b)>> :
          b \in {b \in 1..255 : Ev.row[b] # want(b) /\ ~OnRecord(Canon(Append(Ev.p, b)), Ev.row[b])}}
\* which names and code pages open: exactly those that look-up finds, on either side; in iconv's way a '/' ends the name
OpensWrong ==
    LET c == Canon(Ev.p)
        self == IF Lookup(Ev.p) < 0 THEN 0 ELSE 1
        ext == {a[1][Len(c) + 1] : a \in {a \in AliasOfLen(Len(c) + 1) : SubSeq(a[1], 1, Len(c)) = c}}
        want(b) == IF b \in Dash THEN self ELSE IF Upper(b) \in ext THEN 1 ELSE 0
    IN {<<"name", b>> : b \in {b \in 1..255 : Ev.name[b] # want(b)}}
       \cup {<<"iconv", b>> : b \in {b \in 1..255 : Ev.iconv[b] # IF b = 47 THEN self ELSE want(b)}}
OpenCpWrong ==
    LET R == Ev.runs
        inside == {c \in DOMAIN CodePage : Ev.lo <= c /\ c <= Ev.hi}
    IN {<<"opens", R[k]>> : k \in {k \in 1..Len(R) : R[k][3] \notin {0, 1} \/ \E c \in R[k][1]..R[k][2] : (c \in inside) # (R[k][3] = 1)}}
       \cup (IF R[1][1] = Ev.lo /\ R[Len(R)][2] = Ev.hi /\ \A k \in 2..Len(R) : R[k][1] = R[k - 1][2] + 1
             THEN {} ELSE {<<"cover">>})
CpWrong ==
    LET R == Ev.runs
        inside == {c \in DOMAIN CodePage : Ev.lo <= c /\ c <= Ev.hi}
        runOf(c) == CHOOSE k \in 1..Len(R) : R[k][1] <= c /\ c <= R[k][2]
    IN {<<"cp", c>> : c \in {c \in inside : R[runOf(c)][3] # CodePage[c]}}
       \cup {<<"run", R[k]>> : k \in {k \in 1..Len(R) : R[k][3] # -1 /\ \E c \in R[k][1]..R[k][2] : c \notin inside}}
       \cup (IF R[1][1] = Ev.lo /\ R[Len(R)][2] = Ev.hi /\ \A k \in 2..Len(R) : R[k][1] = R[k - 1][2] + 1
             THEN {} ELSE {<<"cover">>})

----------------------------------------------------------------------------
(* published constants, the Encoding class and the version *)
Consts == LET f == RefDir \o "/consts.json" IN JsonDeserialize(f)
ConstIdx == LET k == Consts IN TLCEval([n \in {k[j].n : j \in 1..Len(k)} |-> k[CHOOSE j \in 1..Len(k) : k[j].n = n].e])
ConstWrong == IF Ev.c = ConstIdx[Ev.n] /\ Ev.p = ConstIdx[Ev.n] /\ Ev.eq = 5 THEN {} ELSE {<<"const", Ev.n, ConstIdx[Ev.n]>>}
EncStrWrong == LET want == Lookup(Ev.name) IN
               IF IF want < 0 THEN Ev.kind = 1 ELSE Ev.kind = 0 /\ Ev.idx = want THEN {} ELSE {<<"encoding", want>>}
VersionWrong == IF Ev.c = Ev.want /\ Ev.cpp = Ev.want /\ Ev.f0 = 0 /\ Ev.f1 = 1 /\ Ev.g0 = 0 /\ Ev.g1 = 1 THEN {} ELSE {<<"version">>}

----------------------------------------------------------------------------
(* a long text, the unit repeated: its parts as the specification has them, and every way of    *)
(* converting the whole gives the first part, the second as often as needed, and the end.       *)
(* Judged where the second unit leaves the handle as the first did, so that the rest follows.   *)
LongWrong ==
    LET a == Run(NewHandle(Ev.from, Ev.to, Ev.fl = 1), Ev.unit, Huge)
        b == Run(a.H, Ev.unit, Huge)
        z == Rst(b.H, Huge)
        total == Len(a.out) + (Ev.reps - 1) * Len(b.out) + Len(z.b)
        count == a.ret + (Ev.reps - 1) * b.ret + z.cnt
        R == Ev.runs
    IN IF a.ret < 0 \/ b.ret < 0 \/ a.H # b.H \/ ~z.ok THEN {}
       ELSE (IF <<Ev.o1, Ev.o2, Ev.tail>> = <<a.out, b.out, z.b>> THEN {} ELSE {<<"parts", a.out, b.out, z.b>>})
            \cup {<<"run", k, total, count>> : k \in {k \in 1..Len(R) :
                  ~ IF k = 5 /\ total > 0 THEN R[k][1] = -1 /\ R[k][2] = E2BIG
                    ELSE /\ R[k][1] = (IF k = 1 THEN count ELSE 0) /\ R[k][2] = 0
                         /\ R[k][3] = total /\ R[k][4] # 0}}
            \cup (IF Len(R) = (IF total > 0 THEN 7 ELSE 6) THEN {} ELSE {<<"runs">>})

----------------------------------------------------------------------------
Wrong ==
    CASE Ev.op = "dec" -> DecWrong
      [] Ev.op = "drop" -> DropWrong
      [] Ev.op = "long" -> LongWrong
      [] Ev.op = "encdig" -> EncDigWrong
      [] Ev.op = "walk" -> IF Ev.n = 1115136 /\ Ev.ok = 1115136 \div 64 THEN {} ELSE {<<"walk">>}    \* a discarding call in ample room takes all
      [] Ev.op = "decdig" -> DecDigWrong
      [] Ev.op = "four" -> FourWrong
      [] Ev.op = "enc" -> EncWrong
      [] Ev.op = "encsum" -> EncSumWrong
      [] Ev.op = "sub" -> SubWrong
      [] Ev.op = "rtsweep" -> RtWrong
      [] Ev.op = "names" -> NamesWrong
      [] Ev.op = "codepages" -> CpWrong
      [] Ev.op = "opens" -> OpensWrong
      [] Ev.op = "opencp" -> OpenCpWrong
      [] Ev.op = "const" -> ConstWrong
      [] Ev.op = "encstr" -> EncStrWrong
      [] Ev.op = "version" -> VersionWrong
      [] OTHER -> {<<"crash">>}

Next == /\ v = "run" /\ UNCHANGED i
        /\ LET w == Wrong IN
           IF w = {} THEN Accept
           ELSE /\ v' = "bad"
                /\ PrintT("REJECT " \o ToJson([at |-> i, n |-> Cardinality(w), why |-> w]))

Spec == Init /\ [][Next]_vars
TypeOK == v \in {"run", "ok", "bad"}
=============================================================================
