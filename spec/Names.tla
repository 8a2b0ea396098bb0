------------------------------- MODULE Names -------------------------------
(* Encoding names, code pages and the four ways to open a conversion.                          *)
EXTENDS RefData

Dash == {45, 95}                  \* '-' and '_'
Upper(b) == IF 97 <= b /\ b <= 122 THEN b - 32 ELSE b
Canon(name) == LET kept == SelectSeq(name, LAMBDA b : b \notin Dash) IN
               [i \in 1..Len(kept) |-> Upper(kept[i])]

FcnOf(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]
AliasByLen == LET a == Catalog.alias
                  m == CHOOSE n \in 1..200 : \A k \in 1..Len(a) : Len(a[k][1]) <= n
              IN TLCEval([n \in 0..m |-> {a[k] : k \in {k \in 1..Len(a) : Len(a[k][1]) = n}}])
AliasOfLen(n) == IF n \in DOMAIN AliasByLen THEN AliasByLen[n] ELSE {}
CodePage == LET a == Catalog.cp IN TLCEval(FcnOf(a))

Lookup(name) == LET c == Canon(name)
                    m == {a \in AliasOfLen(Len(c)) : a[1] = c}
                IN IF m = {} THEN -1 ELSE (CHOOSE a \in m : TRUE)[2]
LookupCP(n) == IF n \in DOMAIN CodePage THEN CodePage[n] ELSE -1

\* deviations of the library that are on record (known_findings.json): canonical name and answer
KnownFindings == LET f == IOEnv.VERIF_KNOWN IN JsonDeserialize(f)
OnRecord(c, got) == \E k \in 1..Len(KnownFindings) :
                       /\ KnownFindings[k].name = c /\ KnownFindings[k].got = got
                       /\ PrintT("KNOWN " \o ToJson(KnownFindings[k]))

\* iconv-style names: the name ends at the first slash
Slash == 47
Slashes(name) == {i \in 1..Len(name) : name[i] = Slash}
Base(name) == LET s == Slashes(name) IN
              IF s = {} THEN name
              ELSE SubSeq(name, 1, (CHOOSE i \in s : \A j \in s : i <= j) - 1)
IGNORE == <<47, 47, 73, 71, 78, 79, 82, 69>>
EndsInIgnore(name) ==
    LET c == Canon(name) IN Len(c) >= 8 /\ SubSeq(c, Len(c) - 7, Len(c)) = IGNORE
MentionsIgnore(name) ==
    LET c == Canon(name) IN \E i \in 1..(Len(c) - 7) : SubSeq(c, i, i + 7) = IGNORE

\* the discard flag an iconv-style opening must / may have
IconvDisc(f, t) == EndsInIgnore(f) \/ EndsInIgnore(t)
IconvDiscOpen(f, t) == ~IconvDisc(f, t) /\ (MentionsIgnore(f) \/ MentionsIgnore(t))
=============================================================================
