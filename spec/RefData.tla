------------------------------ MODULE RefData ------------------------------
(* The published data the specification rests on: the catalogue of encodings (names, code      *)
(* pages, families) and, per character set, the frozen reference table.                        *)
(*                                                                                             *)
(* A table is a record                                                                         *)
(*   nodes  decode trie: row (256 cells, or 1 when all are equal), kid (child node per byte),  *)
(*          x (details of the cells -3)                                                        *)
(*          cell >= 0 character, -1 undefined, -2 prefix of a longer code, -3 see x            *)
(*   root   index of the root node                                                             *)
(*   pg     page number (character \div 256) -> index into pages, 0 = nothing encodable        *)
(*   pages  rows of codes, packed big-endian; -1 none; 4-byte codes negative; -3 see x         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Encs          \* the encodings (indices) this run needs

RefDir == IOEnv.VERIF_REF

Catalog == TLCEval(JsonDeserialize(RefDir \o "/catalog.json"))

NEnc == Len(Catalog.enc)

KindOf == LET c == Catalog.enc IN TLCEval([e \in 0..(Len(c) - 1) |-> c[e + 1].kind])
UnitOf == LET c == Catalog.enc IN TLCEval([e \in 0..(Len(c) - 1) |-> c[e + 1].unit])

\* component character sets of the shift encodings (1000, 1001: the sets of ISO-2022-JP-MS)
Components(k) ==
    CASE k = "jp"    -> {107, 108}
      [] k = "jp1"   -> {107, 108, 109}
      [] k = "jp2"   -> {107, 108, 109, 111, 113, 49, 55}
      [] k = "jp3"   -> {107, 108, 191}
      [] k = "jpms"  -> {107, 1000, 1001}
      [] k = "cn"    -> {111, 36}
      [] k = "cnext" -> {111, 36, 112}
      [] k = "kr"    -> {113}
      [] k = "hz"    -> {111}
      [] OTHER       -> {}

TableKinds == {"table", "compose", "pend", "gb18030"}

Tables == LET K == KindOf IN {e \in Encs : K[e] \in TableKinds} \cup UNION {Components(K[e]) : e \in Encs}

Tab == LET ts == Tables IN TLCEval([t \in ts |-> JsonDeserialize(RefDir \o "/t" \o ToString(t) \o ".json")])

At(row, i) == IF Len(row) = 1 THEN row[1] ELSE row[i + 1]

Kid(node, b) == IF node.kid = <<>> THEN 0 ELSE At(node.kid, b)

Detail(x, b) == x[CHOOSE i \in 1..Len(x) : x[i][1] = b]

\* the encode cell of character c (c < 0 stands for values >= 2^31)
Cell(t, c) ==
    LET pgs == Tab[t].pg IN
    IF c < 0 \/ c \div 256 >= Len(pgs) THEN -1
    ELSE LET k == pgs[c \div 256 + 1] IN
         IF k = 0 THEN -1 ELSE At(Tab[t].pages[k].row, c % 256)

CellDetail(t, c) == Detail(Tab[t].pages[Tab[t].pg[c \div 256 + 1]].x, c % 256)

\* the bytes of a packed cell
Unpack(v) ==
    IF v < 0 THEN <<(-v) \div 16777216 + 128, ((-v) \div 65536) % 256, ((-v) \div 256) % 256, (-v) % 256>>
    ELSE IF v < 256 THEN <<v>>
    ELSE IF v < 65536 THEN <<v \div 256, v % 256>>
    ELSE <<v \div 65536, (v \div 256) % 256, v % 256>>

\* the code of c in table t, <<>> when it has none (tables without held-back characters)
Code(t, c) == LET v == Cell(t, c) IN IF v = -1 \/ v = -4 THEN <<>> ELSE Unpack(v)

\* the character with the two-byte code b1 b2 in table t, or -1
Two(t, b1, b2) ==
    LET r == Tab[t].nodes[Tab[t].root]
        k == IF At(r.row, b1) = -2 THEN Kid(r, b1) ELSE 0
    IN IF k = 0 THEN -1
       ELSE LET c == At(Tab[t].nodes[k].row, b2) IN IF c >= 0 THEN c ELSE -1
One(t, b) == LET c == At(Tab[t].nodes[Tab[t].root].row, b) IN IF c >= 0 THEN c ELSE -1

\* two-character codes of the look-ahead sets: <<first, second>> -> bytes
PairTables == {t \in Tables : t \in {39, 40, 41, 42, 191, 192}}
Pairs == LET T == Tab IN TLCEval([t \in PairTables |->
            LET ps == T[t].pairs IN
            [k \in {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)} |->
                ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k[1] /\ ps[i][2] = k[2]][3]]])

\* compositions: <<base, combining>> -> <<composed, 1 if the result may combine again>>
CompTables == {t \in Tables : t \in {72, 75, 105}}
Comp == LET T == Tab IN TLCEval([t \in CompTables |->
            LET cs == T[t].comp IN
            [k \in {<<cs[i][1], cs[i][2]>> : i \in 1..Len(cs)} |->
                LET m == cs[CHOOSE i \in 1..Len(cs) : cs[i][1] = k[1] /\ cs[i][2] = k[2]]
                IN <<m[3], m[4]>>]])
Hold == LET T == Tab IN TLCEval([t \in CompTables |-> {T[t].hold[i] : i \in 1..Len(T[t].hold)}])
=============================================================================
