------------------------------- MODULE Codec -------------------------------
(* What each encoding means: one decoding step and one encoding step, as total functions of     *)
(* the conversion state.                                                                        *)
(*                                                                                              *)
(*   Dec(e, st, bo, s, p)  reads the bytes s[p..]; result record r with                         *)
(*      r.k = "chr"    the character r.c was read, r.n bytes long (0: it had been held back)    *)
(*      r.k = "few"    r.n bytes were shift sequences or held back, the rest is incomplete      *)
(*      r.k = "ilseq"  after r.n bytes of shift sequences comes an invalid sequence             *)
(*      r.st, r.bo     the decoder state and byte order afterwards                              *)
(*   Enc(e, st, c)  r.ok, r.b (bytes), r.st                                                     *)
(*   DecFlush(e, st)  <<>> or <<c>>: the character still held back                              *)
(*   EncReset(e, st)  the bytes that return to the initial state                                *)
EXTENDS RefData

Res(k, n, c, st, bo) == [k |-> k, n |-> n, c |-> c, st |-> st, bo |-> bo]
Ok(b, st) == [ok |-> TRUE, b |-> b, st |-> st]
Bad(st) == [ok |-> FALSE, b |-> <<>>, st |-> st]

Surr(c) == 55296 <= c /\ c <= 57343
High(c) == 55296 <= c /\ c <= 56319
Low(c)  == 56320 <= c /\ c <= 57343
Scalar(c) == 0 <= c /\ c <= 1114111 /\ ~Surr(c)
PairOf(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
HighOf(c) == 55296 + (c - 65536) \div 1024
LowOf(c) == 56320 + ((c - 65536) % 1024)
IsTag(c) == 917504 <= c /\ c <= 917631

ByteOf(c, k) == (c \div (CASE k = 0 -> 1 [] k = 1 -> 256 [] k = 2 -> 65536 [] k = 3 -> 16777216)) % 256

----------------------------------------------------------------------------
(* table-driven sets *)

RECURSIVE WalkT(_, _, _, _, _)
WalkT(t, nd, s, p, n) ==       \* n bytes read so far, p next position
    IF p > Len(s) THEN <<"few", 0, 0>>
    ELSE LET node == Tab[t].nodes[nd]
             c == At(node.row, s[p])
         IN IF c >= 0 THEN <<"chr", n + 1, c>>
            ELSE IF c = -1 THEN <<"ilseq", 0, 0>>
            ELSE IF c = -2 THEN IF Kid(node, s[p]) = 0 THEN <<"few", 0, 0>>
                                ELSE WalkT(t, Kid(node, s[p]), s, p + 1, n + 1)
            ELSE <<"det", n + 1, Detail(node.x, s[p])>>

Walk(t, s, p) == WalkT(t, Tab[t].root, s, p, 0)

DecTable(e, st, bo, s, p) ==
    LET w == Walk(e, s, p) IN Res(w[1], w[2], w[3], st, bo)
EncTable(e, st, c) ==
    LET v == Cell(e, c) IN IF v = -1 \/ v = -4 THEN Bad(st) ELSE Ok(Unpack(v), st)

(* GB18030: one- and two-byte part by table, four-byte part arithmetically *)
In(b, lo, hi) == lo <= b /\ b <= hi
R4(t, i) ==   \* the four-byte area below U+10000, by binary search over the runs
    LET rs == Tab[t].r4
        RECURSIVE find(_, _)
        find(a, b) == IF a > b THEN -1
                      ELSE LET m == (a + b) \div 2 IN
                           IF i < rs[m][1] THEN find(a, m - 1)
                           ELSE IF i > rs[m][2] THEN find(m + 1, b)
                           ELSE rs[m][3] + i - rs[m][1]
    IN find(1, Len(rs))
DecGB(e, st, bo, s, p) ==
    LET n == Len(s) - p + 1
        few == Res("few", 0, 0, st, bo)
        bad == Res("ilseq", 0, 0, st, bo)
        four == (In(s[p], 129, 132) \/ In(s[p], 144, 227)) /\ n >= 2 /\ In(s[p + 1], 48, 57)
    IN IF ~four THEN LET w == Walk(e, s, p) IN Res(w[1], w[2], w[3], st, bo)
       ELSE IF n < 3 THEN few
       ELSE IF ~In(s[p + 2], 129, 254) THEN bad
       ELSE IF n < 4 THEN few
       ELSE IF ~In(s[p + 3], 48, 57) THEN bad
       ELSE LET lo == IF s[p] <= 132 THEN 129 ELSE 144
                i == (((s[p] - lo) * 10 + s[p + 1] - 48) * 126 + s[p + 2] - 129) * 10 + s[p + 3] - 48
                c == IF lo = 129 THEN R4(e, i) ELSE IF i < 1048576 THEN 65536 + i ELSE -1
            IN IF c = -1 THEN bad ELSE Res("chr", 4, c, st, bo)
EncGB(e, st, c) ==
    IF 65536 <= c /\ c <= 1114111
    THEN LET i == c - 65536 IN
         Ok(<<i \div 12600 + 144, ((i \div 1260) % 10) + 48, ((i \div 10) % 126) + 129, (i % 10) + 48>>, st)
    ELSE EncTable(e, st, c)

(* sets that hold a base character back, waiting for a combining one; state <<>> or <<base>> *)
DecCompose(e, st, bo, s, p) ==
    LET c == Tab[e].raw[s[p] + 1] IN
    IF c = -1 THEN Res("ilseq", 0, 0, st, bo)
    ELSE IF st # <<>> THEN
        IF <<st[1], c>> \in DOMAIN Comp[e]
        THEN LET m == Comp[e][<<st[1], c>>] IN
             IF m[2] = 1 THEN Res("few", 1, 0, <<m[1]>>, bo) ELSE Res("chr", 1, m[1], <<>>, bo)
        ELSE Res("chr", 0, st[1], <<>>, bo)
    ELSE IF c \in Hold[e] THEN Res("few", 1, 0, <<c>>, bo)
    ELSE Res("chr", 1, c, <<>>, bo)

(* sets with two-character codes; decoder state: the second character, encoder state: the first *)
DecPend(e, st, bo, s, p) ==
    IF st # <<>> THEN Res("chr", 0, st[1], <<>>, bo)
    ELSE LET w == Walk(e, s, p) IN
         IF w[1] = "det" THEN Res("chr", w[2], w[3][5][1], <<w[3][6][1]>>, bo)
         ELSE Res(w[1], w[2], w[3], st, bo)
HeldCode(t, c) == CellDetail(t, c)[6]
EncPend(e, st, c) ==
    IF st # <<>> /\ <<st[1], c>> \in DOMAIN Pairs[e] THEN Ok(Pairs[e][<<st[1], c>>], <<>>)
    ELSE LET v == Cell(e, c)
             pre == IF st = <<>> THEN <<>> ELSE HeldCode(e, st[1])
         IN IF v = -1 \/ v = -4 THEN Bad(st)
            ELSE IF v = -3 THEN Ok(pre, <<c>>)
            ELSE Ok(pre \o Unpack(v), <<>>)

----------------------------------------------------------------------------
(* Unicode formats *)

Cont(b) == In(b, 128, 191)
DecUTF8(st, bo, s, p) ==
    LET n == Len(s) - p + 1
        a == s[p]
        few == Res("few", 0, 0, st, bo)
        bad == Res("ilseq", 0, 0, st, bo)
    IN IF a < 128 THEN Res("chr", 1, a, st, bo)
       ELSE IF a < 194 \/ a > 247 THEN bad
       ELSE IF a < 224 THEN
            IF n < 2 THEN few
            ELSE IF ~Cont(s[p + 1]) THEN bad
            ELSE Res("chr", 2, (a - 192) * 64 + s[p + 1] - 128, st, bo)
       ELSE IF a < 240 THEN
            IF n < 3 THEN few
            ELSE LET c == (a - 224) * 4096 + (s[p + 1] - 128) * 64 + s[p + 2] - 128
                 IN IF Cont(s[p + 1]) /\ Cont(s[p + 2]) /\ c >= 2048 /\ ~Surr(c)
                    THEN Res("chr", 3, c, st, bo) ELSE bad
       ELSE IF n < 4 THEN few
            ELSE LET c == (a - 240) * 262144 + (s[p + 1] - 128) * 4096 + (s[p + 2] - 128) * 64 + s[p + 3] - 128
                 IN IF Cont(s[p + 1]) /\ Cont(s[p + 2]) /\ Cont(s[p + 3]) /\ c >= 65536 /\ c <= 1114111
                    THEN Res("chr", 4, c, st, bo) ELSE bad
EncUTF8(st, c) ==
    IF ~Scalar(c) THEN Bad(st)
    ELSE IF c < 128 THEN Ok(<<c>>, st)
    ELSE IF c < 2048 THEN Ok(<<192 + c \div 64, 128 + (c % 64)>>, st)
    ELSE IF c < 65536 THEN Ok(<<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>, st)
    ELSE Ok(<<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>, st)

U2(s, p, le) == IF le THEN s[p] + 256 * s[p + 1] ELSE 256 * s[p] + s[p + 1]
S4(a, b, c, d) == (IF a >= 128 THEN a - 256 ELSE a) * 16777216 + b * 65536 + c * 256 + d
U4(s, p, le) == IF le THEN S4(s[p + 3], s[p + 2], s[p + 1], s[p]) ELSE S4(s[p], s[p + 1], s[p + 2], s[p + 3])
W2(c, le) == IF le THEN <<c % 256, c \div 256>> ELSE <<c \div 256, c % 256>>
W4(c, le) == IF le THEN <<ByteOf(c, 0), ByteOf(c, 1), ByteOf(c, 2), ByteOf(c, 3)>>
             ELSE <<ByteOf(c, 3), ByteOf(c, 2), ByteOf(c, 1), ByteOf(c, 0)>>

\* one code point of a 2- or 4-byte format in a known byte order, after n bytes of byte order marks
DecWide(f, st, bo, s, p, le, n) ==
    LET left == Len(s) - p + 1
        few == Res("few", n, 0, st, bo)
        bad == Res("ilseq", n, 0, st, bo)
        chr(k, c) == Res("chr", n + k, c, st, bo)
    IN CASE f = "ucs2"  -> IF left < 2 THEN few
                           ELSE LET c == U2(s, p, le) IN IF Surr(c) THEN bad ELSE chr(2, c)
         [] f = "utf16" -> IF left < 2 THEN few
                           ELSE LET c == U2(s, p, le) IN
                                IF Low(c) THEN bad
                                ELSE IF ~High(c) THEN chr(2, c)
                                ELSE IF left < 4 THEN few
                                ELSE LET d == U2(s, p + 2, le) IN
                                     IF Low(d) THEN chr(4, PairOf(c, d)) ELSE bad
         [] f = "ucs4"  -> IF left < 4 THEN few ELSE chr(4, U4(s, p, le))
         [] f = "ucs4+" -> IF left < 4 THEN few
                           ELSE LET c == U4(s, p, le) IN IF c < 0 THEN bad ELSE chr(4, c)
         [] f = "utf32" -> IF left < 4 THEN few
                           ELSE LET c == U4(s, p, le) IN IF Scalar(c) THEN chr(4, c) ELSE bad

\* formats with byte order marks: a mark is skipped, a reversed mark switches the order
RECURSIVE DecMarked(_, _, _, _, _, _)
DecMarked(f, st, bo, s, p, n) ==
    LET u == IF f \in {"ucs2", "utf16"} THEN 2 ELSE 4
        left == Len(s) - p + 1
        v == IF u = 2 THEN U2(s, p, bo = 1) ELSE U4(s, p, bo = 1)
    IN IF left < u THEN Res("few", n, 0, st, bo)
       ELSE IF v = 65279 THEN DecMarked(f, st, bo, s, p + u, n + u)
       ELSE IF (u = 2 /\ v = 65534) \/ (u = 4 /\ v = -131072)
            THEN DecMarked(f, st, 1 - bo, s, p + u, n + u)
       ELSE DecWide(f, st, bo, s, p, bo = 1, n)

EncWide(f, st, c, le) ==
    CASE f = "ucs2"  -> IF In(c, 0, 65535) /\ ~Surr(c) THEN Ok(W2(c, le), st) ELSE Bad(st)
      [] f = "utf16" -> IF ~Scalar(c) THEN Bad(st)
                        ELSE IF c < 65536 THEN Ok(W2(c, le), st)
                        ELSE Ok(W2(HighOf(c), le) \o W2(LowOf(c), le), st)
      [] f = "ucs4"  -> Ok(W4(c, le), st)
      [] f = "ucs4+" -> IF c < 0 THEN Bad(st) ELSE Ok(W4(c, le), st)
      [] f = "utf32" -> IF Scalar(c) THEN Ok(W4(c, le), st) ELSE Bad(st)

\* announcing formats write one big-endian mark first; state <<>> before, <<1>> after it
EncMarked(f, st, c) ==
    LET r == EncWide(f, st, c, FALSE)
        mark == IF f = "utf16" THEN <<254, 255>> ELSE <<0, 0, 254, 255>>
    IN IF ~r.ok \/ (f = "utf16" /\ c = 65534) THEN Bad(st)
       ELSE IF st = <<>> THEN Ok(mark \o r.b, <<1>>) ELSE r

(* UTF-7.  State <<>>: direct; <<k, v>>: in base64 with k pending bits of value v *)
B64(b) == IF In(b, 65, 90) THEN b - 65
          ELSE IF In(b, 97, 122) THEN b - 71
          ELSE IF In(b, 48, 57) THEN b + 4
          ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE -1
Digit(v) == IF v < 26 THEN v + 65 ELSE IF v < 52 THEN v + 71 ELSE IF v < 62 THEN v - 4
            ELSE IF v = 62 THEN 43 ELSE 47
Alnum(b) == In(b, 65, 90) \/ In(b, 97, 122) \/ In(b, 48, 57)
Direct(c) == Alnum(c) \/ c \in {39, 40, 41, 44, 45, 46, 47, 58, 63, 32, 9, 10, 13}
XDirect(c) == (In(c, 32, 125) /\ c # 43 /\ c # 92) \/ c \in {9, 10, 13}
XBase64(c) == Alnum(c) \/ c \in {43, 45, 47}
P2(k) == CASE k = 0 -> 1 [] k = 2 -> 4 [] k = 4 -> 16 [] k = 6 -> 64

\* one 16-bit unit from the digits at q, k pending bits of value v:
\* <<next position, unit, k', v'>>, or <<0>> when incomplete, or <<-1>> when interrupted
RECURSIVE Unit16(_, _, _, _)
Unit16(s, q, k, v) ==
    IF q > Len(s) THEN <<0>>
    ELSE LET d == B64(s[q])
             k1 == k + 6
             v1 == v * 64 + d
         IN IF d < 0 THEN <<-1>>
            ELSE IF k1 >= 16 THEN <<q + 1, v1 \div P2(k1 - 16), k1 - 16, v1 % P2(k1 - 16)>>
            ELSE Unit16(s, q + 1, k1, v1)

DecU7Direct(bo, s, p, n, Active(_, _)) ==
    IF p > Len(s) THEN Res("few", n, 0, <<>>, bo)
    ELSE IF XDirect(s[p]) THEN Res("chr", n + 1, s[p], <<>>, bo)
    ELSE IF s[p] # 43 THEN Res("ilseq", n, 0, <<>>, bo)
    ELSE IF p = Len(s) THEN Res("few", n, 0, <<>>, bo)
    ELSE IF s[p + 1] = 45 THEN Res("chr", n + 2, 43, <<>>, bo)
    ELSE Active(p + 1, n + 1)

RECURSIVE DecU7(_, _, _, _, _)
DecU7(st, bo, s, p, n) ==
    LET again(q, m) == DecU7(<<0, 0>>, bo, s, q, m)
        few == Res("few", n, 0, st, bo)
        bad == Res("ilseq", n, 0, st, bo)
    IN IF st = <<>> THEN DecU7Direct(bo, s, p, n, again)
       ELSE IF B64(s[p]) < 0 THEN
            IF st[2] # 0 THEN bad
            ELSE IF s[p] = 45 THEN DecU7Direct(bo, s, p + 1, n + 1, again)
            ELSE DecU7Direct(bo, s, p, n, again)
       ELSE LET u == Unit16(s, p, st[1], st[2]) IN
            IF u[1] = 0 THEN few ELSE IF u[1] = -1 THEN bad
            ELSE IF Low(u[2]) THEN bad
            ELSE IF ~High(u[2]) THEN Res("chr", n + u[1] - p, u[2], <<u[3], u[4]>>, bo)
            ELSE LET w == Unit16(s, u[1], u[3], u[4]) IN
                 IF w[1] = 0 THEN few ELSE IF w[1] = -1 THEN bad
                 ELSE IF ~Low(w[2]) THEN bad
                 ELSE Res("chr", n + w[1] - p, PairOf(u[2], w[2]), <<w[3], w[4]>>, bo)

\* append the 16 bits of u to k pending bits of value v: <<digits, k', v'>>
Put16(u, k, v) ==
    LET t == v * 65536 + u          \* at most 20 bits
        m == k + 16
    IN IF m = 16 THEN <<<<Digit(t \div 1024), Digit((t \div 16) % 64)>>, 4, t % 16>>
       ELSE IF m = 18 THEN <<<<Digit(t \div 4096), Digit((t \div 64) % 64), Digit(t % 64)>>, 0, 0>>
       ELSE <<<<Digit(t \div 16384), Digit((t \div 256) % 64), Digit((t \div 4) % 64)>>, 2, t % 4>>
U7Tail(st) == IF st[1] = 0 THEN <<>> ELSE <<Digit(st[2] * P2(6 - st[1]))>>
EncU7(st, c) ==
    IF ~Scalar(c) THEN Bad(st)
    ELSE IF Direct(c) THEN
         IF st = <<>> THEN Ok(<<c>>, <<>>)
         ELSE Ok(U7Tail(st) \o (IF XBase64(c) THEN <<45>> ELSE <<>>) \o <<c>>, <<>>)
    ELSE IF st = <<>> /\ c = 43 THEN Ok(<<43, 45>>, <<>>)
    ELSE LET pre == IF st = <<>> THEN <<43>> ELSE <<>>
             k == IF st = <<>> THEN 0 ELSE st[1]
             v == IF st = <<>> THEN 0 ELSE st[2]
         IN IF c < 65536 THEN LET r == Put16(c, k, v) IN Ok(pre \o r[1], <<r[2], r[3]>>)
            ELSE LET r1 == Put16(HighOf(c), k, v)
                     r2 == Put16(LowOf(c), r1[2], r1[3])
                 IN Ok(pre \o r1[1] \o r2[1], <<r2[2], r2[3]>>)

(* C99 and JAVA escapes *)
Hex(b) == IF In(b, 48, 57) THEN b - 48 ELSE IF In(b, 65, 70) THEN b - 55
          ELSE IF In(b, 97, 102) THEN b - 87 ELSE -1
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
\* k hex digits from q on: <<1, value>>, <<0, 0>> when cut off, <<-1, 0>> when not hexadecimal
RECURSIVE HexRun(_, _, _, _)
HexRun(s, q, k, v) ==
    IF k = 0 THEN <<1, v>>
    ELSE IF q > Len(s) THEN <<0, 0>>
    ELSE IF Hex(s[q]) < 0 THEN <<-1, 0>>
    ELSE HexRun(s, q + 1, k - 1,
                IF v >= 134217728 THEN (v - 268435456) * 16 + Hex(s[q]) ELSE v * 16 + Hex(s[q]))
HexOf(c, k) == [i \in 1..k |-> HexDigit(
                  LET sh == k - i IN
                  IF sh >= 6 THEN (ByteOf(c, 3) \div (IF sh = 7 THEN 16 ELSE 1)) % 16
                  ELSE (ByteOf(c, sh \div 2) \div (IF sh % 2 = 1 THEN 16 ELSE 1)) % 16)]
DecC99(st, bo, s, p) ==
    LET few == Res("few", 0, 0, st, bo)
        bad == Res("ilseq", 0, 0, st, bo)
        plain == Res("chr", 1, 92, st, bo)
        esc(k) == LET h == HexRun(s, p + 2, k, 0) IN
                  IF h[1] = 0 THEN few ELSE IF h[1] = -1 THEN plain
                  ELSE IF ((h[2] < 0 \/ h[2] >= 160) /\ ~Surr(h[2])) \/ h[2] \in {36, 64, 96}
                       THEN Res("chr", k + 2, h[2], st, bo) ELSE bad
    IN IF s[p] >= 160 THEN bad
       ELSE IF s[p] # 92 THEN Res("chr", 1, s[p], st, bo)
       ELSE IF p = Len(s) THEN few
       ELSE IF s[p + 1] = 117 THEN esc(4)
       ELSE IF s[p + 1] = 85 THEN esc(8)
       ELSE plain
EncC99(st, c) ==
    IF In(c, 0, 159) THEN Ok(<<c>>, st)
    ELSE IF In(c, 160, 65535) THEN Ok(<<92, 117>> \o HexOf(c, 4), st)
    ELSE Ok(<<92, 85>> \o HexOf(c, 8), st)
DecJava(st, bo, s, p) ==
    LET few == Res("few", 0, 0, st, bo)
        plain == Res("chr", 1, 92, st, bo)
        h == HexRun(s, p + 2, 4, 0)
        g == HexRun(s, p + 8, 4, 0)
    IN IF s[p] # 92 THEN Res("chr", 1, s[p], st, bo)
       ELSE IF p = Len(s) THEN few
       ELSE IF s[p + 1] # 117 THEN plain
       ELSE IF h[1] = 0 THEN few ELSE IF h[1] = -1 THEN plain
       ELSE IF ~Surr(h[2]) THEN Res("chr", 6, h[2], st, bo)
       ELSE IF Low(h[2]) THEN plain
       ELSE IF p + 6 > Len(s) THEN few
       ELSE IF s[p + 6] # 92 THEN plain
       ELSE IF p + 7 > Len(s) THEN few
       ELSE IF s[p + 7] # 117 THEN plain
       ELSE IF g[1] = 0 THEN few ELSE IF g[1] = -1 THEN plain
       ELSE IF Low(g[2]) THEN Res("chr", 12, PairOf(h[2], g[2]), st, bo) ELSE plain
EncJava(st, c) ==
    LET u(x) == <<92, 117>> \o HexOf(x, 4) IN
    IF In(c, 0, 127) THEN Ok(<<c>>, st)
    ELSE IF In(c, 128, 65535) THEN Ok(u(c), st)
    ELSE IF In(c, 65536, 1114111) THEN Ok(u(HighOf(c)) \o u(LowOf(c)), st)
    ELSE Bad(st)

----------------------------------------------------------------------------
(* Shift encodings.  Sets of the Japanese family: *)
ASCII == 0
ROMAN == 1
KANA == 2
S0208 == 3
S0212 == 4
SGB == 5
SKSC == 6
S0213A == 7
S0213B == 8
S0208MS == 9
S0212MS == 10
JPKinds == {"jp", "jp1", "jp2", "jp3", "jpms"}

\* designations: third byte after ESC ( , after ESC $ , and fourth byte after ESC $ (
Des1(k, b) == CASE b = 66 -> ASCII [] b = 74 -> ROMAN
                [] b = 73 /\ k \in {"jp2", "jp3", "jpms"} -> KANA [] OTHER -> -1
Des2(k, b) == CASE b \in {64, 66} -> (IF k = "jpms" THEN S0208MS ELSE S0208)
                [] b = 65 /\ k = "jp2" -> SGB [] OTHER -> -1
Des3(k, b) == CASE b = 68 /\ k \in {"jp1", "jp2"} -> S0212
                [] b = 68 /\ k = "jpms" -> S0212MS
                [] b = 67 /\ k = "jp2" -> SKSC
                [] b \in {79, 81} /\ k = "jp3" -> S0213A
                [] b = 80 /\ k = "jp3" -> S0213B [] OTHER -> -1

\* the character b1 b2 of a two-byte set: <<first>>, <<first, held back second>>, or <<>>
TwoOf(set, b1, b2) ==
    LET single(c) == IF c < 0 THEN <<>> ELSE <<c>> IN
    CASE set = S0208 -> single(Two(108, b1, b2))
      [] set = S0212 -> single(Two(109, b1, b2))
      [] set = SGB -> single(Two(111, b1, b2))
      [] set = SKSC -> single(Two(113, b1, b2))
      [] set = S0208MS -> single(Two(1000, b1, b2))
      [] set = S0212MS -> single(Two(1001, b1, b2))
      [] OTHER -> IF b1 < 33 \/ b2 < 33 THEN <<>>
                  ELSE LET w == Walk(191, IF set = S0213A THEN <<b1 + 128, b2 + 128>>
                                          ELSE <<143, b1 + 128, b2 + 128>>, 1)
                       IN IF w[1] = "chr" THEN <<w[3]>>
                          ELSE IF w[1] = "det" THEN <<w[3][5][1], w[3][6][1]>> ELSE <<>>

\* state <<set, G2 set (0 none), held back character (0 none)>>
RECURSIVE DecJP(_, _, _, _, _, _)
DecJP(k, st, bo, s, p, n) ==
    LET left == Len(s) - p + 1
        few == Res("few", n, 0, st, bo)
        bad == Res("ilseq", n, 0, st, bo)
        b == s[p]
        \* continue after a shift sequence of m bytes in state t
        next(m, t) == IF left = m THEN Res("few", n + m, 0, t, bo) ELSE DecJP(k, t, bo, s, p + m, n + m)
        desig(set, m) == IF set < 0 THEN bad ELSE next(m, <<set, st[2], st[3]>>)
        line(c) == IF k = "jp2" /\ c \in {10, 13} THEN <<st[1], 0, st[3]>> ELSE st
    IN IF st[3] # 0 THEN Res("chr", 0, st[3], <<st[1], st[2], 0>>, bo)
       ELSE IF b = 27 THEN
          IF left < 3 THEN few
          ELSE LET d == s[p + 1] e == s[p + 2] IN
               IF d = 40 THEN desig(Des1(k, e), 3)
               ELSE IF d = 36 THEN
                    IF e = 40 /\ k # "jp"
                    THEN IF left < 4 THEN few ELSE desig(Des3(k, s[p + 3]), 4)
                    ELSE desig(Des2(k, e), 3)
               ELSE IF d = 46 /\ k = "jp2" THEN
                    IF e = 65 THEN next(3, <<st[1], 49, 0>>)
                    ELSE IF e = 70 THEN next(3, <<st[1], 55, 0>>) ELSE bad
               ELSE IF d = 78 /\ k = "jp2" THEN
                    IF st[2] = 0 \/ e >= 128 THEN bad
                    ELSE LET c == One(st[2], e + 128) IN
                         IF c < 0 THEN bad ELSE Res("chr", n + 3, c, st, bo)
               ELSE bad
       ELSE IF b = 14 /\ k = "jpms" THEN next(1, IF st[1] = ROMAN THEN <<KANA, 0, 0>> ELSE st)
       ELSE IF b = 15 /\ k = "jpms" THEN next(1, IF st[1] = KANA THEN <<ROMAN, 0, 0>> ELSE st)
       ELSE IF st[1] = ASCII THEN
            IF b < 128 THEN Res("chr", n + 1, b, line(b), bo) ELSE bad
       ELSE IF st[1] = ROMAN THEN
            IF b < 128 /\ One(107, b) >= 0 THEN Res("chr", n + 1, One(107, b), line(One(107, b)), bo) ELSE bad
       ELSE IF st[1] = KANA THEN
            IF b < 128 /\ One(107, b + 128) >= 0 THEN Res("chr", n + 1, One(107, b + 128), st, bo) ELSE bad
       ELSE IF left < 2 THEN few
       ELSE IF b >= 128 \/ s[p + 1] >= 128 THEN bad
       ELSE LET c == TwoOf(st[1], b, s[p + 1]) IN
            IF c = <<>> THEN bad
            ELSE Res("chr", n + 2, c[1], <<st[1], st[2], IF Len(c) = 2 THEN c[2] ELSE 0>>, bo)

JPEsc(set) ==
    CASE set = ASCII -> <<27, 40, 66>> [] set = ROMAN -> <<27, 40, 74>> [] set = KANA -> <<27, 40, 73>>
      [] set \in {S0208, S0208MS} -> <<27, 36, 66>> [] set \in {S0212, S0212MS} -> <<27, 36, 40, 68>>
      [] set = SGB -> <<27, 36, 65>> [] set = SKSC -> <<27, 36, 40, 67>>
      [] set = S0213A -> <<27, 36, 40, 81>> [] set = S0213B -> <<27, 36, 40, 80>>

\* the code of c in a set, <<>> if it has none
SetCode(set, c) ==
    CASE set = ASCII -> IF In(c, 0, 127) THEN <<c>> ELSE <<>>
      [] set = ROMAN -> LET v == Cell(107, c) IN IF In(v, 0, 127) THEN <<v>> ELSE <<>>
      [] set = KANA -> LET v == Cell(107, c) IN IF In(v, 128, 255) THEN <<v - 128>> ELSE <<>>
      [] set = S0208 -> Code(108, c) [] set = S0212 -> Code(109, c)
      [] set = SGB -> Code(111, c) [] set = SKSC -> Code(113, c)
      [] set = S0208MS -> Code(1000, c) [] set = S0212MS -> Code(1001, c)
      [] set \in {49, 55} -> LET v == Cell(set, c) IN IF In(v, 128, 255) THEN <<v - 128>> ELSE <<>>

RECURSIVE FirstIn(_, _)
FirstIn(sets, c) == IF sets = <<>> THEN -1
                    ELSE IF SetCode(Head(sets), c) # <<>> THEN Head(sets) ELSE FirstIn(Tail(sets), c)

\* language tags of ISO-2022-JP-2: 0 none, 1 ja, 2 ko, 3 zh, 4 "begin", 5 j, 6 k, 7 z
Pref(k, lang) ==
    CASE k = "jp" -> <<ASCII, ROMAN, S0208>>
      [] k = "jp1" -> <<ASCII, ROMAN, S0208, S0212>>
      [] k = "jpms" -> <<ASCII, KANA, S0208MS, S0212MS>>
      [] lang \in {0, 1} -> <<ASCII, ROMAN, S0208, S0212, 49, 55, SGB, SKSC, KANA>>
      [] lang = 2 -> <<ASCII, SKSC, 49, 55, ROMAN, S0208, S0212, SGB, KANA>>
      [] lang = 3 -> <<ASCII, SGB, 49, 55, ROMAN, S0208, S0212, SKSC, KANA>>
      [] OTHER -> Assert(FALSE, "preference")
TagStep(lang, c) ==
    LET b == c - 917504
        l == IF In(b, 65, 90) THEN b + 32 ELSE b
        idle == IF lang >= 4 THEN 0 ELSE lang
    IN CASE b = 1 -> 4
         [] l = 106 /\ lang = 4 -> 5 [] l = 97 /\ lang = 5 -> 1
         [] l = 107 /\ lang = 4 -> 6 [] l = 111 /\ lang = 6 -> 2
         [] l = 122 /\ lang = 4 -> 7 [] l = 104 /\ lang = 7 -> 3
         [] b = 127 -> 0
         [] OTHER -> idle

\* state <<set, G2 set, language>>
EncJP(k, st, c) ==
    IF k = "jp2" /\ IsTag(c) THEN Ok(<<>>, <<st[1], st[2], TagStep(st[3], c)>>)
    ELSE LET lang == IF st[3] >= 4 THEN 0 ELSE st[3]
             set == FirstIn(Pref(k, lang), c)
         IN IF set < 0 THEN Bad(st)
            ELSE LET code == SetCode(set, c) IN
                 IF set \in {49, 55}
                 THEN Ok((IF st[2] = set THEN <<>> ELSE <<27, 46, IF set = 49 THEN 65 ELSE 70>>)
                            \o <<27, 78>> \o code, <<st[1], set, lang>>)
                 ELSE Ok((IF st[1] = set THEN <<>> ELSE JPEsc(set)) \o code,
                         <<set, IF c \in {10, 13} THEN 0 ELSE st[2], lang>>)

\* ISO-2022-JP-3: state <<set, held back character (0 none), set before it was taken>>
Code213(c) ==  \* <<set, b1, b2>> of a JIS X 0213 character, <<>> if none; held back ones included
    LET v == Cell(191, c)
        b == IF v = -3 THEN HeldCode(191, c) ELSE Unpack(v)
    IN IF v = -1 \/ v = -4 \/ Len(b) < 2 \/ b[1] = 142 THEN <<>>
       ELSE IF Len(b) = 2 THEN <<S0213A, b[1] - 128, b[2] - 128>> ELSE <<S0213B, b[2] - 128, b[3] - 128>>
EncJP3(st, c) ==
    IF st[2] # 0 /\ <<st[2], c>> \in DOMAIN Pairs[191]
    THEN LET q == Pairs[191][<<st[2], c>>] IN
         Ok((IF st[1] = S0213A THEN <<>> ELSE JPEsc(S0213A)) \o <<q[1] - 128, q[2] - 128>>, <<S0213A, 0, 0>>)
    ELSE LET held == Code213(st[2])
             pre == IF st[2] = 0 THEN <<>>
                    ELSE (IF st[3] # st[1] THEN JPEsc(S0208) ELSE <<>>) \o <<held[2], held[3]>>
             j == Code213(c)
             hold == Cell(191, c) = -3
             to(set, code) == Ok(pre \o (IF st[1] = set THEN <<>> ELSE JPEsc(set)) \o code, <<set, 0, 0>>)
         IN IF SetCode(ASCII, c) # <<>> THEN to(ASCII, SetCode(ASCII, c))
            ELSE IF SetCode(ROMAN, c) # <<>> THEN to(ROMAN, SetCode(ROMAN, c))
            ELSE IF SetCode(S0208, c) # <<>> THEN
                 IF hold THEN Ok(pre, <<S0208, c, st[1]>>) ELSE to(S0208, SetCode(S0208, c))
            ELSE IF j # <<>> THEN
                 IF hold THEN Ok(pre \o (IF st[1] = j[1] THEN <<>> ELSE JPEsc(j[1])), <<j[1], c, j[1]>>)
                 ELSE to(j[1], <<j[2], j[3]>>)
            ELSE IF SetCode(KANA, c) # <<>> THEN to(KANA, SetCode(KANA, c))
            ELSE Bad(st)
ResetJP3(st) ==
    LET held == Code213(st[2]) IN
    (IF st[2] = 0 THEN <<>> ELSE (IF st[3] # st[1] THEN JPEsc(S0208) ELSE <<>>) \o <<held[2], held[3]>>)
      \o (IF st[1] = ASCII THEN <<>> ELSE JPEsc(ASCII))

(* ISO-2022-CN, -CN-EXT and -KR.  State <<shift, SO designation, SS2 designation, SS3 plane>> *)
\* designations to SO: 1 GB 2312, 2 CNS plane 1, 3 ISO-IR-165, 4 KS C 5601
SOTable(d) == CASE d = 1 -> 111 [] d = 3 -> 112 [] d = 4 -> 113 [] OTHER -> 0
CNS(plane, b1, b2) == LET w == Walk(36, <<142, 160 + plane, b1 + 128, b2 + 128>>, 1) IN
                      IF w[1] = "chr" THEN w[3] ELSE -1
RECURSIVE DecCN(_, _, _, _, _, _)
DecCN(k, st, bo, s, p, n) ==
    LET left == Len(s) - p + 1
        few == Res("few", n, 0, st, bo)
        bad == Res("ilseq", n, 0, st, bo)
        b == s[p]
        next(m, t) == IF left = m THEN Res("few", n + m, 0, t, bo) ELSE DecCN(k, t, bo, s, p + m, n + m)
        char(m, c) == IF c < 0 THEN bad ELSE Res("chr", n + m, c, st, bo)
    IN IF b = 27 THEN
          IF left < 4 THEN few
          ELSE LET d == s[p + 1] e == s[p + 2] f == s[p + 3] IN
               IF k = "kr" THEN
                    IF d = 36 /\ e = 41 /\ f = 67 THEN next(4, <<st[1], 4, 0, 0>>) ELSE bad
               ELSE IF d = 36 /\ e = 41 /\ f = 65 THEN next(4, <<st[1], 1, st[3], st[4]>>)
               ELSE IF d = 36 /\ e = 41 /\ f = 71 THEN next(4, <<st[1], 2, st[3], st[4]>>)
               ELSE IF d = 36 /\ e = 41 /\ f = 69 /\ k = "cnext" THEN next(4, <<st[1], 3, st[3], st[4]>>)
               ELSE IF d = 36 /\ e = 42 /\ f = 72 THEN next(4, <<st[1], st[2], 1, st[4]>>)
               ELSE IF d = 36 /\ e = 43 /\ In(f, 73, 77) /\ k = "cnext"
                    THEN next(4, <<st[1], st[2], st[3], f - 70>>)
               ELSE IF d = 78 THEN IF st[3] = 0 \/ e >= 128 \/ f >= 128 THEN bad ELSE char(4, CNS(2, e, f))
               ELSE IF d = 79 /\ k = "cnext"
                    THEN IF st[4] = 0 \/ e >= 128 \/ f >= 128 THEN bad ELSE char(4, CNS(st[4], e, f))
               ELSE bad
       ELSE IF b = 14 THEN IF st[2] = 0 THEN bad ELSE next(1, <<1, st[2], st[3], st[4]>>)
       ELSE IF b = 15 THEN next(1, <<0, st[2], st[3], st[4]>>)
       ELSE IF st[1] = 0 THEN
            IF b >= 128 THEN bad
            ELSE Res("chr", n + 1, b, IF b \in {10, 13} /\ k # "kr" THEN <<0, 0, 0, 0>> ELSE st, bo)
       ELSE IF left < 2 THEN few
       ELSE IF b >= 128 \/ s[p + 1] >= 128 \/ st[2] = 0 THEN bad
       ELSE char(2, IF st[2] = 2 THEN CNS(1, b, s[p + 1]) ELSE Two(SOTable(st[2]), b, s[p + 1]))
EncCN(k, st, c) ==
    LET so(d, final, code) ==
            Ok((IF st[2] = d THEN <<>> ELSE <<27, 36, 41, final>>) \o (IF st[1] = 1 THEN <<>> ELSE <<14>>) \o code,
               <<1, d, st[3], st[4]>>)
        v == IF k = "kr" THEN <<>> ELSE Code(36, c)
        plane == IF Len(v) = 2 THEN 1 ELSE IF Len(v) = 4 THEN v[2] - 160 ELSE 0
        cns == IF plane = 1 THEN <<v[1] - 128, v[2] - 128>> ELSE <<v[3] - 128, v[4] - 128>>
    IN IF In(c, 0, 127)
       THEN Ok((IF st[1] = 0 THEN <<>> ELSE <<15>>) \o <<c>>,
               IF c \in {10, 13} THEN <<0, 0, 0, 0>> ELSE <<0, st[2], st[3], st[4]>>)
       ELSE IF k = "kr" THEN IF Code(113, c) = <<>> THEN Bad(st) ELSE so(4, 67, Code(113, c))
       ELSE IF Code(111, c) # <<>> THEN so(1, 65, Code(111, c))
       ELSE IF plane = 1 THEN so(2, 71, cns)
       ELSE IF plane = 2 THEN Ok((IF st[3] = 1 THEN <<>> ELSE <<27, 36, 42, 72>>) \o <<27, 78>> \o cns,
                                 <<st[1], st[2], 1, st[4]>>)
       ELSE IF In(plane, 3, 7) /\ k = "cnext"
            THEN Ok((IF st[4] = plane THEN <<>> ELSE <<27, 36, 43, 70 + plane>>) \o <<27, 79>> \o cns,
                    <<st[1], st[2], st[3], plane>>)
       ELSE IF k = "cnext" /\ Code(112, c) # <<>> THEN so(3, 69, Code(112, c))
       ELSE Bad(st)

(* HZ.  State <<0>> ASCII, <<1>> GB *)
RECURSIVE DecHZ(_, _, _, _, _)
DecHZ(st, bo, s, p, n) ==
    LET left == Len(s) - p + 1
        few == Res("few", n, 0, st, bo)
        bad == Res("ilseq", n, 0, st, bo)
        b == s[p]
        next(t) == IF left = 2 THEN Res("few", n + 2, 0, t, bo) ELSE DecHZ(t, bo, s, p + 2, n + 2)
    IN IF b = 126 THEN
          IF left < 2 THEN few
          ELSE IF st[1] = 0 THEN
               CASE s[p + 1] = 126 -> Res("chr", n + 2, 126, st, bo)
                 [] s[p + 1] = 123 -> next(<<1>>)
                 [] s[p + 1] = 10 -> next(st)
                 [] OTHER -> bad
          ELSE IF s[p + 1] = 125 THEN next(<<0>>) ELSE bad
       ELSE IF st[1] = 0 THEN IF b < 128 THEN Res("chr", n + 1, b, st, bo) ELSE bad
       ELSE IF left < 2 THEN few
       ELSE LET c == Two(111, b, s[p + 1]) IN IF c < 0 THEN bad ELSE Res("chr", n + 2, c, st, bo)
EncHZ(st, c) ==
    IF In(c, 0, 127)
    THEN Ok((IF st[1] = 1 THEN <<126, 125>> ELSE <<>>) \o (IF c = 126 THEN <<126, 126>> ELSE <<c>>), <<0>>)
    ELSE IF Code(111, c) = <<>> THEN Bad(st)
    ELSE Ok((IF st[1] = 0 THEN <<126, 123>> ELSE <<>>) \o Code(111, c), <<1>>)

----------------------------------------------------------------------------
(* dispatch *)

InitSt(e) ==
    LET k == KindOf[e] IN
    IF k \in JPKinds THEN <<0, 0, 0>>
    ELSE IF k \in {"cn", "cnext", "kr"} THEN <<0, 0, 0, 0>>
    ELSE IF k = "hz" THEN <<0>> ELSE <<>>

Dec(e, st, bo, s, p) ==
    LET k == KindOf[e] IN
    CASE k = "table" -> DecTable(e, st, bo, s, p)
      [] k = "utf8" -> DecUTF8(st, bo, s, p)
      [] k = "utf16be" -> DecWide("utf16", st, bo, s, p, FALSE, 0)
      [] k = "utf16le" -> DecWide("utf16", st, bo, s, p, TRUE, 0)
      [] k = "utf32be" -> DecWide("utf32", st, bo, s, p, FALSE, 0)
      [] k = "utf32le" -> DecWide("utf32", st, bo, s, p, TRUE, 0)
      [] k = "ucs2be" -> DecWide("ucs2", st, bo, s, p, FALSE, 0)
      [] k = "ucs2le" -> DecWide("ucs2", st, bo, s, p, TRUE, 0)
      [] k = "ucs4be" -> DecWide("ucs4", st, bo, s, p, FALSE, 0)
      [] k = "ucs4le" -> DecWide("ucs4", st, bo, s, p, TRUE, 0)
      [] k = "utf16" -> DecMarked("utf16", st, bo, s, p, 0)
      [] k = "utf32" -> DecMarked("utf32", st, bo, s, p, 0)
      [] k = "ucs2" -> DecMarked("ucs2", st, bo, s, p, 0)
      [] k = "ucs4" -> DecMarked("ucs4+", st, bo, s, p, 0)
      [] k = "utf7" -> DecU7(st, bo, s, p, 0)
      [] k = "c99" -> DecC99(st, bo, s, p)
      [] k = "java" -> DecJava(st, bo, s, p)
      [] k = "gb18030" -> DecGB(e, st, bo, s, p)
      [] k = "compose" -> DecCompose(e, st, bo, s, p)
      [] k = "pend" -> DecPend(e, st, bo, s, p)
      [] k \in JPKinds -> DecJP(k, st, bo, s, p, 0)
      [] k \in {"cn", "cnext", "kr"} -> DecCN(k, st, bo, s, p, 0)
      [] k = "hz" -> DecHZ(st, bo, s, p, 0)

Enc(e, st, c) ==
    LET k == KindOf[e] IN
    CASE k \in {"table", "compose"} -> EncTable(e, st, c)
      [] k = "utf8" -> EncUTF8(st, c)
      [] k = "utf16be" -> EncWide("utf16", st, c, FALSE)
      [] k = "utf16le" -> EncWide("utf16", st, c, TRUE)
      [] k = "utf32be" -> EncWide("utf32", st, c, FALSE)
      [] k = "utf32le" -> EncWide("utf32", st, c, TRUE)
      [] k = "ucs2be" -> EncWide("ucs2", st, c, FALSE)
      [] k = "ucs2le" -> EncWide("ucs2", st, c, TRUE)
      [] k = "ucs4be" -> EncWide("ucs4", st, c, FALSE)
      [] k = "ucs4le" -> EncWide("ucs4", st, c, TRUE)
      [] k = "utf16" -> EncMarked("utf16", st, c)
      [] k = "utf32" -> EncMarked("utf32", st, c)
      [] k = "ucs2" -> IF c = 65534 THEN Bad(st) ELSE EncWide("ucs2", st, c, FALSE)
      [] k = "ucs4" -> EncWide("ucs4+", st, c, FALSE)
      [] k = "utf7" -> EncU7(st, c)
      [] k = "c99" -> EncC99(st, c)
      [] k = "java" -> EncJava(st, c)
      [] k = "gb18030" -> EncGB(e, st, c)
      [] k = "pend" -> EncPend(e, st, c)
      [] k = "jp3" -> EncJP3(st, c)
      [] k \in JPKinds -> EncJP(k, st, c)
      [] k \in {"cn", "cnext", "kr"} -> EncCN(k, st, c)
      [] k = "hz" -> EncHZ(st, c)

DecFlush(e, st) ==
    LET k == KindOf[e] IN
    IF k \in {"compose", "pend"} THEN st
    ELSE IF k = "jp3" /\ st[3] # 0 THEN <<st[3]>> ELSE <<>>

DecFlushed(e, st) ==     \* the decoder state once that character has been taken
    LET k == KindOf[e] IN
    IF k \in {"compose", "pend"} THEN <<>>
    ELSE IF k = "jp3" THEN <<st[1], st[2], 0>> ELSE st

EncReset(e, st) ==
    LET k == KindOf[e] IN
    CASE k = "utf7" -> IF st = <<>> THEN <<>> ELSE U7Tail(st) \o <<45>>
      [] k = "pend" -> IF st = <<>> THEN <<>> ELSE HeldCode(e, st[1])
      [] k = "jp3" -> ResetJP3(st)
      [] k \in JPKinds -> IF st[1] = ASCII THEN <<>> ELSE JPEsc(ASCII)
      [] k \in {"cn", "cnext", "kr"} -> IF st[1] = 0 THEN <<>> ELSE <<15>>
      [] k = "hz" -> IF st[1] = 0 THEN <<>> ELSE <<126, 125>>
      [] OTHER -> <<>>
=============================================================================
