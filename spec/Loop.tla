-------------------------------- MODULE Loop --------------------------------
(* The conversion handle and its two operations, character by character.                       *)
(*                                                                                             *)
(* A handle H is [from, to, disc, ist, ost, bo]: the two encodings, the discard flag, decoder  *)
(* and encoder state, and the byte order the source has announced.                             *)
(*                                                                                             *)
(* Step(H, s, p, room) is one step of reiconv_iconv on the input s from position p with room   *)
(* bytes of output left.  Result r:                                                            *)
(*   r.k = "go"    n bytes of s consumed, b written, cnt added to the result, handle now r.H   *)
(*   r.k = "done"  the input is exhausted                                                      *)
(*   r.k = "err"   the call ends with errno r.e after consuming n bytes                        *)
EXTENDS Codec

EILSEQ == 1
EINVAL == 2
E2BIG == 3

NewHandle(from, to, disc) ==
    [from |-> from, to |-> to, disc |-> disc, ist |-> InitSt(from), ost |-> InitSt(to), bo |-> 0]

Go(H, n, b, cnt) == [k |-> "go", n |-> n, b |-> b, cnt |-> cnt, e |-> 0, H |-> H]
Err(H, n, e) == [k |-> "err", n |-> n, b |-> <<>>, cnt |-> 0, e |-> e, H |-> H]
Done(H) == [k |-> "done", n |-> 0, b |-> <<>>, cnt |-> 0, e |-> 0, H |-> H]

\* what becomes of one character: <<"ok", bytes, encoder state, count>>, or <<"no">>
Put(H, c) ==
    LET r == Enc(H.to, H.ost, c) IN
    IF r.ok THEN <<"ok", r.b, r.st, 0>>
    ELSE IF IsTag(c) THEN <<"ok", <<>>, H.ost, 0>>
    ELSE IF H.disc THEN <<"ok", <<>>, H.ost, 1>>
    ELSE LET q == Enc(H.to, H.ost, 65533) IN
         IF q.ok THEN <<"ok", q.b, q.st, 1>> ELSE <<"no">>

Step(H, s, p, room) ==
    IF p > Len(s) THEN Done(H)
    ELSE LET d == Dec(H.from, H.ist, H.bo, s, p)
             H1 == [H EXCEPT !.ist = d.st, !.bo = d.bo]
         IN CASE d.k = "ilseq" -> IF H.disc THEN Go(H1, d.n + UnitOf[H.from], <<>>, 0)
                                  ELSE Err(H1, d.n, EILSEQ)
              [] d.k = "few" -> IF d.n = 0 THEN Err(H1, 0, EINVAL) ELSE Go(H1, d.n, <<>>, 0)
              [] OTHER ->
                   LET w == Put(H, d.c) IN
                   IF w[1] = "no" THEN Err([H EXCEPT !.bo = d.bo], 0, EILSEQ)
                   ELSE IF Len(w[2]) > room THEN Err([H EXCEPT !.bo = d.bo], 0, E2BIG)
                   ELSE Go([H1 EXCEPT !.ost = w[3]], d.n, w[2], w[4])

ZeroStates(H) == [H EXCEPT !.ist = InitSt(H.from), !.ost = InitSt(H.to)]

\* the reset operation with room bytes of output: [ok, e, b (written even on failure), cnt, H]
Rst(H, room) ==
    LET f == DecFlush(H.from, H.ist)
        w == IF f = <<>> THEN <<"ok", <<>>, H.ost, 0>> ELSE Put(H, f[1])
        H1 == [H EXCEPT !.ist = DecFlushed(H.from, H.ist), !.ost = w[3]]
        t == EncReset(H.to, w[3])
        fail(e, b, G) == [ok |-> FALSE, e |-> e, b |-> b, cnt |-> 0, H |-> G]
    IN IF w[1] = "no" THEN fail(EILSEQ, <<>>, H)
       ELSE IF Len(w[2]) > room THEN fail(E2BIG, <<>>, H)
       ELSE IF Len(w[2]) + Len(t) > room THEN fail(E2BIG, w[2], H1)
       ELSE [ok |-> TRUE, e |-> 0, b |-> w[2] \o t, cnt |-> w[4], H |-> ZeroStates(H)]

----------------------------------------------------------------------------
(* a whole call, for the models and for one-step predictions *)
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(H, s, p, room, out, cnt) ==
    LET r == Step(H, s, p, room - Len(out)) IN
    CASE r.k = "go" -> RunFrom(r.H, s, p + r.n, room, out \o r.b, cnt + r.cnt)
      [] r.k = "done" -> [ret |-> cnt, e |-> 0, used |-> p - 1, out |-> out, H |-> r.H]
      [] r.k = "err" -> [ret |-> -1, e |-> r.e, used |-> p - 1 + r.n, out |-> out, H |-> r.H]
Run(H, s, room) == RunFrom(H, s, 1, room, <<>>, 0)
=============================================================================
