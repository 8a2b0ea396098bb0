------------------------------- MODULE Relate -------------------------------
(* Relations between runs of the library itself, independent of what the right bytes are.      *)
(* A case records reference handles 0..9 and variant handles r+10, r+20, ... of reference r;   *)
(* when a variant is closed its history is compared with that of its reference:                *)
(*   mode "total"  same total output, same consumed input, same final error, and the same      *)
(*                 counts where no call failed, however the calls were cut (chunks, windows)   *)
(*   mode "exact"  the same calls gave the same results, call by call                          *)
(* One-shot calls on a variant are compared with what the reference streamed.                  *)
EXTENDS Loop, Names

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Hdr == Trace[1]
TEncs == LET hdr == Trace[1].encs IN {hdr[k] : k \in 1..Len(hdr)}
Mode == Hdr.mode
Starts == LET T == Trace IN {k \in 2..Len(T) : T[k].op \in {"case", "par"}}

VARIABLES i, hs,
          names,      \* what the library itself answered for names and code pages in this case
          wins,       \* <<reference, window, bytes written>> of first calls
          v
vars == <<i, hs, names, wins, v>>
Ev == Trace[i]
\* accepted behaviours are counted, so that the runner can tell that none was left out
ASSUME TLCSet(1, 0)
Accept == v' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
Report == PrintT("ACCEPTED " \o ToString(TLCGet(1)))


Init == i \in Starts /\ hs = <<>> /\ names = <<>> /\ wins = {} /\ v = "run"

CaseId(k) == Trace[CHOOSE j \in 2..k : Trace[j].op = "case" /\ \A l \in (j + 1)..k : Trace[l].op # "case"].id
Reject(why, want) ==
    /\ PrintT("REJECT " \o ToJson([case |-> IF Ev.op = "par" THEN Ev.id ELSE CaseId(i), at |-> i, why |-> why, want |-> want]))
    /\ v' = "bad" /\ UNCHANGED <<i, hs, names, wins>>
Ok2(newhs) == i' = i + 1 /\ hs' = newhs /\ UNCHANGED <<names, wins, v>>
Judge(cond, newhs, why, want) == IF cond THEN Ok2(newhs) ELSE Reject(why, want)

New(f, t, d) == [from |-> f, to |-> t, disc |-> d, out |-> <<>>, used |-> 0, sum |-> 0, failed |-> FALSE,
                 last |-> 0, rerr |-> 0, rsum |-> 0, rfailed |-> FALSE, calls |-> 0, text |-> <<>>, log |-> <<>>, learned |-> FALSE]
Set(h, H) == (h :> H) @@ hs
RefOf(h) == h % 10

----------------------------------------------------------------------------
Conv ==
    LET H == hs[Ev.h]
        G == [H EXCEPT !.out = @ \o Ev.out, !.used = @ + Ev.used,
                       !.sum = IF Ev.ret >= 0 THEN @ + Ev.ret ELSE @,
                       !.failed = @ \/ Ev.ret < 0, !.last = Ev.err, !.calls = @ + 1,
                       !.text = IF Ev.h < 10 THEN @ \o Ev.in ELSE @,
                       !.log = IF Mode = "exact"
                               THEN Append(@, <<"conv", Ev.in, Ev.cap, Ev.ret, Ev.err, Ev.used, Ev.left, Ev.wrote, Ev.oleft, Ev.out>>)
                               ELSE @]
        sane == /\ Ev.wrote = Len(Ev.out) /\ Ev.oleft = Ev.cap - Ev.wrote
                /\ Ev.used >= 0 /\ Ev.left = Len(Ev.in) - Ev.used
                /\ (Ev.ret >= 0 /\ Ev.err = 0 /\ Ev.left = 0) \/ (Ev.ret = -1 /\ Ev.err \in {EILSEQ, EINVAL, E2BIG})
    IN IF ~sane THEN Reject("accounting", <<>>)
       ELSE /\ i' = i + 1 /\ hs' = Set(Ev.h, G) /\ UNCHANGED <<names, v>>
            /\ wins' = IF Hdr.windows = 1 /\ H.calls = 0 /\ Ev.h >= 10
                       THEN wins \cup {<<RefOf(Ev.h), Ev.cap, Ev.wrote>>} ELSE wins
Reset ==
    LET H == hs[Ev.h]
        G == [H EXCEPT !.out = @ \o Ev.out, !.rerr = Ev.err, !.rfailed = @ \/ Ev.ret < 0, !.rsum = IF Ev.ret >= 0 THEN @ + Ev.ret ELSE @,
                       !.log = IF Mode = "exact" THEN Append(@, <<"reset", Ev.cap, Ev.ret, Ev.err, Ev.wrote, Ev.oleft, Ev.out>>)
                               ELSE @]
    IN Judge(Ev.cap < 0 \/ (Ev.wrote = Len(Ev.out) /\ Ev.oleft = Ev.cap - Ev.wrote), Set(Ev.h, G), "accounting", <<>>)

\* An error may be reported in front of a shift or byte order sequence that directly precedes the
\* offending character, or behind it when that sequence was taken in by an earlier call.
Huge == 100000000
Pivot == 6
Marked == {"utf16", "utf32", "ucs2", "ucs4"}
Switching == Marked \cup {"utf7", "hz", "kr", "jp", "jp1", "jp2", "jpms", "jp3", "cn", "cnext"}
Silent(R, a, b) ==
    /\ KindOf[R.from] \in Switching
    /\ LET A == Run(NewHandle(R.from, Pivot, FALSE), SubSeq(R.text, 1, a), Huge)
           B(k) == Run(A.H, SubSeq(R.text, a + 1, k), Huge)
       IN A.ret = 0 /\ \E k \in b..(IF b + 2 < Len(R.text) THEN b + 2 ELSE Len(R.text)) :
                         B(k).used = b - a /\ B(k).out = <<>>
SamePlace(H, R) == \/ H.used = R.used
                   \/ R.last = EILSEQ /\ H.used > R.used /\ Silent(R, R.used, H.used)
Same(H, R) ==
    IF Mode = "exact" THEN H.log = R.log
    ELSE /\ H.out = R.out /\ H.last = R.last /\ H.rerr = R.rerr /\ SamePlace(H, R)
         /\ (~H.failed /\ ~R.failed) => H.sum = R.sum
         /\ (~H.rfailed /\ ~R.rfailed) => H.rsum = R.rsum
Close ==
    LET H == hs[Ev.h]
        R == hs[RefOf(Ev.h)]
        rest == [k \in DOMAIN hs \ {Ev.h} |-> hs[k]]
    IN IF Ev.ret # 0 THEN Reject("close", <<>>)
       ELSE IF Ev.h < 10 \/ (H.calls = 0 /\ Mode = "total") \/ H.learned THEN Ok2(IF Ev.h < 10 THEN hs ELSE rest)
       ELSE Judge(Same(H, R), rest, "differs from the reference",
                  IF Mode = "exact" THEN R.log ELSE <<R.out, R.used, R.last, R.rerr, R.sum, R.rsum>>)

\* a window holds as much as any other window shows to be possible
Maximal == \A a, b \in wins : a[1] = b[1] /\ b[2] >= a[3] => b[3] >= a[3]

----------------------------------------------------------------------------
(* one-shot functions against the streamed reference *)
Streamed(R) == R.last = 0 /\ R.rerr = 0
FailCode(R) == IF R.last # 0 THEN (IF R.last = EINVAL THEN EILSEQ ELSE R.last) ELSE R.rerr
Learn(h) == IF KindOf[hs[h].from] \in Marked THEN [hs EXCEPT ![h].learned = TRUE] ELSE hs
Size ==
    LET R == hs[RefOf(Ev.h)] IN
    Judge(hs[Ev.h].learned \/ IF Streamed(R) THEN Ev.ret = Len(R.out) ELSE Ev.ret = -1 /\ Ev.err = FailCode(R),
          hs, "size", <<Len(R.out), R.last, R.rerr>>)
Static ==
    LET R == hs[RefOf(Ev.h)]
        n == Len(R.out)
    IN Judge(hs[Ev.h].learned \/
             IF ~Streamed(R) THEN Ev.ret = -1 /\ Ev.err \in {FailCode(R)} \cup (IF Ev.cap < n THEN {E2BIG} ELSE {})
             ELSE IF Ev.cap < n THEN Ev.ret = -1 /\ Ev.err = E2BIG
             ELSE /\ Ev.ret = 0 /\ SubSeq(Ev.buf, 1, n) = R.out
                  /\ \A k \in (n + 1)..Ev.cap : Ev.buf[k] = 170,
             Learn(Ev.h), "static size", <<R.out, R.last, R.rerr>>)
Convert ==
    LET R == hs[RefOf(Ev.h)] IN
    Judge(hs[Ev.h].learned \/
          IF ~Streamed(R) THEN Ev.ret = -1 /\ Ev.err = FailCode(R)
          ELSE IF Ev.mode = 3 THEN Ev.ret = -1 /\ Ev.err = EINVAL
          ELSE Ev.ret = 0 /\ (Ev.mode < 2 => Ev.len = Len(R.out) /\ Ev.out = R.out),
          Learn(Ev.h), "convert", <<R.out, R.last, R.rerr>>)
Cpp ==
    LET R == hs[0] IN
    Judge(IF Streamed(R) THEN Ev.kind = 0 /\ Ev.out = R.out ELSE Ev.kind = 1 /\ Ev.err = FailCode(R),
          hs, "C++ convert", <<R.out, R.last, R.rerr>>)

----------------------------------------------------------------------------
(* ways of opening: what the library answers to a lookup decides which handle must result *)
Known(k) == IF k \in DOMAIN names THEN names[k] ELSE -1
OpenX ==
    LET key(n) == IF Ev.kind = "iconv" THEN <<"n", Canon(Base(n))>> ELSE <<"n", Canon(n)>>
        f == IF Ev.kind = "codepage" THEN Known(<<"c", Ev.fcp>>) ELSE Known(key(Ev.fname))
        t == IF Ev.kind = "codepage" THEN Known(<<"c", Ev.tcp>>) ELSE Known(key(Ev.tname))
        disc == IF Ev.kind = "iconv" THEN IconvDisc(Ev.fname, Ev.tname) ELSE Ev.fl = 1
    IN IF f < 0 \/ t < 0 THEN Judge(Ev.ok = 0 /\ Ev.err = EINVAL, hs, "open must fail", <<f, t>>)
       ELSE Judge(/\ Ev.ok = 1
                  /\ Ev.h >= 10 => LET R == hs[RefOf(Ev.h)] IN R.from = f /\ R.to = t /\ R.disc = disc,
                  Set(Ev.h, New(f, t, disc)), "open must succeed", <<f, t, disc>>)
Look == /\ i' = i + 1 /\ names' = (<<"n", Canon(Ev.name)>> :> Ev.ret) @@ names /\ UNCHANGED <<hs, wins, v>>
LookCp == /\ i' = i + 1 /\ names' = (<<"c", Ev.cp>> :> Ev.ret) @@ names /\ UNCHANGED <<hs, wins, v>>

----------------------------------------------------------------------------
(* round trip: the text comes back unless the published tables themselves do not bring it back *)
Back(pv, e, s) ==
    LET a == Run(NewHandle(pv, e, FALSE), s, Huge)
        b == Rst(a.H, Huge)
        c == Run(NewHandle(e, pv, FALSE), a.out \o b.b, Huge)
        d == Rst(c.H, Huge)
    IN IF a.ret # 0 \/ ~b.ok \/ b.cnt # 0 \/ c.ret # 0 \/ ~d.ok THEN <<>> ELSE c.out \o d.b
RoundTrip ==
    Judge(\/ Ev.ret # 0 \/ Ev.err # 0
          \/ Ev.bret = 0 /\ Ev.berr = 0 /\ Ev.back = Ev.in
          \/ Back(Ev.pv, Ev.e, Ev.in) # Ev.in, hs, "round trip", <<Ev.in, Ev.mid, Ev.back>>)

----------------------------------------------------------------------------
(* threads: every concurrent run of a case equals the sequential one *)
Par == IF \A k \in 1..Len(Ev.thr) : Ev.thr[k] = Ev.seq
       THEN Accept /\ UNCHANGED <<i, hs, names, wins>>
       ELSE Reject("concurrent run differs", <<>>)

Finish == IF Maximal THEN Accept /\ UNCHANGED <<i, hs, names, wins>>
          ELSE Reject("a larger window took less", wins)
Next ==
    /\ v = "run"
    /\ IF i > Len(Trace) THEN Finish
       ELSE CASE Ev.op = "par" -> Par
              [] Ev.op = "case" /\ hs = <<>> -> Ok2([h \in {-1} |-> 0])
              [] Ev.op = "case" -> Finish
              [] Ev.op = "open" -> Judge(Ev.ok = 1, Set(Ev.h, New(Ev.from, Ev.to, Ev.fl = 1)), "open", <<>>)
              [] Ev.op = "openx" -> OpenX
              [] Ev.op = "lookup" -> Look
              [] Ev.op = "cplookup" -> LookCp
              [] Ev.op = "conv" -> Conv
              [] Ev.op = "reset" -> Reset
              [] Ev.op = "close" -> Close
              [] Ev.op = "size" -> Size
              [] Ev.op = "static" -> Static
              [] Ev.op = "convert" -> Convert
              [] Ev.op = "cpp" -> Cpp
              [] Ev.op = "rt" -> RoundTrip
              [] OTHER -> Reject("crash", <<>>)
Spec == Init /\ [][Next]_vars
TypeOK == v \in {"run", "ok", "bad"} /\ \A h \in DOMAIN hs : h = -1 \/ hs[h].used >= 0
=============================================================================
