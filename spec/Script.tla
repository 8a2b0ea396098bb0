------------------------------- MODULE Script -------------------------------
(* Trace validation: every event the driver recorded while executing API scripts against the   *)
(* library must be a step of the specification.  One behaviour per case; a conversion call is  *)
(* matched character by character, so an accepted trace fixes every byte written, every byte   *)
(* consumed, every return value and every error code.                                          *)
EXTENDS Loop, Names

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TEncs == LET hdr == Trace[1].encs IN {hdr[k] : k \in 1..Len(hdr)}
Starts == LET T == Trace IN {k \in 2..Len(T) : T[k].op = "case"}

VARIABLES i,        \* next event
          hs,       \* open handles
          p, w, cnt,\* call in progress: input position, bytes written, result so far
          v         \* "run", "ok", "bad"
vars == <<i, hs, p, w, cnt, v>>

Init == /\ i \in Starts
        /\ hs = <<>> /\ p = 1 /\ w = 0 /\ cnt = 0 /\ v = "run"

Ev == Trace[i]
\* accepted behaviours are counted, so that the runner can tell that none was left out
ASSUME TLCSet(1, 0)
Accept == v' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
Report == PrintT("ACCEPTED " \o ToString(TLCGet(1)))

AtEnd == i > Len(Trace)
CaseId(k) == Trace[CHOOSE j \in 2..k : Trace[j].op = "case" /\ \A l \in (j + 1)..k : Trace[l].op # "case"].id

Reject(why, want) ==
    /\ PrintT("REJECT " \o ToJson([case |-> CaseId(i), at |-> i, why |-> why, p |-> p, w |-> w, want |-> want]))
    /\ v' = "bad" /\ UNCHANGED <<i, hs, p, w, cnt>>

Advance(newhs) == /\ i' = i + 1 /\ hs' = newhs
                  /\ p' = 1 /\ w' = 0 /\ cnt' = 0 /\ UNCHANGED v

\* accept the event if cond, else report what the specification expected
Judge(cond, newhs, why, want) == IF cond THEN Advance(newhs) ELSE Reject(why, want)

Set(h, H) == (h :> H) @@ hs

----------------------------------------------------------------------------
(* memory: recorded by the driver variant that accounts for the library's blocks and makes a chosen  *)
(* allocation of an operation fail (Ev.hit = 1: it came to that)                                      *)
ENOMEM == 4
Has(f) == f \in DOMAIN Ev
Hit == Has("hit") /\ Ev.hit = 1
NoMem(failed) == Hit /\ failed /\ Ev.err = ENOMEM
PrevLive == IF "live" \in DOMAIN Trace[i - 1] THEN Trace[i - 1].live ELSE 0
MemOK == ~Has("live") \/
         CASE Ev.op \in {"open", "openx"} -> Ev.ok = 0 => Ev.live = PrevLive       \* nothing is left of a failed opening
           [] Ev.op = "close" -> DOMAIN hs = {-1, Ev.h} => Ev.live = 0              \* nor of anything once all is closed
           [] Ev.op \in {"cpp", "lookup", "cplookup"} -> Ev.live = PrevLive
           [] OTHER -> TRUE

----------------------------------------------------------------------------
Fits(b) == w + Len(b) <= Len(Ev.out) /\ \A k \in 1..Len(b) : Ev.out[w + k] = b[k]

Conv ==
    LET H == hs[Ev.h]
        r == Step(H, Ev.in, p, Ev.cap - w)
        used == p - 1 + r.n
        sane == /\ Ev.used = used /\ Ev.left = Len(Ev.in) - used
                /\ Ev.wrote = w /\ Len(Ev.out) = w /\ Ev.oleft = Ev.cap - w
    IN CASE r.k = "go" ->
              IF Fits(r.b)
              THEN /\ hs' = Set(Ev.h, r.H) /\ p' = p + r.n /\ w' = w + Len(r.b) /\ cnt' = cnt + r.cnt
                   /\ UNCHANGED <<i, v>>
              ELSE Reject("output", r.b)
         [] r.k = "done" -> Judge(sane /\ Ev.ret = cnt /\ Ev.err = 0, hs, "result", <<cnt, 0, used, w>>)
         [] r.k = "err" -> Judge(sane /\ Ev.ret = -1 /\ Ev.err = r.e, Set(Ev.h, r.H), "error", <<-1, r.e, used, w>>)

Reset ==
    IF Ev.cap < 0
    THEN Judge(Ev.ret = 0, Set(Ev.h, ZeroStates(hs[Ev.h])), "reset", <<0>>)
    ELSE LET r == Rst(hs[Ev.h], Ev.cap) IN
         Judge(/\ Ev.out = r.b /\ Ev.wrote = Len(r.b) /\ Ev.oleft = Ev.cap - Len(r.b)
               /\ Ev.ret = (IF r.ok THEN r.cnt ELSE -1) /\ Ev.err = r.e,
               Set(Ev.h, r.H), "reset", <<IF r.ok THEN r.cnt ELSE -1, r.e, r.b>>)

----------------------------------------------------------------------------
(* one-shot functions *)
Huge == 100000000
Whole(H, s, room) ==
    LET r == Run(H, s, room) IN
    IF r.e # 0 THEN [ok |-> FALSE, e |-> IF r.e = EINVAL THEN EILSEQ ELSE r.e, out |-> <<>>, H |-> ZeroStates(r.H)]
    ELSE LET z == Rst(r.H, room - Len(r.out)) IN
         IF z.ok THEN [ok |-> TRUE, e |-> 0, out |-> r.out \o z.b, H |-> z.H]
         ELSE [ok |-> FALSE, e |-> z.e, out |-> <<>>, H |-> ZeroStates(r.H)]

Size ==
    LET H == hs[Ev.h]
        x == Whole(H, Ev.in, Huge)
    IN Judge(Ev.ret = (IF x.ok THEN Len(x.out) ELSE -1) /\ Ev.err = x.e,
             Set(Ev.h, ZeroStates(H)), "size", <<x.ok, x.e, Len(x.out)>>)
Static ==
    LET H == hs[Ev.h]
        x == Whole(H, Ev.in, Ev.cap)
    IN Judge(/\ Ev.ret = (IF x.ok THEN 0 ELSE -1) /\ Ev.err = x.e
             /\ x.ok => /\ SubSeq(Ev.buf, 1, Len(x.out)) = x.out
                        /\ \A k \in (Len(x.out) + 1)..Ev.cap : Ev.buf[k] = 170,
             Set(Ev.h, x.H), "static", <<x.ok, x.e, x.out>>)
Convert ==       \* modes 0, 1: with and without a buffer of the caller; 2, 3: a null argument
    LET H == hs[Ev.h]
        x == Whole(H, Ev.in, Huge)
        failed == Set(Ev.h, ZeroStates(H))
    IN IF NoMem(Ev.ret = -1) THEN Advance(failed)
       ELSE IF Ev.mode = 3
       THEN Judge(Ev.ret = -1 /\ Ev.err = (IF x.ok THEN EINVAL ELSE x.e), failed, "convert", <<-1>>)
       ELSE Judge(IF x.ok THEN /\ Ev.ret = 0
                               /\ Ev.mode < 2 => Ev.len = Len(x.out) /\ Ev.out = x.out
                  ELSE Ev.ret = -1 /\ Ev.err = x.e,
                  IF x.ok THEN Set(Ev.h, x.H) ELSE failed, "convert", <<x.ok, x.e, x.out>>)
Cpp ==
    LET x == Whole(NewHandle(Ev.from, Ev.to, Ev.fl = 1), Ev.in, Huge)
    IN Judge(\/ Hit /\ Ev.kind = 3
             \/ NoMem(Ev.kind = 1)
             \/ IF x.ok THEN Ev.kind = 0 /\ Ev.out = x.out ELSE Ev.kind = 1 /\ Ev.err = x.e,
             hs, "cpp", <<x.ok, x.e, x.out>>)

----------------------------------------------------------------------------
Open == IF NoMem(Ev.ok = 0) THEN Advance(hs) ELSE Judge(Ev.ok = 1, Set(Ev.h, NewHandle(Ev.from, Ev.to, Ev.fl = 1)), "open", <<1>>)
OpenX ==
    LET f == CASE Ev.kind = "codepage" -> LookupCP(Ev.fcp)
               [] Ev.kind = "name" -> Lookup(Ev.fname)
               [] Ev.kind = "iconv" -> Lookup(Base(Ev.fname))
        t == CASE Ev.kind = "codepage" -> LookupCP(Ev.tcp)
               [] Ev.kind = "name" -> Lookup(Ev.tname)
               [] Ev.kind = "iconv" -> Lookup(Base(Ev.tname))
        disc == IF Ev.kind = "iconv" THEN IconvDisc(Ev.fname, Ev.tname) ELSE Ev.fl = 1
    IN IF NoMem(Ev.ok = 0) THEN Advance(hs)
       ELSE IF f < 0 \/ t < 0 THEN Judge(Ev.ok = 0 /\ Ev.err = EINVAL, hs, "open must fail", <<f, t>>)
       ELSE Judge(Ev.ok = 1, Set(Ev.h, NewHandle(f, t, disc)), "open must succeed", <<f, t>>)
Look ==
    LET c == Canon(Ev.name)
        pub == Lookup(Ev.name)
        want == IF Ev.ret # pub /\ OnRecord(c, Ev.ret) THEN Ev.ret ELSE pub
    IN Judge(/\ Ev.ret = want
             /\ IF want < 0 THEN Ev.ckind = 1 ELSE Ev.ckind = 0 /\ Ev.cidx = want
             /\ Ev.clen = Len(c) /\ Ev.canon = c, hs, "lookup", <<want, c>>)

LookCp ==
    LET want == LookupCP(Ev.cp)
    IN Judge(/\ Ev.ret = want
             /\ IF want < 0 THEN Ev.ckind = 1 ELSE Ev.ckind = 0 /\ Ev.cidx = want, hs, "code page", <<want>>)

----------------------------------------------------------------------------
Next ==
    /\ v = "run"
    /\ IF AtEnd THEN Accept /\ UNCHANGED <<i, hs, p, w, cnt>>
       ELSE IF Ev.op # "case" /\ ~MemOK THEN Reject("memory", <<PrevLive>>)
       ELSE CASE Ev.op = "case" /\ hs = <<>> -> Advance([h \in {-1} |-> 0])
              [] Ev.op = "case" -> Accept /\ UNCHANGED <<i, hs, p, w, cnt>>
              [] Ev.op = "conv" -> Conv
              [] Ev.op = "reset" -> Reset
              [] Ev.op = "open" -> Open
              [] Ev.op = "openx" -> OpenX
              [] Ev.op = "size" -> Size
              [] Ev.op = "static" -> Static
              [] Ev.op = "convert" -> Convert
              [] Ev.op = "cpp" -> Cpp
              [] Ev.op = "lookup" -> Look
              [] Ev.op = "cplookup" -> LookCp
              [] Ev.op = "close" -> Judge(Ev.ret = 0, [h \in DOMAIN hs \ {Ev.h} |-> hs[h]], "close", <<0>>)
              [] OTHER -> Reject("crash", <<>>)

Spec == Init /\ [][Next]_vars

TypeOK == /\ v \in {"run", "ok", "bad"}
          /\ w >= 0 /\ p >= 1 /\ cnt >= 0
=============================================================================
