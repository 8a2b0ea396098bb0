------------------------------- MODULE Handle -------------------------------
(* The handle as a state machine under an arbitrary caller: the environment feeds pieces of    *)
(* input in calls with windows of any offered size, resets, retries and gives up.  TLC checks  *)
(* the theorems below on every history up to the bound (the broad guarantees as facts of the   *)
(* specification), and prints the histories, which are then replayed into the library.         *)
EXTENDS Loop

Conf == JsonDeserialize(IOEnv.VERIF_MODEL)
TEncs == LET q == Conf IN {q[k].from : k \in 1..Len(q)} \cup {q[k].to : k \in 1..Len(q)}
SeqSet(s) == {s[k] : k \in 1..Len(s)}

VARIABLES cf,     \* which configuration: [from, to, disc, pieces, caps, rcaps, depth]
          H,      \* the handle
          left,   \* input given but not consumed
          out,    \* everything written so far
          sum,    \* counts of successful calls (-1: a call failed, the count is unknown)
          mode,   \* "conv", "rst": a reset failed for lack of room and is being retried, "stop": error met
          G, gleft, gout, gerr, gsum,  \* the ghost: the same input through one call with ample room
          last,   \* what the last operation did
          n, hist
vars == <<cf, H, left, out, sum, mode, G, gleft, gout, gerr, gsum, last, n, hist>>
C == Conf[cf]
Huge == 100000000

Init == /\ cf \in 1..Len(Conf)
        /\ H = NewHandle(C.from, C.to, C.disc = 1) /\ G = H
        /\ left = <<>> /\ gleft = <<>> /\ out = <<>> /\ gout = <<>> /\ sum = 0 /\ gsum = 0
        /\ mode = "conv" /\ gerr = 0 /\ n = 0 /\ hist = <<>>
        /\ last = [op |-> "open", cap |-> 0, wrote |-> 0, e |-> 0, ret |-> 0, in |-> 0, used |-> 0]

\* after EILSEQ the caller steps over one code unit and carries on; the ghost starts over from there
Over == LET u == UnitOf[C.from] IN SubSeq(left, u + 1, Len(left))
Feed(b, cap) ==
    LET stopped == mode = "stop"
        in == (IF stopped THEN Over ELSE left) \o b
        r == Run(H, in, cap)
        gin == (IF stopped THEN Over ELSE gleft) \o b
        g == Run(IF stopped THEN H ELSE G, gin, Huge)
        dead == gerr = EILSEQ /\ ~stopped
    IN /\ mode \in {"conv", "stop"} /\ in # <<>>
       /\ stopped => last.op = "conv"
       /\ H' = r.H /\ left' = SubSeq(in, r.used + 1, Len(in)) /\ out' = out \o r.out
       /\ sum' = IF sum < 0 \/ r.ret < 0 THEN -1 ELSE sum + r.ret
       /\ mode' = IF r.e = EILSEQ THEN "stop" ELSE "conv"
       /\ IF dead THEN gleft' = gin /\ UNCHANGED <<G, gout, gerr, gsum>>
          ELSE /\ G' = g.H /\ gleft' = SubSeq(gin, g.used + 1, Len(gin)) /\ gout' = gout \o g.out
               /\ gerr' = g.e /\ gsum' = IF gsum < 0 \/ g.ret < 0 THEN -1 ELSE gsum + g.ret
       /\ last' = [op |-> "conv", cap |-> cap, wrote |-> Len(r.out), e |-> r.e, ret |-> r.ret, in |-> Len(in), used |-> r.used]
       /\ hist' = Append(hist, <<"C", in, cap>>)

\* the caller resets; what was left of the input is abandoned, and so is what only the ghost has converted
CaughtUp == left = gleft /\ gerr # EILSEQ /\ mode = "conv"
Reset(cap) ==
    LET G0 == IF CaughtUp THEN G ELSE H
        gout0 == IF CaughtUp THEN gout ELSE out
        gsum0 == IF CaughtUp THEN gsum ELSE sum
        r == IF cap < 0 THEN [ok |-> TRUE, e |-> 0, b |-> <<>>, cnt |-> 0, H |-> ZeroStates(H)] ELSE Rst(H, cap)
        g == Rst(G0, Huge)
    IN /\ H' = r.H /\ left' = <<>> /\ out' = out \o r.b
       /\ sum' = IF sum < 0 \/ ~r.ok THEN -1 ELSE sum + r.cnt
       /\ mode' = IF r.ok THEN "conv" ELSE IF r.e = EILSEQ THEN "stop" ELSE "rst"
       /\ gleft' = <<>>
       /\ IF cap < 0 THEN G' = ZeroStates(H) /\ gout' = out' /\ gsum' = sum' /\ gerr' = 0
          ELSE IF mode = "rst" THEN UNCHANGED <<G, gout, gsum, gerr>>
          ELSE /\ G' = g.H /\ gout' = gout0 \o g.b /\ gerr' = IF g.ok THEN 0 ELSE g.e
               /\ gsum' = IF gsum0 < 0 \/ ~g.ok THEN -1 ELSE gsum0 + g.cnt
       /\ last' = [op |-> "reset", cap |-> cap, wrote |-> Len(r.b), e |-> r.e, ret |-> IF r.ok THEN r.cnt ELSE -1, in |-> 0, used |-> 0]
       /\ hist' = Append(hist, <<"R", <<>>, cap>>)

Emit == n' < C.depth \/ C.emit = 0 \/ PrintT("HIST " \o ToJson(<<cf, hist'>>))
Next == /\ n < C.depth /\ n' = n + 1 /\ UNCHANGED cf
        /\ \/ \E k \in 1..Len(C.pieces), cap \in SeqSet(C.caps) : Feed(C.pieces[k], cap)
           \/ \E cap \in SeqSet(C.caps) : left # <<>> /\ last.e = E2BIG /\ Feed(<<>>, cap)
           \/ \E cap \in SeqSet(C.rcaps) : Reset(cap)
        /\ Emit
Spec == Init /\ [][Next]_vars
View == <<cf, H, left, Len(out), sum, mode, G, gleft, Len(gout), gerr, gsum, last, C.depth - n>>

----------------------------------------------------------------------------
(* what every history shows *)
TypeOK == mode \in {"conv", "rst", "stop"} /\ n \in 0..C.depth

\* C07, C08: the window is respected and the call consumed only input it was given
Accounting == /\ (last.cap >= 0 => last.wrote <= last.cap)
              /\ last.used <= last.in
              /\ (last.op = "conv" /\ last.e = 0 => last.used = last.in)
              /\ (last.ret < 0) = (last.e # 0)

\* C06, C07: however the input was cut and whatever the windows, carrying on with ample room leads to the
\* output, counts, error and state that one call leads to
SameHandle(A, B) == A = B
Resume ==
    CASE mode = "conv" -> LET r == Run(H, left, Huge) IN
                          /\ out \o r.out = gout
                          /\ (gerr = 0 \/ gerr = EINVAL) => r.e = gerr /\ SubSeq(left, r.used + 1, Len(left)) = gleft /\ SameHandle(r.H, G)
                          /\ gerr = EILSEQ => r.e = EILSEQ
                          /\ (sum >= 0 /\ gsum >= 0 /\ r.ret >= 0) => sum + r.ret = gsum
      [] mode = "rst" -> LET r == Rst(H, Huge) IN out \o r.b = gout /\ SameHandle(r.H, G)
      [] mode = "stop" -> gerr = EILSEQ /\ out = gout

\* C10: a successful reset leaves the handle as new, up to the learned byte order; a second one writes nothing
Renewed == (last.op = "reset" /\ last.e = 0) =>
             /\ H = [NewHandle(C.from, C.to, C.disc = 1) EXCEPT !.bo = H.bo]
             /\ Rst(H, 0).ok /\ Rst(H, 0).b = <<>>

\* C09: discarding never stops at invalid input
Discards == C.disc = 1 => mode # "stop" /\ gerr # EILSEQ

\* C07: lack of room is reported only if the next character really needs more than the window
Needed == (last.op = "conv" /\ last.e = E2BIG) =>
             LET r == Run(H, left, Huge) IN Len(r.out) > last.cap - last.wrote
=============================================================================
