------------------------------- MODULE Memory -------------------------------
(* The operations that allocate, allocation by allocation, with a fault at any of them.  TLC checks that    *)
(* every path releases what it took (Balanced) and that a failure leaves the handles as they were (Intact), *)
(* and prints the histories of operations and faults, which are replayed into the library.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.VERIF_MODEL)   \* [depth, slots, kinds, texts, faults]
Slots == 1..Conf.slots
Own == 0
Tmp == -1
User == -2
SetOf(q) == {q[k] : k \in 1..Len(q)}

VARIABLES open,    \* slot -> "shut" | "open"
          held,    \* blocks held: <<owner, number>>, owner = a slot, Tmp or User
          op,      \* operation in progress: [k, slot, pc, fault, n]; k = "none" between operations
          was,     \* the handles before the operation in progress
          depth, hist
vars == <<open, held, op, was, depth, hist>>

None == [k |-> "none", slot |-> 0, pc |-> 0, fault |-> 0]
\* the allocations of each operation, in order, and who owns the block in the end
Steps(k) == CASE k = "open" -> <<Own>>
              [] k = "iconv" -> <<Tmp, Tmp, Own>>
              [] k = "convert" -> <<User>>
              [] k = "cpp" -> <<Tmp, User>>         \* its own handle, then the result
              [] OTHER -> <<>>

Init == /\ open = [s \in Slots |-> "shut"] /\ held = {} /\ op = None /\ was = open /\ depth = 0 /\ hist = <<>>

Begin(k, s, f, arg) ==
    /\ op.k = "none" /\ depth < Conf.depth /\ depth' = depth + 1
    /\ k \in {"open", "iconv"} => open[s] = "shut"
    /\ k \in {"convert", "use", "close"} => open[s] = "open"
    /\ op' = [k |-> k, slot |-> s, pc |-> 1, fault |-> f] /\ was' = open
    /\ hist' = Append(hist, <<k, s, f, arg>>)
    /\ UNCHANGED <<open, held>>

Free(owners) == {b \in held : b[1] \notin owners}
Work ==
    LET st == Steps(op.k) IN
    /\ op.k # "none" /\ UNCHANGED <<depth, was, hist>>
    /\ IF op.pc <= Len(st)
       THEN IF op.pc = op.fault
            THEN /\ held' = Free({Tmp, User}) /\ op' = None /\ UNCHANGED open     \* roll back
            ELSE /\ held' = held \cup {<<IF st[op.pc] = Own THEN op.slot ELSE st[op.pc], op.pc>>}
                 /\ op' = [op EXCEPT !.pc = @ + 1] /\ UNCHANGED open
       ELSE /\ op' = None
            /\ held' = CASE op.k = "close" -> Free({op.slot, Tmp, User})
                         [] OTHER -> Free({Tmp, User})                            \* the caller frees what it got
            /\ open' = CASE op.k \in {"open", "iconv"} -> [open EXCEPT ![op.slot] = "open"]
                         [] op.k = "close" -> [open EXCEPT ![op.slot] = "shut"]
                         [] OTHER -> open

Emit == depth' < Conf.depth \/ op'.k # "none" \/ PrintT("HIST " \o ToJson(hist'))
Next == /\ \/ \E s \in Slots :
                 \/ \E f \in 0..2 : Begin("open", s, f, 0)
                 \/ \E f \in 0..4, a \in SetOf(Conf.names) : Begin("iconv", s, f, a)
                 \/ \E f \in 0..2, a \in SetOf(Conf.texts) : Begin("convert", s, f, a)
                 \/ \E a \in SetOf(Conf.texts) : Begin("use", s, 0, a)
                 \/ Begin("close", s, 0, 0)
           \/ \E f \in 0..3, a \in SetOf(Conf.texts) : Begin("cpp", 0, f, a)
           \/ Work
        /\ Emit
Spec == Init /\ [][Next]_vars

TypeOK == open \in [Slots -> {"open", "shut"}] /\ depth \in 0..Conf.depth
\* between operations the library holds exactly one block per open handle, and nothing else
Balanced == op.k = "none" => /\ {b[1] : b \in held} = {s \in Slots : open[s] = "open"}
                             /\ Cardinality(held) = Cardinality({s \in Slots : open[s] = "open"})
\* an operation touches no handle but its own, and a failing one not even that
Intact == \A s \in Slots : s # op.slot /\ op.k # "none" => open[s] = was[s]
=============================================================================
