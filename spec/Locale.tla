------------------------------- MODULE Locale -------------------------------
(* locale_charset(): which character set the environment names, per kind of platform.           *)
(*   info     the C library answers (nl_langinfo)                                               *)
(*   utf8     platforms whose locales are all UTF-8                                             *)
(*   table    a table of locale names, then the part of the name behind the dot                 *)
(*   plain    no table                                                                          *)
(*   win      the code page of the system (or of the console)                                   *)
(* Events: loc  one question with LC_ALL, LC_CTYPE, LANG (<<>> unset or empty), the current     *)
(*              LC_CTYPE locale and the C library's answer; c and p are the answers in C and C++ *)
(*         win  the code pages lo..hi; rows: <<page, name>> of those whose answer is not ASCII  *)
EXTENDS Names, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TEncs == {}
VARIABLES i, v
vars == <<i, v>>
Init == i \in 2..Len(Trace) /\ v = "run"
Ev == Trace[i]
ASSUME TLCSet(1, 0)
Accept == v' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
Report == PrintT("ACCEPTED " \o ToString(TLCGet(1)))

Data == LET f == RefDir \o "/locale.json" IN TLCEval(JsonDeserialize(f))
SetOf(s) == {s[k] : k \in 1..Len(s)}
UTF_8 == <<85, 84, 70, 45, 56>>
Dot == 46
First(s, b) == LET m == {k \in 1..Len(s) : s[k] = b} IN IF m = {} THEN 0 ELSE Min(m)
Behind(s, k) == SubSeq(s, k + 1, Len(s))

\* the locale: the first of LC_ALL, LC_CTYPE, LANG that says something, else the current one
Effective(e) == IF e.all # <<>> THEN e.all ELSE IF e.ctype # <<>> THEN e.ctype ELSE IF e.lang # <<>> THEN e.lang ELSE e.set

\* the answer for a locale name (names are not canonicalized: a modifier like "@euro" stays)
FromName(loc, table) ==
    LET m == {k \in 1..Len(table) : table[k][1] = loc} IN
    IF m # {} THEN {table[CHOOSE k \in m : TRUE][2]}
    ELSE LET d == First(loc, Dot) IN
         IF d = 0 THEN {UTF_8} ELSE {Behind(loc, d)}
Answers(e) ==
    CASE e.plat = "info" -> {e.info}
      [] e.plat = "utf8" -> {UTF_8}
      [] e.plat = "table" -> FromName(Effective(e), Data.bsd)
      [] e.plat = "plain" -> FromName(Effective(e), <<>>)
      [] OTHER -> {}
LocWrong == IF Ev.c \in Answers(Ev) /\ Ev.p = Ev.c THEN {} ELSE {<<"want", Answers(Ev)>>}

\* on Windows: the published name of the page, and no name may denote another page's encoding (three pages go by the
\* name of the standard they extend)
Extended == {932, 949, 950}
WinWrong ==
    LET want == {r \in SetOf(Data.win) : Ev.lo <= r[1] /\ r[1] <= Ev.hi}
        got == SetOf(Ev.rows)
        other == {r \in got : r[1] \notin Extended /\ Lookup(r[2]) # -1 /\ LookupCP(r[1]) # -1 /\ Lookup(r[2]) # LookupCP(r[1])}
    IN {<<"missing", r>> : r \in want \ got} \cup {<<"extra", r>> : r \in got \ want}
       \cup {<<"other encoding", r>> : r \in other} \cup (IF Ev.diff = 0 THEN {} ELSE {<<"C++ differs">>})

\* of the published data: the table's answers are names of encodings
Usable == \A k \in 1..Len(Data.bsd) : Lookup(Data.bsd[k][2]) # -1

Wrong ==
    CASE Ev.op = "loc" -> LocWrong
      [] Ev.op = "win" -> WinWrong
      [] OTHER -> {<<"crash">>}
Next == /\ v = "run" /\ UNCHANGED i
        /\ LET w == Wrong IN
           IF w = {} THEN Accept
           ELSE v' = "bad" /\ PrintT("REJECT " \o ToJson([at |-> i, n |-> Cardinality(w), why |-> w]))
Spec == Init /\ [][Next]_vars
TypeOK == v \in {"run", "ok", "bad"} /\ (i = 2 => Usable)
=============================================================================
