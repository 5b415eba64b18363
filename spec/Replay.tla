------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Determinism as a state machine.                                         *)
(*                                                                         *)
(* A history is a sequence of user operations.  What the library answers   *)
(* to an operation (the text and structure of the expression, its place in *)
(* the canonical order, the generated program) is a function of the        *)
(* operations of the history alone: `known` is the part of that function   *)
(* revealed so far.  The same history is run again in other circumstances  *)
(* -- other process, other hash seed, other memory, after and interleaved  *)
(* with unrelated work -- and each answer must be the known one.           *)
(*                                                                         *)
(* Unique variables carry a process-wide number.  Numbers may differ       *)
(* between runs, but only by an order-preserving renaming that is the same *)
(* throughout the run.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, r, l,
          known,     \* answers of this history, by position
          ren,       \* pairs <<number in the first run, number in this run>>
          verdict
vars == <<sid, r, l, known, ren, verdict>>

Hist == Trace[sid]

Init ==
  /\ sid \in 1..Len(Trace)
  /\ r = 1 /\ l = 1 /\ known = <<>> /\ ren = {} /\ verdict = "ok"

\* an order-preserving one-to-one renaming
Monotone(R) == \A p, q \in R : (p[1] < q[1]) <=> (p[2] < q[2])

Pairs(a, b) == {<<a.u[i], b.u[i]>> : i \in 1..Len(a.u)}
Agree(a, b) == a.x = b.x /\ Len(a.u) = Len(b.u)

Answer ==
  /\ verdict = "ok" /\ r <= Len(Hist.runs) /\ l <= Len(Hist.runs[r].ans)
  /\ l' = l + 1 /\ UNCHANGED <<sid, r>>
  /\ LET a == Hist.runs[r].ans[l] IN
     IF l > Len(known)
     THEN IF r = 1 THEN known' = Append(known, a) /\ UNCHANGED <<ren, verdict>>
          ELSE verdict' = "longer" /\ UNCHANGED <<known, ren>>
     ELSE /\ UNCHANGED known
          /\ IF ~Agree(known[l], a) THEN verdict' = "differs" /\ UNCHANGED ren
             ELSE /\ ren' = ren \cup Pairs(known[l], a)
                  /\ verdict' = IF Monotone(ren') THEN "ok" ELSE "renamed"

Again ==      \* the next run of the same history
  /\ verdict = "ok" /\ r <= Len(Hist.runs) /\ l > Len(Hist.runs[r].ans)
  /\ UNCHANGED <<sid, known>>
  /\ verdict' = IF Len(Hist.runs[r].ans) = Len(known) THEN "ok" ELSE "shorter"
  /\ r' = r + 1 /\ l' = 1 /\ ren' = {}

Next == Answer \/ Again
Spec == Init /\ [][Next]_vars

Done == verdict # "ok" \/ r > Len(Hist.runs)
Report ==
  IF ~Done THEN TRUE
  ELSE PrintT("@@S " \o ToJson([sid |-> sid, r |-> r, l |-> l - 1, verdict |-> verdict, n |-> Len(known)]))
=============================================================================
