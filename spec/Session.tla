----------------------------- MODULE Session -----------------------------
(***************************************************************************)
(* The symbolic layer as a state machine.                                  *)
(*                                                                         *)
(* State: the heap of expressions the user has built so far (their         *)
(* definitions, and their meaning at each sample assignment), and the      *)
(* expression objects the library has built so far.  One transition per    *)
(* API call: it appends the meaning of the requested operation to the heap *)
(* and the meaning of the library's answer to the library side; the call   *)
(* is accepted only if the two agree at every assignment.                  *)
(*                                                                         *)
(* Sessions come from traces recorded from the real library; each session  *)
(* is one initial state.                                                   *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid,      \* session being explained
          l,        \* next event
          heap,     \* requested operations so far (nodes)
          hv,       \* hv[s]: meaning of each heap entry at assignment s
          libn,     \* library nodes so far
          libv,     \* libv[s]: meaning of each library node at assignment s
          verdict,  \* "ok", or "rejected"
          stats     \* <<compared, skipped>> assignments

vars == <<sid, l, heap, hv, libn, libv, verdict, stats>>

Sess == Trace[sid]
Samples == 1..Len(Sess.env)

Init ==
  /\ sid \in 1..Len(Trace)
  /\ l = 1
  /\ heap = <<>> /\ libn = <<>>
  /\ hv = [s \in Samples |-> <<>>]
  /\ libv = [s \in Samples |-> <<>>]
  /\ verdict = "ok"
  /\ stats = <<0, 0>>

(***************************************************************************)
(* Agreement of one call.                                                  *)
(***************************************************************************)
IsBool(v) == v \in {"T", "F"}

\* Sessions that contain floating-point constants carry, for each of the Sess.nb assignments, two
\* shadow assignments (Sess.nb + s, 2 Sess.nb + s) under which every intermediate value is slightly
\* perturbed; how far the values move bounds the effect of rounding.
Base == 1..Sess.nb
HugeFloat == NPow("10", "300")
Shadows(s) == {Sess.nb + s, 2 * Sess.nb + s}

Exactly(raw, lib, digits) ==
  IF IsBool(raw) \/ IsBool(lib) THEN raw = lib ELSE NClose(raw, lib, digits, "1")

\* the computation of v(s) is insensitive to rounding
Stable(v, s) ==
  \A t \in Shadows(s) :
    IF IsBool(v[s]) \/ IsBool(v[t]) THEN v[s] = v[t]
    ELSE IF v[s] = Undef THEN v[t] = Undef
    ELSE NClose(v[s], v[t], 6, "1")
Spread(v, s) == LET d(t) == NDist(v[s], v[t])
                    t1 == Sess.nb + s  t2 == 2 * Sess.nb + s
                IN IF IsBool(v[s]) \/ v[s] = Undef THEN "0" ELSE NAdd(d(t1), d(t2))
Nearly(raw, lib, s) ==
  LET r == raw[s]  b == lib[s] IN
  IF ~Stable(raw, s) \/ ~Stable(lib, s) THEN TRUE
  ELSE IF IsBool(r) \/ IsBool(b) THEN r = b
  ELSE IF b = Undef THEN NCmp(NFn("abs", r), HugeFloat) = "gt"   \* overflow of a float constant
  ELSE LET tol == NAdd(NMul("64", NAdd(Spread(raw, s), Spread(lib, s))),
                       NMul("1/10000000000", NAdd("1", NFn("abs", r))))
       IN NCmp(NDist(r, b), tol) # "gt"

\* assignments at which the library's answer differs from the requested meaning
Bad(ev, hv2, libv2) ==
  With(<<Tab(Len(Sess.env), LAMBDA s : hv2[s][Len(hv2[s])]), Tab(Len(Sess.env), LAMBDA s : libv2[s][ev.root])>>, LAMBDA w :
     LET raw == w[1] lib == w[2] IN
     { s \in Base :
         /\ raw[s] # Undef
         /\ ~(ev.udef = "ok" /\ lib[s] = Undef)
         /\ IF Sess.fl = 1 THEN ~Nearly(raw, lib, s) ELSE ~Exactly(raw[s], lib[s], ev.digits) })

\* Structural obligations of a call:
\*   absent: node ev.absent[2] (a substituted target) no longer occurs in node ev.absent[1]
\*   shared: exactly the sub-expressions of ev.shared[1] that occur ev.shared[2] times or more were
\*           extracted, ev.shared[3] of them
\*   facts:  pairs of texts that must be equal
Structural(ev, nodes) ==
  /\ ev.absent # <<>> => ev.absent[2] \notin Reach(nodes, ev.absent[1])
  /\ ev.shared # <<>> => Cardinality(Shared(nodes, ev.shared[1], ev.shared[2])) = ev.shared[3]
  /\ \A i \in 1..Len(ev.facts) : ev.facts[i][1] = ev.facts[i][2]

\* an API call that returned an expression.  The requested meaning is that of ev.op; an event whose
\* operation is "lib" is instead obliged to mean the same as library expression ev.cmp.
Step(ev) ==
  \E heap2 \in {Append(heap, ev.op)} :
  \E libn2 \in {libn \o ev.new} :
  \E libv2 \in {Tab(Len(Sess.env), LAMBDA s : EvalUpTo(libn2, Sess.env[s], libv[s], Len(libn2)))} :
  \E hv2 \in {Tab(Len(Sess.env), LAMBDA s : Append(hv[s],
                IF ev.op.k = "lib" THEN libv2[s][ev.cmp]
                ELSE Pert(Sess.env[s], Len(heap2), Den(heap2, Sess.env[s], hv[s], ev.op))))} :
  \E structure \in {Structural(ev, libn2)} :
  \E bad \in {Bad(ev, hv2, libv2) \cup (IF structure THEN {} ELSE {1})} :
  LET skipped == Cardinality({ s \in Base : hv2[s][Len(hv2[s])] = Undef })
  IN /\ heap' = heap2 /\ hv' = hv2 /\ libn' = libn2 /\ libv' = libv2
     /\ stats' = <<stats[1] + Sess.nb - skipped, stats[2] + skipped>>
     /\ IF bad = {} THEN verdict' = "ok"
        ELSE /\ verdict' = "rejected"
             /\ LET s == CHOOSE s \in bad : \A t \in bad : s <= t IN
                PrintT("@@REJECT " \o ToJson([id |-> Sess.id, l |-> l, sample |-> s,
                       want |-> hv2[s][Len(hv2[s])], got |-> libv2[s][ev.root],
                       structure |-> structure]))

\* every value that heap entry i is computed from is a real number of ordinary size (numeric evaluation
\* is not offered for anything else)
PlainReal(nodes, i) ==
  \A j \in Reach(nodes, i) :
    LET v == hv[1][j] IN v # Undef /\ (IsBool(v) \/ (NIsReal(v) /\ NCmp(NFn("abs", v), HugeFloat) # "gt"))

\* an API call that raised: allowed only for the reasons the interface documents
Raise(ev) ==
  /\ UNCHANGED <<libn, libv>>
  /\ heap' = Append(heap, ev.op)
  /\ hv' = Tab(Len(Sess.env), LAMBDA s : Append(hv[s], Undef))
  /\ stats' = <<stats[1], stats[2] + Sess.nb>>
  /\ IF ev.err = "arith" /\ (\/ ev.mayraise = 1
                            \/ /\ ev.mayraise = 2
                               /\ (\A i \in 1..Len(ev.op.a) : NIsExact(hv[1][ev.op.a[i]])) =>
                                  MayExceed64(ev.op, [i \in 1..Len(ev.op.a) |-> hv[1][ev.op.a[i]]])
                            \/ \E i \in 1..Len(ev.op.a) : hv[1][ev.op.a[i]] = Undef)
     THEN verdict' = "ok"
     ELSE IF ev.err = "symbolic" /\ ~PlainReal(heap, ev.op.a[1]) THEN verdict' = "ok"
     ELSE IF ev.op.k # "lib" /\ \A s \in Base :
               Den(Append(heap, ev.op), Sess.env[s], hv[s], ev.op) = Undef
            THEN verdict' = "ok"
     ELSE /\ verdict' = "rejected"
          /\ PrintT("@@REJECT " \o ToJson([id |-> Sess.id, l |-> l, sample |-> 0,
                    want |-> "a value", got |-> ev.err]))

Next ==
  /\ verdict = "ok"
  /\ l <= Len(Sess.ev)
  /\ l' = l + 1 /\ sid' = sid
  /\ LET ev == Sess.ev[l] IN IF ev.err = "" THEN Step(ev) ELSE Raise(ev)
  /\ IF l = Len(Sess.ev) \/ verdict' = "rejected"
     THEN PrintT("@@DONE " \o ToJson([id |-> Sess.id, steps |-> l, cmp |-> stats'[1], skip |-> stats'[2]]))
     ELSE TRUE

Spec == Init /\ [][Next]_vars

\* every call so far was answered with an expression of the requested meaning
Faithful == verdict = "ok"
=============================================================================
