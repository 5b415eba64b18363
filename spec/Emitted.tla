----------------------------- MODULE Emitted -----------------------------
(***************************************************************************)
(* The caller's view of an emitted function.                               *)
(*                                                                         *)
(* The state is the memory the caller owns: for every output a buffer of   *)
(* cells, laid out by the caller (offset, row and column strides, padding).*)
(* A transition is one call of the function: given the argument values and *)
(* the set of requested optional outputs, the specification determines the *)
(* memory afterwards: the cell of every element of every requested output  *)
(* holds (to floating-point accuracy) the value of the user's expression   *)
(* for that element; every other cell is unchanged.  In the "ret" style    *)
(* outputs are returned objects instead, and an output not requested is    *)
(* absent ("none").                                                        *)
(*                                                                         *)
(* A trace is a history of calls of a compiled (or interpreted) function,  *)
(* with the memory recorded after every call; numbers are the exact values *)
(* of the binary floating-point numbers observed ("U" for NaN/infinity).   *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pid,      \* function
          mem,      \* memory: for each output the sequence of its cells
          n,        \* calls made
          phase     \* "calling", "done", "rejected"
vars == <<pid, mem, n, phase>>

P == Trace[pid]

Init ==
  /\ pid \in 1..Len(Trace)
  /\ mem = Trace[pid].init
  /\ n = 0
  /\ phase = "calling"

(* --------------------------- floating point ---------------------------- *)
\* Digits expected, bits of perturbation, and bits of what counts as exactly representable
Digits == IF P.prec = "64" THEN 12 ELSE 5
EnvP(env, q) == ("#p" :> q) @@ ("#x" :> P.prec) @@ env

\* A value is judged if it is a real number and nothing it depends on leaves the range in which the
\* machine type is accurate.
NAbs(x) == NFn("abs", x)
InRange(v) == \/ v \in {Undef, "T", "F", "0"}
              \/ /\ NIsReal(v)
                 /\ NCmp(NAbs(v), P.lim) = "lt"
                 /\ NCmp(NAbs(v), P.tiny) # "lt"
Judged(vals, root) ==
  /\ vals[root] # Undef
  /\ NIsReal(vals[root])
  /\ \A i \in Reach(P.nodes, root) : InRange(vals[i])

\* Rounding moves results; where a perturbation of the size of rounding moves the value as much (or
\* changes the outcome of a comparison), the difference means nothing.  Quantities that are exactly
\* representable are not perturbed, so ties between them must be resolved exactly.
Sensitive(env, root, v, got) ==
  \E q \in {"1", "2", "3", "4"} :
    With(ValueAt(P.nodes, EnvP(env, q), root),
         LAMBDA w : w = Undef \/ (w # v /\ (~NIsReal(w) \/ NCmp(NMul("64", NDist(w, v)), NDist(got, v)) = "gt")))
Agrees(env, vals, root, got) ==
  \/ ~Judged(vals, root)
  \/ NClose(vals[root], got, Digits, "1")
  \/ Sensitive(env, root, vals[root], got)

(* ------------------------------- a call -------------------------------- *)
Run == P.runs[n + 1]
Cell(o, j) == LET lay == P.outs[o].lay IN
  lay.off + ((j - 1) \div lay.cols) * lay.rs + ((j - 1) % lay.cols) * lay.cs + 1
Requested(o) == Run.req[o] = 1
Cells(o) == {Cell(o, j) : j \in 1..Len(P.outs[o].r)}

\* what is wrong with the memory after the call, as <<output, cell, what, expected>>
Wrong(vals) ==
  UNION {LET obs == Run.obs[o] IN
         IF ~Requested(o) THEN
            IF P.style = "ret"
            THEN IF obs = <<"none">> THEN {} ELSE {<<o, 1, "output although not requested", "none">>}
            ELSE IF obs = mem[o] THEN {} ELSE {<<o, 1, "memory of an output that was not requested", mem[o][1]>>}
         ELSE IF Len(obs) # P.outs[o].lay.size THEN {<<o, 1, "shape of the output", ToString(Len(obs))>>}
         ELSE {<<o, Cell(o, j), "value of element " \o P.outs[o].x[j], vals[P.outs[o].r[j]]>> :
                 j \in {k \in 1..Len(P.outs[o].r) : ~Agrees(Run.env, vals, P.outs[o].r[k], obs[Cell(o, k)])}}
              \cup {<<o, c, "cell outside of the output", mem[o][c]>> :
                 c \in {k \in 1..Len(obs) : k \notin Cells(o) /\ obs[k] # mem[o][k]}}
         : o \in 1..Len(P.outs)}

Roots == UNION {Range(P.outs[o].r) : o \in {i \in 1..Len(P.outs) : Requested(i)}}
Call ==
  /\ phase = "calling" /\ n < Len(P.runs)
  /\ \E R \in {ReachAll(P.nodes, Roots, Len(P.nodes))} :
     \E vals \in {FoldLeft(LAMBDA acc, i : Append(acc, IF i \in R THEN Den(P.nodes, Run.env, acc, P.nodes[i]) ELSE Undef),
                           <<>>, [j \in 1..Len(P.nodes) |-> j])} :
     \E bad \in {Wrong(vals)} :
       IF bad # {}
       THEN LET b == CHOOSE b \in bad : TRUE IN
            /\ phase' = "rejected"
            /\ PrintT("@@REJECT " \o ToJson([id |-> P.id, call |-> n + 1, out |-> P.outs[b[1]].n, u |-> P.outs[b[1]].u,
                  cell |-> b[2], what |-> b[3], want |-> b[4],
                  got |-> IF b[2] <= Len(Run.obs[b[1]]) THEN Run.obs[b[1]][b[2]] ELSE "", req |-> Run.req]))
            /\ UNCHANGED <<pid, mem, n>>
       ELSE /\ mem' = IF P.style = "ret" THEN mem ELSE Run.obs
            /\ n' = n + 1
            /\ PrintT("@@CALL " \o ToJson([id |-> P.id,
                  cmp |-> Cardinality({r \in Roots : Judged(vals, r)}), skip |-> Cardinality({r \in Roots : ~Judged(vals, r)})]))
            /\ UNCHANGED <<pid, phase>>

Finish ==
  /\ phase = "calling" /\ n = Len(P.runs)
  /\ phase' = "done"
  /\ PrintT("@@DONE " \o ToJson([id |-> P.id]))
  /\ UNCHANGED <<pid, mem, n>>

Next == Call \/ Finish

Spec == Init /\ [][Next]_vars

=============================================================================
