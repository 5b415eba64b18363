------------------------------- MODULE Order -------------------------------
(* C08: the pool of expressions that exist in one process.                   *)
(*                                                                           *)
(* The abstract state is a set of identity classes, the canonical order of   *)
(* the scalar ones, and what every construction made so far has produced.    *)
(* Building an expression either finds the class it belongs to, or opens a   *)
(* new class at a place in the order chosen once and for all.  Everything    *)
(* the library answers about the new expression and an older one (identical? *)
(* same hash?  which comes first?) is determined by the abstract state:      *)
(* a trace in which some answer differs is not a behaviour of this machine.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pid,     \* the history being replayed
          class,   \* class of every expression built so far: the index of its first member; 0: refused
          ranks,   \* the classes of scalar and boolean/matrix expressions, in canonical order
          phase
vars == <<pid, class, ranks, phase>>

Steps == Trace[pid].steps
Rec(i) == Steps[i]

Init == /\ pid \in 1..Len(Trace)
        /\ class = <<>>
        /\ ranks = <<>>
        /\ phase = "building"

Ok(j) == class[j] # 0
Alike(i, j) == Rec(i).sort = Rec(j).sort

(* ------------------------------ constructions -------------------------- *)
Commutative(k) == k \in {"add", "mul", "eq", "madd"}
Operands(i) == [n \in 1..Len(Rec(i).a) |-> IF Rec(i).a[n] < i THEN class[Rec(i).a[n]] ELSE 0]
\* the same operation applied to identical operands
Repeats(i, j) ==
  /\ Rec(i).k = Rec(j).k /\ Rec(i).v = Rec(j).v /\ Rec(i).alt = Rec(j).alt
  /\ Len(Rec(i).a) = Len(Rec(j).a)
  /\ Rec(i).pure = 1
  /\ Operands(i) = Operands(j)
Whole(i) == Rec(i).alt = 1 \/ Len(Rec(i).a) = 2
\* the same commutative operation on operands that are identical up to their order
Permutes(i, j) ==
  /\ Commutative(Rec(i).k) /\ Rec(i).k = Rec(j).k
  /\ Len(Rec(i).a) = Len(Rec(j).a)
  /\ Rec(i).exact = 1 /\ Rec(j).exact = 1
  \* a chain of binary products distributes a number over a sum it meets on the way, so it is not one product;
  \* a binary sum with an infinite operand is absorbed, a longer one is not
  /\ Rec(i).k = "mul" \/ Rec(i).inf = 1 => Whole(i) /\ Whole(j) /\ Len(Rec(i).a) = Len(Rec(j).a)
  /\ LET s == SortSeq(Operands(i), LAMBDA p, q : p < q)
         t == SortSeq(Operands(j), LAMBDA p, q : p < q)
     IN s = t

(* ------------------------------- judgement ------------------------------ *)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* the first earlier expression that answers "identical" to step i; i itself if there is none
Found(i) == LET S == {j \in 1..(i - 1) : Ok(j) /\ Alike(i, j) /\ Rec(i).eqr[j] = 1}
            IN IF S = {} THEN i ELSE class[CHOOSE j \in S : \A q \in S : j <= q]

\* the place of step i in the order: after the last class it claims to follow
Place(i) == LET S == {p \in 1..Len(ranks) : Alike(i, ranks[p]) /\ Rec(i).cmp[ranks[p]] = 1}
            IN IF S = {} THEN 0 ELSE CHOOSE p \in S : \A q \in S : q <= p

RankOf(c) == CHOOSE p \in 1..Len(ranks) : ranks[p] = c
\* what comparing step i (of class c, in place p) with an expression of class d must answer
Expected(c, p, d) == IF c = d THEN 0 ELSE IF RankOf(d) <= p THEN 1 ELSE -1

Problems(i) ==
  LET r == Rec(i)
      c == Found(i)
      old == {j \in 1..(i - 1) : Ok(j) /\ Alike(i, j)}
      p == IF c = i THEN Place(i) ELSE IF r.ordered = 1 THEN RankOf(c) ELSE 0
      P(S, what) == {<<j, what>> : j \in S}
  IN   (IF r.eqr[i] = 1 THEN {} ELSE {<<i, "not identical to itself">>})
  \cup (IF r.ordered = 1 /\ r.cmp[i] # 0 THEN {<<i, "not of the same rank as itself">>} ELSE {})
  \cup P({j \in old : r.eqr[j] # (IF class[j] = c THEN 1 ELSE 0)}, "identity is not transitive")
  \cup P({j \in old : r.eql[j] # r.eqr[j]}, "identity is not symmetric")
  \cup P({j \in old : class[j] = c /\ r.hash # Rec(j).hash}, "identical but hashed differently")
  \cup P({j \in old : class[j] = c /\ r.shape # Rec(j).shape}, "identical but of different structure")
  \cup P({j \in old : class[j] # c /\ r.shape = Rec(j).shape /\ r.opaque = 0}, "of equal structure but not identical")
  \cup (IF r.ordered # 1 THEN {} ELSE
            P({j \in old : r.cmp[j] # Expected(c, p, class[j])}, "order is not total or not transitive, or ties with another expression")
       \cup P({j \in old : r.cmpl[j] # 0 - r.cmp[j]}, "order is not antisymmetric"))
  \cup P({j \in 1..(i - 1) : Ok(j) /\ Repeats(i, j) /\ class[j] # c}, "same construction from identical operands gives a different expression")
  \cup P({j \in 1..(i - 1) : Ok(j) /\ Permutes(i, j) /\ class[j] # c}, "permuted operands give a different expression")

(* -------------------------------- actions ------------------------------- *)
Next1 == Len(class) + 1
Refuse ==
  /\ phase = "building" /\ Next1 <= Len(Steps) /\ Rec(Next1).err # ""
  /\ class' = Append(class, 0)
  /\ UNCHANGED <<pid, ranks, phase>>

Insert(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))

Build ==
  /\ phase = "building" /\ Next1 <= Len(Steps) /\ Rec(Next1).err = ""
  /\ \E i \in {Next1} : \E bad \in {Problems(i)} :
       IF bad # {}
       THEN LET b == CHOOSE b \in bad : TRUE IN
            /\ phase' = "rejected"
            /\ PrintT("@@REJECT " \o ToJson([id |-> Trace[pid].id, i |-> i, j |-> b[1], what |-> b[2]]))
            /\ UNCHANGED <<pid, class, ranks>>
       ELSE /\ class' = Append(class, Found(i))
            /\ ranks' = IF Found(i) = i /\ Rec(i).ordered = 1 THEN Insert(ranks, Place(i), i) ELSE ranks
            /\ UNCHANGED <<pid, phase>>

Finish ==
  /\ phase = "building" /\ Len(class) = Len(Steps)
  /\ phase' = "done"
  /\ PrintT("@@DONE " \o ToJson([id |-> Trace[pid].id, n |-> Len(Steps), classes |-> Cardinality({class[i] : i \in 1..Len(class)}),
        pairs |-> (Len(Steps) * (Len(Steps) + 1)) \div 2]))
  /\ UNCHANGED <<pid, class, ranks>>

Next == Refuse \/ Build \/ Finish
Spec == Init /\ [][Next]_vars

\* the abstract order stays a strict total order of classes: every class once
RanksOk == \A p, q \in 1..Len(ranks) : ranks[p] = ranks[q] => p = q
=============================================================================
