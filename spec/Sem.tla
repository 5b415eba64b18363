------------------------------- MODULE Sem -------------------------------
(***************************************************************************)
(* Denotational semantics of wrenfold expressions.                         *)
(*                                                                         *)
(* An expression is a DAG given as a sequence of nodes in topological      *)
(* order; node [k |-> kind, a |-> <<indices>>, v |-> text] refers to       *)
(* earlier nodes through a.  The same node language describes what the     *)
(* user asked for (including operations such as "sub", "diff", "rsubs",    *)
(* "min") and what the library built (kinds read back through the public   *)
(* type_name / args interface).                                            *)
(*                                                                         *)
(* A value is a Num string, or "T"/"F" for booleans; "U" is undefined.     *)
(* env maps variable names to values.  env["#ro"] = "T" restricts abs to   *)
(* real arguments (used when differentiating, where |.| is not analytic).  *)
(***************************************************************************)
EXTENDS Num, Sequences, SequencesExt, FiniteSets, TLC

\* F applied to the value of e; TLC evaluates e exactly once
With(e, F(_)) == CHOOSE r \in {F(x) : x \in {e}} : TRUE

\* <<F(1), ..., F(n)>>, each evaluated exactly once
Tab(n, F(_)) == FoldLeft(LAMBDA acc, s : Append(acc, F(s)), <<>>, [j \in 1..n |-> j])

Bool(b) == IF b THEN "T" ELSE "F"

(* ------------------------- relations and booleans ---------------------- *)
\* Truth of a comparison; undefined unless both operands are real.
Rel(op, x, y) ==
  LET c == NCmp(x, y) IN
  IF c = "un" THEN Undef
  ELSE CASE op = "lt" -> Bool(c = "lt")
         [] op = "le" -> Bool(c \in {"lt", "eq"})
         [] op = "eq" -> Bool(c = "eq")
         [] op = "gt" -> Bool(c = "gt")
         [] op = "ge" -> Bool(c \in {"gt", "eq"})

\* Outcomes of comparisons may instead be chosen freely (to explore every path through a program);
\* env["#dec"] says so, and the choices made so far are entries of env.
RelIn(env, op, x, y) ==
  IF "#dec" \notin DOMAIN env THEN Rel(op, x, y)
  ELSE LET key == NRelKey(op, x, y) IN IF key \in DOMAIN env THEN env[key] ELSE Undef

\* Selection is lazy: the branch not selected may be undefined.
Select(c, x, y) == IF c = "T" THEN x ELSE IF c = "F" THEN y ELSE Undef

\* min/max of real operands
Min2(x, y) == LET c == NCmp(x, y) IN IF c = "un" THEN Undef ELSE IF c = "gt" THEN y ELSE x
Max2(x, y) == LET c == NCmp(x, y) IN IF c = "un" THEN Undef ELSE IF c = "lt" THEN y ELSE x

\* value, condition, value, condition, ...: the value of the first condition that holds
RECURSIVE Piecewise(_)
Piecewise(s) == IF s = <<>> \/ s[2] \notin {"T", "F"} THEN Undef
                ELSE IF s[2] = "T" THEN s[1] ELSE Piecewise(SubSeq(s, 3, Len(s)))

Iverson(c) == IF c = "T" THEN "1" ELSE IF c = "F" THEN "0" ELSE Undef

SignOf(x) == LET c == NCmp(x, "0") IN
  IF c = "un" THEN Undef ELSE IF c = "gt" THEN "1" ELSE IF c = "lt" THEN "-1" ELSE "0"

(* --------------------------- arithmetic -------------------------------- *)
SumSeq(s) == FoldLeft(NAdd, "0", s)
MulSeq(s) == FoldLeft(NMul, "1", s)
Abs(env, x) == IF env["#ro"] = "T" /\ ~NIsReal(x) THEN Undef ELSE NFn("abs", x)

(* ------------- unspecified (symbolic) functions ------------------------ *)
\* Any fixed smooth interpretation will do; the library must be right for all of them.
RECURSIVE WSum(_, _, _)
WSum(xs, i, acc) ==
  IF i > Len(xs) THEN acc
  ELSE WSum(xs, i + 1, NAdd(acc, NMul(xs[i], NDiv(ToString(2 * i + 1), ToString(i + 3)))))
Interp(name, xs) ==
  LET s == WSum(xs, 1, "1/7")
      p == NAdd(s, NMul("2/11", MulSeq(xs)))
  IN CASE name = "f" -> NAdd(NFn("sin", p), NMul("1/5", NMul(p, p)))
       [] name = "g" -> NSub(NFn("cos", p), NDiv(p, "2"))
       [] name = "h" -> NMul(p, NAdd("1", NDiv(p, "3")))
       [] OTHER -> NAdd(NFn("sin", NMul(p, "3/2")), "1/9")

\* External functions of generated code: element "name#i" of the result; real for real operands.
\* The emitted programs are linked against the same interpretation.
ExtShift(name) ==
  CASE name = "ext_s#0" -> "1/2"
    [] name = "ext_v#0" -> "-3/4"
    [] name = "ext_m#0" -> "1/3" [] name = "ext_m#1" -> "-2/5" [] name = "ext_m#2" -> "7/8" [] name = "ext_m#3" -> "-5/4"
    [] name = "ext_n#0" -> "2/9" [] name = "ext_n#1" -> "-5/7" [] name = "ext_n#2" -> "11/8"
    [] name = "ext_n#3" -> "-4/3" [] name = "ext_n#4" -> "6/5" [] name = "ext_n#5" -> "-1/9"
    [] name = "ext_p#0" -> "3/7" [] name = "ext_p#1" -> "-1/6"
    [] name = "ext_t#0" -> "9/5"
    [] name = "ext_b#0" -> "1/8" [] name = "ext_b#1" -> "-3/8" [] name = "ext_b#2" -> "5/8" [] name = "ext_b#3" -> "-7/8"
    [] name = "ext_b#4" -> "9/8" [] name = "ext_b#5" -> "-11/8" [] name = "ext_b#6" -> "13/8"
    [] OTHER -> "0"
ExtInterp(name, xs) ==
  IF name = "ext_0#0" THEN "7/5"
  ELSE IF name = "ext_i#0" THEN IF NCmp(xs[1], "0") = "lt" THEN "-2" ELSE "3"
  ELSE LET sh == ExtShift(name)
      s == WSum(xs, 1, sh)
  IN NAdd(NMul(s, NAdd("1", NMul(sh, "1/5"))), NMul("2/11", NMul(xs[1], xs[Len(xs)])))

Cast(t, x) == IF x = "T" THEN "1" ELSE IF x = "F" THEN "0" ELSE IF t = "int" THEN NTrunc(x) ELSE x

(* ---------------------- derivative from first principles ---------------- *)
HStep == "1/1000000000000"           \* 1e-12, against 64-digit arithmetic
HInv  == "1000000000000"
\* limit of difference quotients, given the values at x-h, x, x+h; undefined where the
\* one-sided quotients disagree (not differentiable there)
Quotient(fm, f0, fp) ==
  LET l == NMul(NSub(f0, fm), HInv)
      r == NMul(NSub(fp, f0), HInv)
  IN IF l = Undef \/ r = Undef THEN Undef
     ELSE IF NClose(l, r, 6, "1") THEN NDiv(NAdd(l, r), "2") ELSE Undef

(* ------------------------------ denotation ------------------------------ *)
RECURSIVE EvalUpTo(_, _, _, _), Den(_, _, _, _), DerivAt(_, _, _, _, _)

\* env["#p"] # "": every intermediate value is perturbed by a relative 2^-PertBits, to find out how
\* sensitive a result is to rounding (only used where floating-point constants are involved)
PertBits == 42
\* env["#x"] gives the precision ("64" or "32") of machine arithmetic to mimic instead: every value that is
\* not a short binary fraction is perturbed.
PertSeed(q, i) == CASE q = "1" -> i [] q = "2" -> 7 * i + 5 [] q = "3" -> 11 * i + 3 [] OTHER -> 13 * i + 8
Pert(env, i, v) ==
  IF env["#p"] = "" \/ v \in {"T", "F", Undef} THEN v
  ELSE IF "#x" \in DOMAIN env
       THEN IF NIsShort(v, IF env["#x"] = "64" THEN 48 ELSE 20) THEN v
            ELSE NPerturb(v, IF env["#x"] = "64" THEN 45 ELSE 19, PertSeed(env["#p"], i))
  ELSE IF NIsInt(v) THEN v ELSE NPerturb(v, PertBits, PertSeed(env["#p"], i))

\* values of nodes Len(vals)+1 .. n appended to vals
EvalUpTo(nodes, env, vals, n) ==
  IF Len(vals) >= n THEN vals
  ELSE FoldLeft(LAMBDA acc, i : Append(acc, Pert(env, i, Den(nodes, env, acc, nodes[i]))),
                vals, [j \in 1..(n - Len(vals)) |-> Len(vals) + j])

\* nodes reachable from root (arguments come before the nodes that use them)
ReachAll(nodes, roots, top) ==
  FoldLeft(LAMBDA acc, j : LET i == top + 1 - j IN
             IF i \in acc THEN acc \cup {nodes[i].a[q] : q \in 1..Len(nodes[i].a)} ELSE acc,
           roots, [j \in 1..top |-> j])
Reach(nodes, root) == ReachAll(nodes, {root}, root)

\* value of node idx of the DAG at env; only the nodes it depends on are evaluated
ValueAt(nodes, env, idx) ==
  With(Reach(nodes, idx), LAMBDA R :
    FoldLeft(LAMBDA acc, i : Append(acc, IF i \in R THEN Pert(env, i, Den(nodes, env, acc, nodes[i])) ELSE Undef),
             <<>>, [j \in 1..idx |-> j])[idx])

\* A derivative moves variable x away from the point of interest; "@x" remembers the point itself,
\* which is where a stopped derivative is still evaluated.
Orig(x) == "@" \o x
Move(env, x, v) ==
  IF Orig(x) \in DOMAIN env THEN (x :> v) @@ env
  ELSE (x :> v) @@ (Orig(x) :> IF x \in DOMAIN env THEN env[x] ELSE "0") @@ env
Bind(env, x, v) == IF Orig(x) \in DOMAIN env THEN (x :> v) @@ (Orig(x) :> v) @@ env ELSE (x :> v) @@ env
Moved(env) == {x \in DOMAIN env : Orig(x) \in DOMAIN env}
Still(env) == [x \in DOMAIN env |-> IF Orig(x) \in DOMAIN env THEN env[Orig(x)] ELSE env[x]]

\* order-th derivative of node idx with respect to variable x, at env
DerivAt(nodes, env, idx, x, order) ==
  IF order = 0 THEN ValueAt(nodes, env, idx)
  ELSE LET x0 == IF x \in DOMAIN env THEN env[x] ELSE "0"
           D(e) == DerivAt(nodes, e, idx, x, order - 1)
       IN Quotient(D(Move(env, x, NSub(x0, HStep))), D(env), D(Move(env, x, NAdd(x0, HStep))))

AtoI(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] s = "4" -> 4

\* value of one node n, given the values of the earlier ones
Den(nodes, env, vals, n) ==
  LET A(i) == vals[n.a[i]]
      As == Tab(Len(n.a), LAMBDA i : vals[n.a[i]])
      NameOf(i) == nodes[n.a[i]].v      \* variable name of the i-th operand
  IN CASE n.k = "num" -> n.v
       [] n.k = "var" -> IF n.v \in DOMAIN env THEN env[n.v] ELSE Undef
       [] n.k = "const" -> NConst(n.v)
       [] n.k \in {"zoo", "nan", "lib"} -> Undef
       [] n.k = "add" -> SumSeq(As)
       [] n.k = "mul" -> MulSeq(As)
       [] n.k = "sub" -> NSub(A(1), A(2))
       [] n.k = "div" -> NDiv(A(1), A(2))
       [] n.k = "neg" -> NNeg(A(1))
       [] n.k = "pow" -> NPow(A(1), A(2))
       [] n.k = "fn" -> IF n.v = "abs" THEN Abs(env, A(1)) ELSE NFn(n.v, A(1))
       [] n.k = "sign" -> SignOf(A(1))
       [] n.k = "floor" -> NFloor(A(1))
       [] n.k = "atan2" -> IF "#x" \in DOMAIN env /\ env["#p"] # "" /\ A(1) = "0"
                              \* machine arithmetic has two zeros, on either side of the branch cut
                              THEN IF A(2) # Undef /\ NIsReal(A(2)) /\ NCmp(A(2), "0") = "gt" THEN "0" ELSE Undef
                           ELSE NAtan2(A(1), A(2))
       [] n.k \in {"lt", "le", "eq", "gt", "ge"} -> RelIn(env, n.k, A(1), A(2))
       [] n.k = "fnum" -> n.v
       [] n.k = "cast" -> Cast(n.v, A(1))
       [] n.k = "ext" -> IF \E i \in 1..Len(As) : As[i] = Undef THEN Undef ELSE ExtInterp(n.v, As)
       [] n.k = "true" -> "T"
       [] n.k = "false" -> "F"
       [] n.k = "where" -> Select(A(1), A(2), A(3))
       [] n.k = "min" -> Min2(A(1), A(2))
       [] n.k = "max" -> Max2(A(1), A(2))
       [] n.k = "iverson" -> Iverson(A(1))
       \* forms that only SymPy has
       [] n.k = "piecewise" -> Piecewise(As)
       [] n.k = "heaviside" -> LET c == NCmp(A(1), "0") IN
            IF c = "un" THEN Undef ELSE IF c = "gt" THEN "1" ELSE IF c = "lt" THEN "0" ELSE A(2)
       [] n.k = "nmin" -> FoldLeft(Min2, As[1], Tail(As))
       [] n.k = "nmax" -> FoldLeft(Max2, As[1], Tail(As))
       [] n.k = "rfn" -> NDiv("1", NFn(n.v, A(1)))
       [] n.k = "re" -> IF A(1) = Undef THEN Undef ELSE NRe(A(1))
       [] n.k = "im" -> IF A(1) = Undef THEN Undef ELSE NIm(A(1))
       [] n.k = "ceiling" -> NNeg(NFloor(NNeg(A(1))))
       [] n.k = "ne" -> LET r == Rel("eq", A(1), A(2)) IN IF r = "T" THEN "F" ELSE IF r = "F" THEN "T" ELSE Undef
       [] n.k = "and" -> IF \E i \in 1..Len(As) : As[i] = "F" THEN "F" ELSE IF \A i \in 1..Len(As) : As[i] = "T" THEN "T" ELSE Undef
       [] n.k = "or" -> IF \E i \in 1..Len(As) : As[i] = "T" THEN "T" ELSE IF \A i \in 1..Len(As) : As[i] = "F" THEN "F" ELSE Undef
       [] n.k \in {"uneval", "same"} -> A(1)
       [] n.k = "given" -> IF A(2) = Undef THEN Undef ELSE A(1)
       [] n.k = "stopd" -> IF Moved(env) = {} THEN A(1) ELSE ValueAt(nodes, Still(env), n.a[1])
       [] n.k = "not" -> IF A(1) = "T" THEN "F" ELSE IF A(1) = "F" THEN "T" ELSE Undef
       [] n.k = "call" -> IF \E i \in 1..Len(As) : As[i] = Undef THEN Undef ELSE Interp(n.v, As)
       \* derivative node: operand 1 differentiated v times with respect to the variable operand 2
       [] n.k = "deriv" -> DerivAt(nodes, env, n.a[1], NameOf(2), AtoI(n.v))
       \* substitution of a variable: operand 1 with variable operand 2 bound to operand 3
       [] n.k = "subst" -> IF A(3) = Undef THEN Undef
                           ELSE ValueAt(nodes, Bind(env, NameOf(2), A(3)), n.a[1])
       \* simultaneous substitution of variables: operands 1, x1, r1, x2, r2, ...
       [] n.k = "psubst" ->
            LET m == (Len(n.a) - 1) \div 2
                Bs == [i \in 1..m |-> <<NameOf(2 * i), A(2 * i + 1)>>]
            IN IF \E i \in 1..m : Bs[i][2] = Undef THEN Undef
               ELSE ValueAt(nodes, FoldLeft(LAMBDA e, b : Bind(e, b[1], b[2]), env, Bs), n.a[1])
       \* substitutions of variables one after the other: operands 1, x1, r1, x2, r2, ...
       [] n.k = "seqsubst" ->
            LET m == (Len(n.a) - 1) \div 2
                e == FoldLeft(LAMBDA acc, j :
                        IF acc = {} THEN {}
                        ELSE LET en == CHOOSE en \in acc : TRUE
                                 v == ValueAt(nodes, en, n.a[2 * (m + 1 - j) + 1])
                             IN IF v = Undef THEN {} ELSE {Bind(en, nodes[n.a[2 * (m + 1 - j)]].v, v)},
                      {env}, [j \in 1..m |-> j])
            IN IF e = {} THEN Undef ELSE ValueAt(nodes, CHOOSE en \in e : TRUE, n.a[1])
       \* replacement of every occurrence of node operand 2 inside operand 1 by operand 3
       [] n.k = "nsubst" ->
            LET upto == n.a[1] IN
            FoldLeft(LAMBDA acc, i : Append(acc, IF i = n.a[2] THEN A(3)
                                                 ELSE Den(nodes, env, acc, nodes[i])),
                     <<>>, [j \in 1..upto |-> j])[upto]

(* ---------------- 64-bit representability of exact constants ------------- *)
NMax(a, b) == IF NCmp(a, b) = "lt" THEN b ELSE a
Mag(x) == NMax(NFn("abs", NNumer(x)), NMax("1", NDenom(x)))
Log2(x) == NDiv(NFn("log", x), NFn("log", "2"))
\* an arithmetic operation on exact constants may exceed 64 bits, in its result or in the cross
\* products that bring it to lowest terms
MayExceed64(op, xs) ==
  CASE op.k \in {"add", "mul", "sub", "div", "min", "max", "lt", "le", "gt", "ge", "eq"} ->
         NCmp(Log2(MulSeq([i \in 1..Len(xs) |-> Mag(xs[i])])), "61") # "lt"
    [] op.k \in {"neg"} -> NCmp(Mag(xs[1]), "9223372036854775807") # "lt"
    [] op.k = "fn" -> op.v \in {"abs", "sqrt"} /\ NCmp(Mag(xs[1]), "9223372036854775807") # "lt"
    [] op.k = "pow" -> NCmp(NMul(NFn("abs", NNumer(xs[2])), Log2(Mag(xs[1]))), "61") # "lt"
                       \/ NCmp(Mag(xs[2]), "4000000000000000000") = "gt"
    [] op.k = "num" -> ~NFits64(op.v) \/ NCmp(Mag(op.v), "9223372036854775807") # "lt"
    [] OTHER -> FALSE

(* ----------------------- structure of expressions ----------------------- *)
\* how often node i is an operand of the nodes in set U
Uses(nodes, U, i) ==
  FoldSet(LAMBDA u, n : n + Cardinality({q \in 1..Len(nodes[u].a) : nodes[u].a[q] = i}), 0, U)
LeafKinds == {"num", "var", "const", "zoo", "nan"}
BoolKinds == {"lt", "le", "eq", "gt", "ge", "true", "false"}
\* the proper sub-expressions of root that occur at least m times below distinct parents
Shared(nodes, root, m) ==
  LET R == Reach(nodes, root) IN
  {i \in R \ {root} : nodes[i].k \notin (LeafKinds \cup BoolKinds) /\ Uses(nodes, R, i) >= m}

=============================================================================
