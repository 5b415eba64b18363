------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* C19: an expression on its way between wrenfold and SymPy.               *)
(*                                                                         *)
(* The abstract state is what travels: the meaning (the value at every     *)
(* sample assignment of every element), the form (scalar, boolean, r x c   *)
(* matrix) and the symbols with what is assumed about them.  A conversion, *)
(* in either direction and with evaluation on or off, changes none of it.  *)
(* SymPy objects are read as trees of their own classes; what the classes  *)
(* mean, which of them wrenfold can express, and how assumptions and       *)
(* number sets correspond, is written down below.                          *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pid,      \* the walk being explained
          l,        \* number of conversions made
          meaning,  \* meaning[s]: values of the elements at assignment s
          phase
vars == <<pid, l, meaning, phase>>

Walk == Trace[pid]
Objs == Walk.objs
Envs == Walk.env
Base == 1..Walk.nb

(* ----------------------- what SymPy's classes mean ----------------------- *)
SameName == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
             "exp", "log"}
Reading(c) ==
  CASE c \in {"Integer", "Rational", "Float", "Zero", "One", "NegativeOne", "Half"} -> "num"
    [] c \in {"Pi", "Exp1", "ImaginaryUnit"} -> "const"
    [] c = "ComplexInfinity" -> "zoo"
    [] c \in {"NaN", "Infinity", "NegativeInfinity"} -> "nan"
    [] c = "Symbol" -> "var"
    [] c = "Add" -> "add" [] c = "Mul" -> "mul" [] c = "Pow" -> "pow"
    [] c = "Abs" \/ c \in SameName -> "fn"
    [] c \in {"cot", "sec", "csc", "coth", "sech", "csch"} -> "rfn"
    [] c = "re" -> "re" [] c = "im" -> "im"
    [] c = "sign" -> "sign" [] c = "floor" -> "floor" [] c = "ceiling" -> "ceiling" [] c = "atan2" -> "atan2"
    [] c = "Min" -> "nmin" [] c = "Max" -> "nmax" [] c = "Heaviside" -> "heaviside" [] c = "Piecewise" -> "piecewise"
    [] c = "StrictLessThan" -> "lt" [] c = "LessThan" -> "le" [] c = "StrictGreaterThan" -> "gt"
    [] c = "GreaterThan" -> "ge" [] c = "Equality" -> "eq" [] c = "Unequality" -> "ne"
    [] c = "And" -> "and" [] c = "Or" -> "or" [] c = "Not" -> "not" [] c = "ITE" -> "where"
    [] c = "BooleanTrue" -> "true" [] c = "BooleanFalse" -> "false"
    [] c = "UnevaluatedExpr" -> "uneval"
    [] c = "AppliedUndef" -> "call" [] c = "Derivative" -> "deriv" [] c = "Subs" -> "psubst"
    [] OTHER -> "lib"
ReadingV(n) == CASE n.k = "Pi" -> "pi" [] n.k = "Exp1" -> "e" [] n.k = "ImaginaryUnit" -> "i"
                 [] n.k = "cot" -> "tan" [] n.k = "sec" -> "cos" [] n.k = "csc" -> "sin"
                 [] n.k = "coth" -> "tanh" [] n.k = "sech" -> "cosh" [] n.k = "csch" -> "sinh"
                 [] n.k = "Abs" -> "abs" [] n.k \in SameName -> n.k [] OTHER -> n.v
\* a derivative by something other than a symbol is not given a meaning here
Plain(nodes, n) ==
  IF n.k \in {"deriv"} /\ nodes[n.a[2]].k # "var" THEN [k |-> "lib", a |-> <<>>, v |-> ""]
  ELSE IF n.k = "subst" /\ nodes[n.a[2]].k # "var" THEN [k |-> "nsubst", a |-> n.a, v |-> ""]
  ELSE n
AsSem(o) == LET N == IF o.lang = "wf" THEN o.nodes
                     ELSE [i \in 1..Len(o.nodes) |-> [k |-> Reading(o.nodes[i].k), a |-> o.nodes[i].a, v |-> ReadingV(o.nodes[i])]]
            IN [i \in 1..Len(N) |-> Plain(N, N[i])]

(* -------------------- assumptions and number sets ------------------------ *)
Assumed(set) == CASE set = "positive" -> "positive,nonnegative,real,complex"
                  [] set = "nonnegative" -> "nonnegative,real,complex"
                  [] set = "real" -> "real,complex"
                  [] set = "complex" -> "complex"
                  [] set = "unknown" -> ""
\* the smallest set that is implied (a symbol assumed positive is listed as nonnegative, real and complex too)
Implied(as) == CASE as = "positive,nonnegative,real,complex" -> "positive"
                 [] as = "nonnegative,real,complex" -> "nonnegative"
                 [] as = "real,complex" -> "real"
                 [] as = "complex" -> "complex"
                 [] OTHER -> "unknown"
Symbols(o) == {<<o.nodes[i].v, o.nodes[i].s>> : i \in {j \in 1..Len(o.nodes) : o.nodes[j].k \in {"var", "Symbol"}}}
Converted(lang, S) == IF lang = "sp" THEN {<<x[1], Assumed(x[2])>> : x \in S} ELSE {<<x[1], Implied(x[2])>> : x \in S}

(* ----------------------- what can be expressed --------------------------- *)
IntOk(v) == NCmp(NFn("abs", NNumer(v)), "9223372036854775807") # "gt" /\ NCmp(NDenom(v), "9223372036854775807") # "gt"
NotInSympy == {"stopd", "lib", "cast", "ext"}
ExpressibleNode(o, n) ==
  IF o.lang = "wf" THEN n.k \notin NotInSympy
  ELSE CASE n.k \in {"Min", "Max"} -> Len(n.a) = 2
         [] n.k \in {"Integer", "Rational"} -> IntOk(n.v)
         [] n.k \in {"Infinity", "NegativeInfinity", "ceiling", "Unequality", "And", "Or", "Not", "ITE"} -> FALSE
         [] n.k = "Piecewise" -> n.a # <<>>
         [] n.k = "AppliedUndef" -> n.s = ""
         [] n.k = "Derivative" -> n.s = "" /\ o.nodes[n.a[2]].k = "Symbol"
         [] n.k \in {"log"} -> Len(n.a) = 1
         [] OTHER -> Reading(n.k) \notin {"lib", "rfn", "re", "im"}
Expressible(o) == \A i \in 1..Len(o.nodes) : ExpressibleNode(o, o.nodes[i])
\* an order comparison or a minimum without a value anywhere, or of something that may not be real: neither
\* library builds it; SymPy does not compare what it was told not to evaluate, and fails on some relations of
\* constants that contain floating-point numbers or further conditions
OrderKinds == {"lt", "le", "gt", "ge", "min", "max", "nmin", "nmax", "where", "piecewise", "heaviside", "floor", "sign", "iverson", "eq"}
NoOrder(N, V) == \/ Walk.fl = 1
                 \/ \E i \in 1..Len(N) : N[i].k = "uneval"
                 \/ \E i \in 1..Len(N) : /\ N[i].k \in {"lt", "le", "gt", "ge", "eq"}
                                         /\ \E j \in Reach(N, i) : N[j].k \in {"where", "iverson", "piecewise", "heaviside", "min", "max", "nmin", "nmax"}
                 \/ \E i \in 1..Len(N) : N[i].k \in OrderKinds /\ \A s \in Base : V[s][i] = Undef
                 \/ \E i \in 1..Len(N) : \E s \in Base : V[s][i] \notin {Undef, "T", "F"} /\ ~NIsReal(V[s][i])

(* ------------------------------- meaning --------------------------------- *)
Values(N, s) == EvalUpTo(N, Envs[s], <<>>, Len(N))
Meaning(o, V) == Tab(Len(Envs), LAMBDA s : [i \in 1..Len(o.roots) |-> V[s][o.roots[i]]])
AllValues(N) == Tab(Len(Envs), LAMBDA s : Values(N, s))

Here == Objs[l + 1]
There == Objs[l + 2]

IsBool(v) == v \in {"T", "F"}
HugeFloat == NPow("10", "300")
Shadows(s) == {Walk.nb + s, 2 * Walk.nb + s}
Stable(m, s, i) ==
  \A t \in Shadows(s) :
    IF IsBool(m[s][i]) \/ IsBool(m[t][i]) THEN m[s][i] = m[t][i]
    ELSE IF m[s][i] = Undef THEN m[t][i] = Undef
    ELSE NClose(m[s][i], m[t][i], 6, "1")
Spread(m, s, i) == IF IsBool(m[s][i]) \/ m[s][i] = Undef THEN "0"
                   ELSE NAdd(NDist(m[s][i], m[Walk.nb + s][i]), NDist(m[s][i], m[2 * Walk.nb + s][i]))
\* evaluation by SymPy may move a value onto a branch cut, where none is given here
Alike(m, w, s, i) ==
  LET r == m[s][i] b == w[s][i] IN
  IF b = Undef /\ There.ev = 1 THEN TRUE
  ELSE IF Walk.fl = 0 THEN IF IsBool(r) \/ IsBool(b) THEN r = b ELSE NClose(r, b, Walk.digits, "1")
  ELSE IF ~Stable(m, s, i) \/ ~Stable(w, s, i) THEN TRUE
  ELSE IF IsBool(r) \/ IsBool(b) THEN r = b
  ELSE IF b = Undef THEN NCmp(NFn("abs", r), HugeFloat) = "gt"
  ELSE NCmp(NDist(r, b), NAdd(NMul("64", NAdd(Spread(m, s, i), Spread(w, s, i))), NMul("1/10000000000", NAdd("1", NFn("abs", r))))) # "gt"
Bad(m, w) == {<<s, i>> \in Base \X (1..Len(m[1])) : m[s][i] # Undef /\ ~Alike(m, w, s, i)}

\* a piecewise function has no value where none of its conditions holds; it is given none on the way either
Gap(o, V, s, i) ==
  LET n == o.nodes[o.roots[i]] IN
  /\ Walk.fl = 0 /\ n.k = "Piecewise" /\ n.a # <<>>
  /\ \A j \in 1..Len(n.a) : j % 2 = 0 => V[s][n.a[j]] = "F"
Filled(w) == IF There.lang # "wf" \/ \A i \in 1..Len(Here.roots) : Here.nodes[Here.roots[i]].k # "Piecewise" THEN {}
             ELSE UNION {{<<s, i>> \in Base \X (1..Len(Here.roots)) : Gap(Here, V, s, i) /\ w[s][i] # Undef} : V \in {AllValues(AsSem(Here))}}

(* ------------------------------- actions --------------------------------- *)
Init == /\ pid \in 1..Len(Trace)
        /\ l = 0
        /\ meaning = <<>>
        /\ phase = "given"

Depart == /\ phase = "given"
          /\ meaning' = Meaning(Objs[1], AllValues(AsSem(Objs[1])))
          /\ phase' = "travelling"
          /\ UNCHANGED <<pid, l>>

Reject(what, s, want, got) ==
  /\ phase' = "rejected"
  /\ PrintT("@@REJECT " \o ToJson([id |-> Walk.id, l |-> l + 1, what |-> what, sample |-> s, want |-> want, got |-> got]))
  /\ UNCHANGED <<pid, l, meaning>>


Refuse ==
  /\ phase = "travelling" /\ l + 1 < Len(Objs) /\ There.err # ""
  /\ IF There.err = "arith" \/ ~Expressible(Here) \/ (There.err = "order"
                                                     /\ \E N \in {AsSem(Here)} : \E V \in {AllValues(N)} : NoOrder(N, V))
     THEN phase' = "done" /\ PrintT("@@DONE " \o ToJson([id |-> Walk.id, n |-> l, refused |-> 1])) /\ UNCHANGED <<pid, l, meaning>>
     ELSE Reject("refused: " \o There.err, 0, "a conversion", There.err)

Convert ==
  /\ phase = "travelling" /\ l + 1 < Len(Objs) /\ There.err = ""
  /\ \E w \in {Meaning(There, AllValues(AsSem(There)))} :
     IF \E i \in 1..Len(There.nodes) : There.lang = "sp" /\ Reading(There.nodes[i].k) = "lib"
     \* evaluation by SymPy led outside the classes that are given a meaning here: not judged
     THEN phase' = "done" /\ PrintT("@@DONE " \o ToJson([id |-> Walk.id, n |-> l, refused |-> 0])) /\ UNCHANGED <<pid, l, meaning>>
     ELSE IF There.form # Here.form THEN Reject("form", 0, Here.form, There.form)
     ELSE IF ~(Symbols(There) \subseteq Converted(There.lang, Symbols(Here)))
          THEN Reject("symbols", 0, ToString(Converted(There.lang, Symbols(Here))), ToString(Symbols(There)))
     ELSE \E bad \in {Bad(meaning, w) \cup Filled(w)} :
          IF bad # {} THEN LET b == CHOOSE b \in bad : TRUE IN Reject("value", b[1], meaning[b[1]][b[2]], w[b[1]][b[2]])
          ELSE /\ l' = l + 1
               /\ meaning' = w
               /\ UNCHANGED <<pid, phase>>

Finish ==
  /\ phase = "travelling" /\ l + 1 = Len(Objs)
  /\ phase' = "done"
  /\ PrintT("@@DONE " \o ToJson([id |-> Walk.id, n |-> l, refused |-> 0]))
  /\ UNCHANGED <<pid, l, meaning>>

Next == Depart \/ Refuse \/ Convert \/ Finish
Spec == Init /\ [][Next]_vars
Conveyed == phase # "rejected"
=============================================================================
