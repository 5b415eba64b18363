----------------------------- MODULE Program -----------------------------
(***************************************************************************)
(* Generated programs as transition systems.                               *)
(*                                                                         *)
(* A trace holds what the user asked for (a DAG and the outputs that point *)
(* into it) and the program the real transpiler answered with (blocks of   *)
(* statements).  One transition executes one statement.  Two things are    *)
(* chosen freely, so that TLC explores every execution of the program:     *)
(*   - which optional outputs the caller requested (decided when the       *)
(*     program first asks), and                                            *)
(*   - the outcome of every comparison of two values (decided when it is   *)
(*     first needed; the same comparison always has the same outcome).     *)
(* When the program ends, each output must hold the value the user's DAG   *)
(* has under the same decisions (property C11), and the execution must     *)
(* have kept the rules every target language imposes (property C12).       *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pid,      \* program being executed
          smp,      \* argument values used
          stack,    \* control stack: <<block, next statement, elements declared here>>, innermost last
          env,      \* arguments, temporaries (element names start with %), decided comparisons
          types,    \* numeric type of every declared temporary element
          req,      \* optional outputs: name -> requested?  (as far as asked)
          outs,     \* outputs written so far: name -> element values ("" is the return value)
          phase,    \* "check", "run", "compare", "done", "dead", "rejected"
          n         \* statements executed
vars == <<pid, smp, stack, env, types, req, outs, phase, n>>

P == Trace[pid]
Empty == [x \in {} |-> ""]

Init ==
  /\ pid \in 1..Len(Trace)
  /\ smp \in 1..Len(Trace[pid].env)
  /\ stack = <<[b |-> 1, i |-> 1, d |-> {}]>>
  /\ env = ("#dec" :> "T") @@ Trace[pid].env[smp]
  /\ types = Empty
  /\ req = [x \in {} |-> TRUE]
  /\ outs = [x \in {} |-> <<>>]
  /\ phase = "check"
  /\ n = 0

(* ------------------------------ decisions ------------------------------ *)
\* comparisons among nodes R whose outcome has not been decided although both operands are known
Pending(nodes, vals, e, R) ==
  LET ks == {NRelKey(nodes[i].k, vals[nodes[i].a[1]], vals[nodes[i].a[2]]) :
               i \in {j \in R : nodes[j].k \in {"lt", "le", "eq"}}}
  IN {k \in ks : k # Undef /\ k \notin DOMAIN e}
Decide(ks) ==
  \E b \in {"T", "F"} : env' = ((CHOOSE k \in ks : TRUE) :> b) @@ env

(* ------------------------- static typing of values ----------------------- *)
Num2(t) == t \in {"int", "float"}
FloatFns == {"cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh",
             "log", "exp", "sqrt"}
\* type of node x given the types of the earlier nodes; "!" for an ill-typed operation
TypeOf(x, ts) ==
  LET T(i) == ts[x.a[i]]
      As == {ts[x.a[i]] : i \in 1..Len(x.a)}
      OneOf(S) == CHOOSE t \in S : TRUE
  IN CASE "!" \in As -> "!"
       [] x.k = "num" -> "int"
       [] x.k \in {"fnum", "const"} -> "float"
       [] x.k = "var" -> IF x.v \in DOMAIN types THEN types[x.v]
                         ELSE IF x.v \in DOMAIN P.atype THEN P.atype[x.v] ELSE "!"
       [] x.k = "ext" -> IF As \subseteq {"float", "opaque"} THEN P.xtype[x.v] ELSE "!"
       [] x.k \in {"true", "false"} -> "bool"
       [] x.k \in {"lt", "le", "eq"} -> IF Cardinality(As) = 1 /\ Num2(T(1)) THEN "bool" ELSE "!"
       [] x.k \in {"add", "mul", "neg"} -> IF Cardinality(As) = 1 /\ Num2(T(1)) THEN T(1) ELSE "!"
       [] x.k = "div" -> IF As = {"float"} THEN "float" ELSE "!"
       [] x.k = "pow" -> IF T(1) = "float" /\ T(2) = (IF x.v = "powi" THEN "int" ELSE "float") THEN "float" ELSE "!"
       [] x.k = "atan2" -> IF As = {"float"} THEN "float" ELSE "!"
       [] x.k = "fn" /\ x.v = "abs" -> IF Num2(T(1)) THEN T(1) ELSE "!"
       [] x.k = "fn" -> IF As = {"float"} /\ x.v \in FloatFns THEN "float" ELSE "!"
       [] x.k \in {"sign", "floor"} -> IF Num2(T(1)) THEN "int" ELSE "!"
       [] x.k = "cast" -> x.v
       [] x.k = "where" -> IF T(1) = "bool" /\ T(2) = T(3) THEN T(2) ELSE "!"
       [] OTHER -> "!"
TypesOf(e) == FoldLeft(LAMBDA ts, x : Append(ts, TypeOf(x, ts)), <<>>, e)

(* ---------------------------- one statement ------------------------------ *)
Top == stack[Len(stack)]
Stm == P.blocks[Top.b][Top.i]
AtEnd == Top.i > Len(P.blocks[Top.b])
Advance == [stack EXCEPT ![Len(stack)].i = @ + 1]
Declares(names) == [stack EXCEPT ![Len(stack)].i = @ + 1, ![Len(stack)].d = @ \cup names]
InScope == UNION {stack[j].d : j \in 1..Len(stack)}
\* temporaries read by nodes e
Reads(e) == {e[i].v : i \in {j \in 1..Len(e) : e[j].k = "var" /\ e[j].v \notin DOMAIN P.atype}}

Reject(class, what, want, got) ==
  /\ phase' = "rejected"
  /\ PrintT("@@REJECT " \o ToJson([id |-> P.id, class |-> class, what |-> what, want |-> want, got |-> got,
        smp |-> smp, at |-> IF stack = <<>> THEN "end" ELSE ToString(<<Top.b, Top.i>>),
        req |-> [o \in DOMAIN req |-> IF req[o] THEN 1 ELSE 0],
        dec |-> [k \in {x \in DOMAIN env : x \notin DOMAIN P.env[smp] /\ x \notin DOMAIN types /\ x # "#dec"}
                   |-> env[k]]]))
  /\ UNCHANGED <<pid, smp, stack, env, types, req, outs, n>>

\* why the statement breaks the form, or ""
FormError(s) ==
  LET ts == TypesOf(s.e) IN
  IF "" \in DOMAIN outs THEN "statement after the return"
  ELSE IF ~(Reads(s.e) \subseteq InScope) THEN "temporary used outside of its scope"
  ELSE IF ~(Reads(s.e) \subseteq DOMAIN env) THEN "temporary used before it has a value"
  ELSE IF \E i \in 1..Len(ts) : ts[i] = "!" THEN "ill-typed operation"
  ELSE CASE s.s \in {"set", "decl"} ->
              IF Range(s.x) \cap DOMAIN types # {} THEN "declared twice"
              ELSE IF s.s = "set" /\ \E i \in 1..Len(s.x) : s.t[i] # ts[s.r[i]] THEN "type of the declaration"
              ELSE ""
         [] s.s = "assign" ->
              IF ~(Range(s.x) \subseteq InScope) THEN "assignment of an undeclared temporary"
              ELSE IF Range(s.x) \cap DOMAIN env # {} THEN "assigned twice"
              ELSE IF \E i \in 1..Len(s.x) : types[s.x[i]] # ts[s.r[i]] THEN "type of the assignment"
              ELSE ""
         [] s.s = "branch" -> IF ts[s.r[1]] # "bool" THEN "condition is not a boolean" ELSE ""
         [] s.s = "opt" -> IF ~\E o \in Range(P.outs) : o.u = "opt" /\ o.n = s.n THEN "no such optional output" ELSE ""
         [] s.s \in {"out", "ret"} ->
              LET os == {o \in Range(P.outs) : o.n = s.n /\ (o.u = "ret") = (s.s = "ret")} IN
              IF os = {} THEN "no such output"
              ELSE IF s.n \in DOMAIN outs THEN "output written twice"
              ELSE LET o == CHOOSE o \in os : TRUE IN
                   IF s.x # o.x THEN "shape of the output"
                   ELSE IF \E i \in 1..Len(s.x) : ts[s.r[i]] # o.t[i] THEN "type of the output"
                   ELSE IF o.u = "opt" /\ ~(s.n \in DOMAIN req /\ req[s.n]) THEN "written although not requested"
                   ELSE IF s.s = "ret" /\ Len(stack) # 1 THEN "return inside a block"
                   ELSE ""
         [] OTHER -> "unknown statement"

Exec(s) ==
  \E vals \in {EvalUpTo(s.e, env, <<>>, Len(s.e))} :
  LET pend == Pending(s.e, vals, env, 1..Len(s.e))
      Vs == [i \in 1..Len(s.r) |-> vals[s.r[i]]]
      bind == FoldLeft(LAMBDA acc, i : (s.x[i] :> Vs[i]) @@ acc, env, [i \in 1..Len(s.r) |-> i])
  IN IF pend # {} THEN Decide(pend) /\ UNCHANGED <<pid, smp, stack, types, req, outs, phase, n>>
     ELSE /\ n' = n + 1
          /\ CASE s.s = "decl" ->
                    /\ types' = FoldLeft(LAMBDA acc, i : (s.x[i] :> s.t[i]) @@ acc, types, [i \in 1..Len(s.x) |-> i])
                    /\ stack' = Declares(Range(s.x))
                    /\ UNCHANGED <<pid, smp, env, req, outs, phase>>
               [] s.s = "set" ->
                    /\ types' = FoldLeft(LAMBDA acc, i : (s.x[i] :> s.t[i]) @@ acc, types, [i \in 1..Len(s.x) |-> i])
                    /\ env' = bind
                    /\ stack' = Declares(Range(s.x))
                    /\ UNCHANGED <<pid, smp, req, outs, phase>>
               [] s.s = "assign" ->
                    /\ env' = bind
                    /\ stack' = Advance
                    /\ UNCHANGED <<pid, smp, types, req, outs, phase>>
               [] s.s = "branch" ->
                    \* an execution that depends on an undefined condition is not considered further
                    IF Vs[1] = Undef
                    THEN /\ phase' = "dead"
                         /\ PrintT("@@DEAD " \o ToJson([id |-> P.id]))
                         /\ UNCHANGED <<pid, smp, stack, env, types, req, outs>>
                    ELSE /\ stack' = Append(Advance, [b |-> IF Vs[1] = "T" THEN s.b1 ELSE s.b2, i |-> 1, d |-> {}])
                         /\ UNCHANGED <<pid, smp, env, types, req, outs, phase>>
               [] s.s = "opt" ->
                    \E q \in (IF s.n \in DOMAIN req THEN {req[s.n]} ELSE BOOLEAN) :
                      /\ req' = (s.n :> q) @@ req
                      /\ stack' = IF q THEN Append(Advance, [b |-> s.b1, i |-> 1, d |-> {}]) ELSE Advance
                      /\ UNCHANGED <<pid, smp, env, types, outs, phase>>
               [] s.s \in {"out", "ret"} ->
                    /\ outs' = (s.n :> Vs) @@ outs
                    /\ stack' = Advance
                    /\ UNCHANGED <<pid, smp, env, types, req, phase>>

(* ------------------------------ the end ---------------------------------- *)
Wanted == {i \in 1..Len(P.outs) : P.outs[i].u # "opt" \/ P.outs[i].n \notin DOMAIN req \/ req[P.outs[i].n]}
Roots == FoldLeft(LAMBDA acc, i : IF i \in Wanted THEN acc \cup Range(P.outs[i].r) ELSE acc,
                  {}, [i \in 1..Len(P.outs) |-> i])
\* Constants in generated code are rounded to double precision.  Where a value reacts strongly to a
\* slight perturbation of the intermediate results (or a comparison is that close), a difference of
\* the same size means nothing.
Sensitive(root, v, got) ==
  \E q \in {"1", "2"} :
    With(ValueAt(P.nodes, ("#p" :> q) @@ env, root),
         LAMBDA w : w = Undef \/ (w # v /\ (v \in {"T", "F"} \/ NCmp(NMul("64", NDist(w, v)), NDist(got, v)) = "gt")))
Compare ==
  \E R \in {ReachAll(P.nodes, Roots, Len(P.nodes))} :
  \E vals \in {FoldLeft(LAMBDA acc, i : Append(acc, IF i \in R THEN Den(P.nodes, env, acc, P.nodes[i]) ELSE Undef),
                        <<>>, [j \in 1..Len(P.nodes) |-> j])} :
  LET pend == Pending(P.nodes, vals, env, R)
      unknown == {r \in Roots : vals[r] = Undef}
      missing == {i \in Wanted : P.outs[i].n \notin DOMAIN outs}
      Differs(i) == LET o == P.outs[i] IN
                    {j \in 1..Len(o.r) : /\ vals[o.r[j]] # Undef
                                         /\ IF vals[o.r[j]] \in {"T", "F"} THEN outs[o.n][j] # vals[o.r[j]]
                                            ELSE ~NClose(vals[o.r[j]], outs[o.n][j], P.digits, "1")
                                         /\ ~Sensitive(o.r[j], vals[o.r[j]], outs[o.n][j])}
      bad == {i \in Wanted \ missing : Differs(i) # {}}
      cmp == Cardinality({r \in Roots : vals[r] # Undef})
  IN IF missing # {} THEN Reject("form", "output not written", "", P.outs[CHOOSE i \in missing : TRUE].n)
     ELSE IF unknown # {} /\ pend # {} THEN Decide(pend) /\ UNCHANGED <<pid, smp, stack, types, req, outs, phase, n>>
     ELSE IF bad # {} THEN
            LET i == CHOOSE i \in bad : TRUE
                j == CHOOSE j \in Differs(i) : TRUE
            IN Reject("value", "output " \o P.outs[i].n \o P.outs[i].x[j], vals[P.outs[i].r[j]], outs[P.outs[i].n][j])
     ELSE /\ phase' = "done"
          /\ PrintT("@@DONE " \o ToJson([id |-> P.id, cmp |-> cmp, undef |-> Cardinality(Roots) - cmp, n |-> n,
                      dec |-> Cardinality({x \in DOMAIN env : x \notin DOMAIN P.env[smp] /\ x \notin DOMAIN types}) - 1]))
          /\ UNCHANGED <<pid, smp, stack, env, types, req, outs, n>>

(* ------------------- placement (a static rule of property C12) ------------ *)
\* A computation whose only uses lie inside one side of a branch, or inside the block of one optional
\* output, is not executed outside of it; nor is one that has no use at all.  (Reading an argument or
\* naming a constant is no computation.)
Leaf(x) == x.k \in {"var", "num", "fnum", "const", "true", "false"}
\* the block that statement s of block b opens and that (transitively) contains block c
RECURSIVE Inside(_, _)
Inside(c, b) == c = b \/ \E i \in 1..Len(P.blocks[b]) : LET s == P.blocks[b][i] IN
                            \E d \in {s.b1, s.b2} \ {0} : Inside(c, d)
Children(b) == UNION {{P.blocks[b][i].b1, P.blocks[b][i].b2} : i \in 1..Len(P.blocks[b])} \ {0}
Misplaced ==
  LET BS == {<<b, i>> : b \in 1..Len(P.blocks), i \in 1..100}
      Stmts == {q \in BS : q[2] <= Len(P.blocks[q[1]])}
      At(q) == P.blocks[q[1]][q[2]]
      UseBlocks(names) == {q[1] : q \in {u \in Stmts : \E j \in 1..Len(At(u).e) :
                                            At(u).e[j].k = "var" /\ At(u).e[j].v \in names}}
  IN {q \in Stmts :
        /\ At(q).s = "set"
        /\ \E j \in 1..Len(At(q).e) : ~Leaf(At(q).e[j])
        /\ LET us == UseBlocks(Range(At(q).x)) IN
             us = {} \/ \E c \in Children(q[1]) : \A u \in us : Inside(u, c)}

Next ==
  \/ /\ phase = "check"
     /\ IF Misplaced # {} THEN Reject("form", "computation outside of the only block that uses it", "",
                                      ToString(CHOOSE q \in Misplaced : TRUE))
        ELSE phase' = "run" /\ UNCHANGED <<pid, smp, stack, env, types, req, outs, n>>
  \/ /\ phase = "run"
     /\ IF AtEnd
        THEN /\ IF Len(stack) > 1 THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ phase' = phase
                ELSE stack' = <<>> /\ phase' = "compare"
             /\ UNCHANGED <<pid, smp, env, types, req, outs, n>>
        ELSE LET fe == FormError(Stm) IN
             IF fe # "" THEN Reject("form", fe, "", Stm.n) ELSE Exec(Stm)
  \/ /\ phase = "compare"
     /\ Compare

Spec == Init /\ [][Next]_vars

=============================================================================
